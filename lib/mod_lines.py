"""Sweeps: the last result is how many inputs were tried."""
def COUNT(ev, res): return int(res[-1])
