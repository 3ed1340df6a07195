"""C30: batches; the fourth result counts the calls."""
NO_RERUN = True
TIMEOUT = 400
def COUNT(ev, res): return int(res[3])
