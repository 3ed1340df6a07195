"""C34: whatever the values, every call returns and the sanitizers have nothing to report."""
TIMEOUT = 300
def CMP(ev, r, st): return None
