"""C34 on the stream's behaviours."""
from mod_stream import *
TIMEOUT = 300
LINE = ENC
def CMP(ev, r, st): return None
