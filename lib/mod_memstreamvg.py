"""C34 on the stream's behaviours, under valgrind."""
from mod_memstream import *
from mod_memvg import WRAP, TIMEOUT
