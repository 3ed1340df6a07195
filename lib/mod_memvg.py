"""C34 under valgrind: no use of uninitialised values, no invalid access, no leak."""
from mod_mem import *
WRAP = ["valgrind", "-q", "--error-exitcode=77", "--exit-on-first-error=yes", "--leak-check=full", "--show-leak-kinds=definite", "--errors-for-leak-kinds=definite"]
TIMEOUT = 400
