# default encoding and comparison (see run.py)
