#!/usr/bin/env python3
"""check.py Cxx [--tier quick|thorough] [--seed N] [--calibrate] [--replay FILE]: decide one property (see lib/run.py)."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import run
run.main()
