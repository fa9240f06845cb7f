#!/opt/venv/bin/python
"""run.py <property id> [quick|thorough] [--replay FILE]"""
import importlib
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from mc import env  # noqa: E402,F401  (sets up the process before numpy/dorado)
from mc import core  # noqa: E402

if __name__ == "__main__":
    mod = importlib.import_module("checks." + sys.argv[1].lower())
    rc = core.main(mod, sys.argv[2:])
    sys.stdout.flush()
    sys.exit(rc)
