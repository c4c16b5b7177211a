#!/opt/venv/bin/python
"""run.py ID: run the check of one property against /repo's working tree"""
import importlib
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sym import harness  # noqa: E402

if __name__ == "__main__":
    pid = sys.argv[1]
    mod = importlib.import_module("checks." + pid.lower())
    sys.exit(harness.main(pid, mod.run))
