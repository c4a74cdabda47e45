#!/usr/bin/env python3
"""check.py ID: decide property ID for the code in /repo (tier from VERIF_TIER, seed from VERIF_SEED)."""
import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from mv import core

if __name__ == "__main__":
    pid = sys.argv[1].upper()
    mod = importlib.import_module("checks." + pid.lower())
    sys.exit(core.main(pid, mod.check))
