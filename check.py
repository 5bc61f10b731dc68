#!/usr/bin/env python3
"""check.py <ID> [quick|thorough] [--seed N]: decide one property."""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from lib import core
pid = sys.argv[1].upper()
mod = importlib.import_module("checks." + pid.lower())
sys.exit(core.main(mod.run, pid, sys.argv[2:]))
