#!/usr/bin/env python3
"""python3 check.py <PROPERTY> [quick|thorough]: decide one property against /repo's working tree."""
import importlib, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, "lib")); sys.path.insert(0, os.path.join(here, "checks"))
import vlib
pid = sys.argv[1]
sys.exit(vlib.main(pid, importlib.import_module(pid).run))
