#!/usr/bin/env python3
"""run.py PROPERTY quick|thorough [--only=SEARCH] [--replay=FILE] [--seed=N] [--scale=X]"""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

if __name__ == "__main__":
    from vlib import pbt, known
    prop = sys.argv[1]
    m = importlib.import_module("checks." + prop)
    sys.exit(pbt.run_property(prop, m.SUBS, known=known.matcher(prop, m), argv=sys.argv[2:], assumptions=getattr(m, "ASSUMPTIONS", None)))
