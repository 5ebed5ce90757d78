#!/usr/bin/env python3
"""Writes sim/baseline.json: the literals of the tree this machinery was written against (see sim/aim.py)."""
import json, os, sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from sim import aim, world

with open(aim.BASELINE, "w") as f:
    json.dump(sorted(aim.literals(world.codes().src)), f, indent=0)
    f.write("\n")
