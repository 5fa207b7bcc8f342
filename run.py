#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough] [--only SUBSTR] [-j N] [-v]  |  run.py --replay FILE"""
import argparse
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
if 'z3' not in sys.modules:
    try:
        import z3
    except ImportError:
        os.execvp('python3-vt', ['python3-vt'] + sys.argv)
sys.setrecursionlimit(20000)
from sx import harness

ap = argparse.ArgumentParser()
ap.add_argument('prop', nargs='?')
ap.add_argument('--tier')
ap.add_argument('--only')
ap.add_argument('--replay')
ap.add_argument('-j', type=int)
ap.add_argument('-v', action='store_true')
a = ap.parse_args()
if a.replay:
    sys.exit(harness.replay(a.replay))
sys.exit(harness.main(a.prop, a.tier, a.only, a.j, a.v))
