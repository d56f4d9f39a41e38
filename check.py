#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N] [--budget SECONDS] [--replay FILE]"""
import argparse, os, sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from lib import runner

a = argparse.ArgumentParser()
a.add_argument("property")
a.add_argument("--tier")
a.add_argument("--seed", type=int)
a.add_argument("--budget", type=float)
a.add_argument("--workers", type=int)
a.add_argument("--replay")
o = a.parse_args()
sys.exit(runner.main(o.property.upper(), o.tier, o.seed, o.replay, o.budget, o.workers))
