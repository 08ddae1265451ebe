#!/usr/bin/env python3-vt
"""Profiles the exploration of one harness: profile_paths.py PID HARNESS PATHS"""
import cProfile
import os
import pstats
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
import z3

import symx.runner as r
from symx import core

pid, name, limit = sys.argv[1], sys.argv[2], int(sys.argv[3])
r.setup_paths(True)
mod = r.load_property(pid)
h = {h.name: h for h in mod.HARNESSES}[name]
stack = [()]
stats = core.Stats()
solver = z3.Solver()


def main():
    n = 0
    while stack and n < limit:
        status, sibs, info = core.run_path(h.fn, stack.pop(), solver, stats, {'cfg': h.cfgs['quick'], 'validate': False, 'max_decisions': 4000})
        stack.extend(sibs)
        n += 1
        if status != 'ok':
            print(status, info.get('label'), info.get('error'), info.get('tb'))


main()
cProfile.run('main()', '/tmp/prof.out')
pstats.Stats('/tmp/prof.out').sort_stats('cumulative').print_stats(45)
