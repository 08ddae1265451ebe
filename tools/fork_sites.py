#!/usr/bin/env python3-vt
"""Where the paths of one harness fork: fork_sites.py PID HARNESS PATHS"""
import collections
import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
import z3

import symx.runner as r
from symx import core

pid, name, limit = sys.argv[1], sys.argv[2], int(sys.argv[3])
r.setup_paths(True)
mod = r.load_property(pid)
h = {h.name: h for h in mod.HARNESSES}[name]
stack = [()]
stats = core.Stats()
solver = z3.Solver()
sites = collections.Counter()
orig = core.Ctx.branch if hasattr(core, 'Ctx') else None
cls = next(c for c in vars(core).values() if isinstance(c, type) and hasattr(c, 'branch'))
orig = cls.branch


def branch(self, *a, **k):
    before = len(self.siblings)
    try:
        return orig(self, *a, **k)
    finally:
        if len(self.siblings) > before:
            f, where = sys._getframe(1), []
            while f is not None and len(where) < 3:
                if '/symx/' not in f.f_code.co_filename and '_pyio' not in f.f_code.co_filename:
                    where.append(f'{os.path.basename(f.f_code.co_filename)}:{f.f_lineno} {f.f_code.co_name}')
                f = f.f_back
            sites[' < '.join(where)] += 1


cls.branch = branch
n = 0
random.seed(1)
while stack and n < limit:
    status, sibs, info = core.run_path(h.fn, stack.pop(random.randrange(len(stack))), solver, stats,
                                       {'cfg': h.cfgs['quick'], 'validate': False, 'max_decisions': 4000})
    stack.extend(sibs)
    n += 1
for where, count in sites.most_common(25):
    print(count, where)
