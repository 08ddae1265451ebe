#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough] [--replay FILE] [-v] [--only HARNESS]"""
import argparse
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    p = argparse.ArgumentParser()
    p.add_argument('property')
    p.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    p.add_argument('--concrete-server', action='store_true')
    p.add_argument('--replay')
    p.add_argument('--only', action='append')
    p.add_argument('-j', type=int)
    p.add_argument('-v', action='store_true')
    a = p.parse_args()
    if os.environ.get('PYTHONHASHSEED') != '0':
        # set iteration order must be the same in every run of a path
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable] + sys.argv)
    from symx import runner

    if a.concrete_server:
        return runner.concrete_server(a.property)
    if a.replay:
        return runner.replay_file(a.property, a.replay)
    seed = int(os.environ.get('VERIF_SEED', '1'))
    return runner.run_check(a.property, a.tier, seed, a.j, a.only, a.v)


if __name__ == '__main__':
    sys.exit(main())
