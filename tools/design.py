#!/usr/bin/env python3-vt
"""Rewrites the generated parts of DESIGN.md: the per-property sections and the list of planted bugs."""
import glob
import importlib
import inspect
import json
import os
import re
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from tools.properties import PROPERTIES  # noqa: E402


def section(p):
    m = importlib.import_module('props.' + p['id'].lower())
    out = [f"### {p['id']}: {p['title']}", '', p['statement'], '',
           f"*Quantified over:* {p['for_all']}. *Why tests cannot settle it:* {p['why']}", '',
           f"*Oracle:* {p['technique']}. *Code encoded:* " + '; '.join(w for _, w in p['mechanism']) + '.', '',
           '| harness | what is asserted | bounds (quick) |', '|---|---|---|']
    for h in m.HARNESSES:
        doc = ' '.join((inspect.getdoc(h.fn) or '').split()) or h.name
        out.append(f'| {h.name} | {doc} | {h.bounds} |')
    out.append('')
    if getattr(m, 'ASSUMPTIONS', None):
        out.append('*Assumes:* ' + '; '.join(m.ASSUMPTIONS) + '.')
    if getattr(m, 'OUTSIDE', None):
        out.append('*Outside the bounds:* ' + '; '.join(m.OUTSIDE) + '.')
    return '\n'.join(out) + '\n'


def seeds():
    out = ['| id | property | what it breaks | needs | caught by |', '|---|---|---|---|---|']
    for f in sorted(glob.glob(ROOT + '/seeded/*/meta.json')):
        m = json.load(open(f))
        out.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | "
                   f"{m.get('caught_by', m['property'])} |")
    return '\n'.join(out) + '\n'


def fixed():
    out = []
    for line in open(ROOT + '/known_findings.txt'):
        if m := re.match(r'fixed: property=(\S+) (\S+) (.*)', line):
            out.append(f'- {m[1]} `{m[2]}`: {m[3]}')
    return '\n'.join(out) + '\n'


def main():
    path = ROOT + '/DESIGN.md'
    s = open(path).read()
    for name, text in [('properties', '\n'.join(section(p) for p in PROPERTIES)), ('seeds', seeds()), ('fixed', fixed())]:
        a, b = f'<!-- {name} -->\n', f'<!-- /{name} -->'
        i, j = s.index(a) + len(a), s.index(b)
        s = s[:i] + text + s[j:]
    with open(path, 'w') as f:
        f.write(s)


if __name__ == '__main__':
    main()
