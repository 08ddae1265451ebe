#!/usr/bin/env python3
"""tools/mkseed.py SPEC.py -- SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS [(file, old, new)], DEMO (python source).

Writes /verif/seeded/ID/{patch.diff,demo.sh,demo.py,meta.json}."""
import json
import os
import subprocess
import sys
import tempfile


def make(ns):
    d = f'/verif/seeded/{ns["ID"]}'
    os.makedirs(d, exist_ok=True)
    with tempfile.TemporaryDirectory() as t:
        files = {f for f, _, _ in ns['EDITS']}
        for f in files:
            os.makedirs(os.path.dirname(f'{t}/a/{f}'), exist_ok=True)
            os.makedirs(os.path.dirname(f'{t}/b/{f}'), exist_ok=True)
            text = open(f'/repo/{f}').read()
            open(f'{t}/a/{f}', 'w').write(text)
            for g, old, new in ns['EDITS']:
                if g == f:
                    assert text.count(old) == 1, (f, text.count(old), old)
                    text = text.replace(old, new)
            open(f'{t}/b/{f}', 'w').write(text)
        r = subprocess.run(['git', 'diff', '--no-index', '--no-prefix', 'a', 'b'], cwd=t, capture_output=True, text=True)
        out = r.stdout
        for f in files:
            root = subprocess.run(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], capture_output=True, text=True).stdout.split()[0]
            base = subprocess.run(['git', '-C', '/repo', 'show', f'{root}:{f}'], capture_output=True, text=True).stdout.splitlines()
            for line in out.splitlines():
                if line.startswith('-') and not line.startswith('---') and len(files) == 1 and line[1:] not in base:
                    print('not an original line:', line)
    open(d + '/patch.diff', 'w').write(out)
    open(d + '/demo.py', 'w').write(ns['DEMO'].lstrip('\n'))
    open(d + '/demo.sh', 'w').write(
        '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
    )
    json.dump({'property': ns['PROPERTY'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']},
              open(d + '/meta.json', 'w'), indent=1)


for spec in sys.argv[1:]:
    ns = {}
    exec(open(spec).read(), ns)
    make(ns)
    print('written', ns['ID'])
