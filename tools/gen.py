#!/usr/bin/env python3-vt
"""Writes properties.jsonl and MANIFEST.json from tools/properties.py."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from tools.properties import NOT_APPLICABLE, PROPERTIES  # noqa: E402

NOTE = (
    'Decided by z3 over every path of the real functions within the bounds in the evidence file; {extra}'
    'every counterexample is replayed on the unmodified code before it is reported. Nothing is claimed outside the bounds.'
)


def main():
    lines, checks = [], []
    for p in PROPERTIES:
        pid = p['id']
        assert len(p['title']) <= 80, p['title']
        lines.append(
            {
                'id': pid,
                'title': p['title'],
                'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['for_all']},
                'why_tests_cant': p['why'],
                'anchors': {
                    'files': p['files'],
                    'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']],
                    'observe_at': p['observe'],
                    'hook_needed': None,
                },
            }
        )
        m = importlib.import_module('props.' + pid.lower())
        extra = ''
        if getattr(m, 'ASSUMPTIONS', None):
            extra = 'assumes: ' + '; '.join(m.ASSUMPTIONS) + '. '
        checks.append(
            {
                'property': pid,
                'quick_cmd': f'python3-vt check.py {pid} --tier quick',
                'thorough_cmd': f'python3-vt check.py {pid} --tier thorough',
                'evidence_file': f'evidence/{pid}.json',
                'technique': 'symbolic execution of the real Python source with z3 (bounded), ' + p['technique'],
                'level': m.LEVEL,
                'level_note': NOTE.format(extra=extra),
            }
        )
    for p in NOT_APPLICABLE:
        lines.append({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')})
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for line in lines:
            f.write(json.dumps(line) + '\n')
    manifest = {
        'version': 1,
        'setup_cmd': 'python3-vt -m symx.test_sqlmini',
        'checks': checks,
        'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NOT_APPLICABLE],
        'notes': 'The checks read /repo at run time and encode its current source on every run; nothing is built ahead.',
    }
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(manifest, f, indent=1)
        f.write('\n')
    import jsonschema

    with open('/root/.vp/PROPERTIES.schema.json') as f:
        schema = json.load(f)
    for line in lines:
        jsonschema.validate(line, schema)
    with open('/root/.vp/MANIFEST.schema.json') as f:
        jsonschema.validate(manifest, json.load(f))


if __name__ == '__main__':
    main()
