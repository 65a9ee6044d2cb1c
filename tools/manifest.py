#!/usr/bin/env python3
"""writes MANIFEST.json from harness/plan.py and properties.jsonl"""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'harness'))
import plan  # noqa: E402

props = [json.loads(line) for line in open(os.path.join(VERIF, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in plan.PLAN:
        e = plan.PLAN[i]
        specs = sorted({d[0] for d in e.get('design', []) + e.get('gen', [])} | {h[3] if len(h) > 3 else 'StationMC' for h in e.get('hist', [])})
        checks.append({
            'property': i,
            'quick_cmd': './check %s' % i,
            'thorough_cmd': './check %s' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': e.get('technique') or 'TLA+ trace validation (%s)%s' % (e['trace'], ' + TLC model checking%s (%s)' % (' and replay' if e.get('gen') or e.get('hist') else '', ', '.join(specs)) if specs else ''),
            'level': 'model_checking',
            'level_note': e.get('note') or (
                'The TLA+ design model is checked exhaustively within its constants; the real code is decided only on the '
                'recorded executions, each of which TLC validates against the specification. Trusts TLC, the recorder '
                '(quantisation to scaled integers) and numpy/pandas.'),
        })
    else:
        na.append({'property': i, 'reason': plan.NA.get(i, 'check not built yet')})
m = {
    'version': 1,
    'setup_cmd': 'bash ./setup.sh',
    'checks': checks,
    'not_applicable': na,
    'notes': 'Explicit TLA+ specification in spec/, conformance by trace validation and behaviour replay; no hooks in /repo are needed. See DESIGN.md.',
}
json.dump(m, open(os.path.join(VERIF, 'MANIFEST.json'), 'w'), indent=1)
