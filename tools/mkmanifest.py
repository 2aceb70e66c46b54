#!/usr/bin/env python3
"""Writes MANIFEST.json"""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, 'tools'))
from notes import NOTES, NOT_APPLICABLE
props = [json.loads(l)['id'] for l in open(os.path.join(here, 'properties.jsonl'))]
checks = []
for p in props:
    if p not in NOTES:
        continue
    checks.append({
        'property': p,
        'quick_cmd': '/opt/venv/bin/python harness/run.py %s --tier quick' % p,
        'thorough_cmd': '/opt/venv/bin/python harness/run.py %s --tier thorough' % p,
        'evidence_file': 'evidence/%s.json' % p,
        'technique': NOTES[p][0],
        'level': 'model_checking',
        'level_note': NOTES[p][1],
    })
out = {'version': 1, 'setup_cmd': 'true', 'checks': checks,
       'not_applicable': [{'property': p, 'reason': NOT_APPLICABLE.get(p, 'check under construction')} for p in props if p not in NOTES],
       'notes': 'TLA+ specification in spec/, checked with TLC; conformance by validating traces recorded from the '
                'code in /repo/src (and /repo/scripts) against it, and by replaying behaviours TLC generates. '
                'No hooks: the API exposes the abstract state. See DESIGN.md.'}
json.dump(out, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
