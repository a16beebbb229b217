#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table of checks (bin/stages.py) and properties.jsonl."""
import json, os, sys
HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HOME, 'bin'))
import stages
ids = [json.loads(l)['id'] for l in open(os.path.join(HOME, 'properties.jsonl'))]
checks, na = [], []
for p in ids:
    if p in stages.PROPS:
        s = stages.PROPS[p]
        checks.append({'property': p, 'quick_cmd': 'bin/check ' + p, 'thorough_cmd': 'VERIF_TIER=thorough bin/check ' + p,
                       'evidence_file': 'evidence/%s.json' % p, 'technique': s.get('technique', stages.TECHNIQUE),
                       'level': 'model_checking', 'level_note': s.get('note', stages.NOTE)})
    else:
        na.append({'property': p, 'reason': stages.UNCLAIMED.get(p, 'not built yet')})
json.dump({'version': 1, 'setup_cmd': 'bin/setup', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks: every observation goes through the public API of /repo. See DESIGN.md.'},
          open(os.path.join(HOME, 'MANIFEST.json'), 'w'), indent=1)
