#!/usr/bin/env python3
"""Generates /verif/properties.jsonl and /verif/MANIFEST.json from props_data.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props_data import PROPS, NOT_APPLICABLE, NOTES
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        q = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
             'quantifier': {'over': p['over'], 'text': p['quant']},
             'why_tests_cant': p['why'],
             'anchors': {'files': p['files'], 'state': p.get('state', []), 'mechanism': [dict(name=n, where=w) for n, w in p['mech']],
                         'observe_at': p['observe'], 'hook_needed': p.get('hook')}}
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(q) + '\n')
na = {n['property'] for n in NOT_APPLICABLE}
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': [], 'not_applicable': NOT_APPLICABLE, 'notes': NOTES}
for p in PROPS:
    if p['id'] in na:
        continue
    m['checks'].append({'property': p['id'], 'quick_cmd': f"./check.sh {p['id']} quick", 'thorough_cmd': f"./check.sh {p['id']} thorough",
                        'technique': p['technique'], 'level': 'model_checking', 'level_note': p['note']})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
