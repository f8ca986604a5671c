#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the list of claimed checks."""
import json, os
here = os.path.dirname(os.path.abspath(__file__)) + '/..'
props = [json.loads(l) for l in open(here + '/properties.jsonl')]
T = json.load(open(here + '/tools/checks.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if i in T:
        checks.append({
            'property': i,
            'quick_cmd': f'bash check.sh {i} quick',
            'thorough_cmd': f'bash check.sh {i} thorough',
            'evidence_file': f'evidence/{i}.json',
            'technique': T[i]['technique'],
            'level': 'model_checking',
            'level_note': T[i]['note'],
        })
    else:
        na.append({'property': i, 'reason': 'no check yet'})
m = {'version': 1, 'setup_cmd': 'bash check.sh build', 'checks': checks, 'not_applicable': na}
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
