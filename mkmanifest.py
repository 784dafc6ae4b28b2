"""Regenerates MANIFEST.json (run by hand after adding a check)."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NOTES = json.load(open(os.path.join(V, 'levels.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'harness', i.lower() + '.py')) and i in NOTES['notes']:
        checks.append({'property': i, 'quick_cmd': f'./check.sh {i} quick', 'thorough_cmd': f'./check.sh {i} thorough',
                       'evidence_file': f'evidence/{i}.json', 'technique': NOTES['technique'].get(i, NOTES['technique']['default']),
                       'level': 'model_checking', 'level_note': NOTES['notes'][i]})
    else:
        na.append({'property': i, 'reason': NOTES['na'].get(i, 'check not built yet')})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
