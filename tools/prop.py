"""python3 tools/prop.py ID field 'text' : edit properties.jsonl by hand"""
import json, sys, os
fn = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
ps = [json.loads(l) for l in open(fn)]
for p in ps:
    if p['id'] == sys.argv[1]:
        p[sys.argv[2]] = sys.argv[3]
open(fn, 'w').write(''.join(json.dumps(p) + '\n' for p in ps))
