"""tools/note.py ID text: level note of a property"""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'levels.json')
d = json.load(open(p))
d['notes'][sys.argv[1]] = sys.argv[2]
json.dump(d, open(p, 'w'), indent=1)
