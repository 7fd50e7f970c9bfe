import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from levels import LEVELS, NA
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
for i in ids:
    if i in NA: continue
    lv, tech, note = LEVELS[i]
    checks.append({'property': i, 'quick_cmd': 'python3 tools/check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3 tools/check.py ' + i, 'evidence_file': 'evidence/%s.json' % i, 'technique': tech, 'level': lv, 'level_note': note})
m = {'version': 1, 'setup_cmd': 'bash tools/setup.sh', 'checks': checks, 'not_applicable': [{'property': i, 'reason': NA[i]} for i in ids if i in NA], 'notes': 'No hooks are needed in /repo: the extraction reads the compiler\'s typed IR of the private functions, and the driver uses the public API only.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
