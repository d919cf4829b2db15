#!/usr/bin/env python3
"""writes MANIFEST.json from the properties and the checks that exist"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NOTE = json.load(open(V + '/lib/notes.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists('%s/checks/%s.py' % (V, i)) and i in NOTE:
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': 'TLA+ specification checked with TLC; its behaviours replayed into the library: ' + NOTE[i]['technique'],
                       'level': 'model_checking', 'level_note': NOTE[i]['note']})
    else:
        na.append({'property': i, 'reason': NOTE.get(i, {}).get('reason', 'check not built yet')})
m = {'version': 1, 'setup_cmd': 'python3 setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks are needed: the library is header-only and everything observed is its public interface. See DESIGN.md.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
