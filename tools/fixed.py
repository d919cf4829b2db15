"""tools/fixed.py PROPERTY COMMIT WHAT... : record a repaired defect"""
import json, sys, os
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
d = json.load(open(p))
n = 1 + max(int(e['id'][1:]) for e in d['entries'] if e['id'][0] == 'F')
d['entries'].append({'id': 'F%02d' % n, 'property': sys.argv[1], 'status': 'fixed', 'what': 'fixed: property=%s %s %s' % (sys.argv[1], sys.argv[2], ' '.join(sys.argv[3:]))})
json.dump(d, open(p, 'w'), indent=1)
open(p, 'a').write('\n')
