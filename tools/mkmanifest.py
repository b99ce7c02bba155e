"""writes MANIFEST.json from properties.jsonl and the claims below"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from claims import CLAIMS, NA
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIMS:
        c = CLAIMS[i]
        checks.append(dict(property=i, quick_cmd='bin/check ' + i, thorough_cmd='VERIF_TIER=thorough bin/check ' + i, evidence_file='evidence/%s.json' % i,
                           technique=c['technique'], level=c.get('level', 'proof'), level_note=c['note']))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'not built yet')))
m = dict(version=1, setup_cmd='bin/setup', checks=checks, not_applicable=na, notes='No hooks: /repo carries only fix: commits. See DESIGN.md.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
