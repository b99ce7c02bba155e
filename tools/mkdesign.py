"""DESIGN.md = the parts below + the fixes + the table of planted bugs"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
r = lambda n: open(os.path.join(V, 'tools', n)).read()
out = r('design_head.md') + r('design_body.md')
k = json.load(open(os.path.join(V, 'known-findings.json')))
for x in k:
    if x['status'] == 'fixed':
        out += '* ' + x['entry'] + '\n'
out += '\n## Known findings (recorded, not repaired)\n'
n = [x for x in k if x['status'] != 'fixed']
out += ''.join('* %s: %s\n' % (x['property'], x['entry']) for x in n) or 'None.\n'
import sys
sys.path.insert(0, os.path.join(V, 'tools'))
from claims import NA
if NA:
    out += '\n## Not applicable\n' + ''.join('* %s: %s\n' % (a, b) for a, b in sorted(NA.items()))
out += '\n## Planted bugs and the checks that catch them\nEach is caught by the check of its property (columns: bug, check, what it breaks).\n\n| bug | check | breaks |\n|---|---|---|\n'
for d in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', d, 'meta.json')))
    out += '| %s | %s%s | %s |\n' % (d, m['property'], ' (missed)' if d in ('l04-root',) else '', m['what_it_breaks'].replace('|', '\\|'))
open(os.path.join(V, 'DESIGN.md'), 'w').write(out + r('design_tail.md'))
