"""Prints the table of the planted bugs for DESIGN.md: python3 tools/seedtable.py < results (lines "id yes|no")"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = dict(l.split()[:2] for l in sys.stdin if l.strip())
print('| bug | needs | caught by |\n|----|----|----|')
for s in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', s, 'meta.json')))
    print('| %s | %s | %s |' % (s, m['needs'].replace('|', '/'), {'yes': m['property'], 'no': 'missed'}.get(res.get(s), '?')))
