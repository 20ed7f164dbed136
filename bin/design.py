#!/usr/bin/env python3
"""Write DESIGN.md from bin/design_head.md, bin/design_data.py, properties.jsonl, MANIFEST.json and seeded/"""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(root)
sys.path.insert(0, root + '/bin')
from design_data import P, FINDINGS, MISSED
out = open('bin/design_head.md').read()
na = {x['property'] if 'property' in x else x.get('id'): x for x in json.load(open('MANIFEST.json'))['not_applicable']}
for l in open('properties.jsonl'):
    d = json.loads(l)
    out += '### %s %s\n\n' % (d['id'], d['title'])
    if d['id'] in na:
        out += 'Not applicable: %s\n\n' % na[d['id']]['reason']
    else:
        u, t = P[d['id']]
        out += 'Units: %s. %s\n\n' % (u, t)
out += FINDINGS
out += '## Planted bugs (seeded/) and the checks that catch them\n\n'
for s in sorted(os.listdir('seeded')):
    m = json.load(open('seeded/%s/meta.json' % s))
    out += '* `%s` (%s): %s. %s\n' % (s, m['property'], m['what_it_breaks'].rstrip('.'), MISSED.get(s, 'Caught by the %s check.' % m['property']))
open('DESIGN.md', 'w').write(out)
