#!/usr/bin/env python3
"""Refill the generated parts of DESIGN.md: costs in the property table (from evidence/) and the table of planted bugs."""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(R + '/DESIGN.md').read()
out = []
for l in s.split('\n'):
    m = re.match(r'\| (C\d\d) \|(.*)\|[^|]*\|[^|]*\|$', l)
    if m:
        try:
            d = json.load(open('%s/evidence/%s.json' % (R, m.group(1)))); c = d['coverage']
            l = '| %s |%s| %d / %d | %.0f |' % (m.group(1), m.group(2), c['configurations'], c['obligations'], d['wall_s'])
        except OSError: pass
    out.append(l)
s = '\n'.join(out)
i = s.index('| planted bug |') if '| planted bug |' in s else len(s)
t = ['| planted bug | property | needs |', '|---|---|---|']
for b in sorted(os.listdir(R + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (R, b))); t.append('| %s | %s | %s |' % (b, m['property'], m['needs']))
open(R + '/DESIGN.md', 'w').write(s[:i].rstrip() + '\n\n' + '\n'.join(t) + '\n')
