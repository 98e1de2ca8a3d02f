#!/usr/bin/env python3
"""Rewrites the generated sections of DESIGN.md: seeded bugs and repaired defects."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = {}
f = os.path.join(root, 'tools', 'seednotes.tsv')
if os.path.exists(f):
    for l in open(f):
        k, v = l.rstrip('\n').split('\t', 1)
        notes[k] = v
rows = ['| change | caught by | what it breaks | needs | |', '|---|---|---|---|---|']
sd = os.path.join(root, 'seeded')
for d in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, d, 'meta.json')))
    c = lambda s: s.replace('|', '/').replace('\n', ' ')
    rows.append('| %s | %s | %s | %s | %s |' % (d, m['property'] if not notes.get(d, '').startswith('NOT CAUGHT') else '-', c(m['what_it_breaks']), c(m['needs']), notes.get(d, 'caught at first')))
fixes = []
known = []
for x in json.load(open(os.path.join(root, 'known_findings.json')))['findings']:
    if x['status'] == 'fixed':
        fixes.append('* `%s` %s (%s)' % (x['commit'], x['what'], ' '.join([x['property']] + x['also'])))
    else:
        known.append('* %s: %s' % (x['property'], x['what']))
p = os.path.join(root, 'DESIGN.md')
s = open(p).read()
for k, v in (('seeds', rows), ('fixes', fixes), ('known', known)):
    s = re.sub(r'(<!-- %s -->\n).*?(<!-- end -->)' % k, lambda m: m.group(1) + '\n'.join(v) + '\n' + m.group(2), s, flags=re.S)
open(p, 'w').write(s)
