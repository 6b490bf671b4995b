#!/usr/bin/env python3
"""Rewrites the tables at the end of DESIGN.md from known_findings.json and seeded/*/meta.json."""
import glob, json, os
V = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
MARK = '<!-- tables: bin/mktables.py -->'
d = open(V + '/DESIGN.md').read()
d = d.split(MARK)[0].rstrip() + '\n\n' + MARK + '\n\n## Defects found\n\n'
fs = json.load(open(V + '/known_findings.json'))['findings']
d += ('Each was first shown by a check failing on the unchanged tree, confirmed against the real code, and repaired with a "fix:" commit '
      '(known_findings.json; a fixed entry suppresses nothing).\n\n| property | commit | what failed |\n|---|---|---|\n')
for f in fs:
    if f['status'] == 'fixed':
        d += '| %s | %s | %s |\n' % (f['property'], f['commit'], f['what'])
k = [f for f in fs if f['status'] == 'known']
d += '\nKnown findings that are not repaired: %s\n' % (len(k) or 'none.')
for f in k:
    d += '\n* %s: %s' % (f['property'], f['what'])
d += '\n## Planted changes\n\nEvery change below compiles, passes the existing tests and is reported by the check of its property (quick tier).\n\n| change | property | needs | breaks |\n|---|---|---|---|\n'
for p in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(p))
    d += '| %s | %s | %s | %s |\n' % (os.path.basename(os.path.dirname(p)), m['property'], m['needs'].replace('|', '/'), m['what_it_breaks'].replace('|', '/'))
open(V + '/DESIGN.md', 'w').write(d)
