#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import collections, glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
by = collections.defaultdict(list)
n = 0
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    id = os.path.basename(os.path.dirname(f))
    p = json.load(open(f))['property']
    by[p].append(re.sub(r'^p\d+-', '', id))
    n += 1
t = ['<!-- seeded -->',
     '%d changes; ids below are without their property\'s prefix (`p04-`...), what each' % n,
     'needs and breaks is in its `meta.json`.', '',
     '| property | planted bugs (all caught by the property\'s quick check) |', '|---|---|']
for p in sorted(by):
    t.append('| %s | %s |' % (p, ', '.join(sorted(by[p]))))
t.append('<!-- /seeded -->')
d = open(V + '/DESIGN.md').read()
d = re.sub(r'<!-- seeded -->.*?<!-- /seeded -->', lambda m: '\n'.join(t), d, flags=re.S)
open(V + '/DESIGN.md', 'w').write(d)
print(n)
