"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json
import os
import re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = ['| planted bug | caught by | what it needs |', '|---|---|---|']
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, d)))
    t.append('| %s | %s | %s |' % (d, m['property'], m['needs'].replace('|', '/')))
s = open(V + '/DESIGN.md').read()
s = s.replace('@TABLE@', t[0])
a = s.index(t[0])
b = re.compile(r'\n(?!\|)').search(s, a).start()
open(V + '/DESIGN.md', 'w').write(s[:a] + '\n'.join(t) + s[b:])
