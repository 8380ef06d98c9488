"""rewrites the table of planted bugs in DESIGN.md"""
import glob
import json
import os
import re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
for f in sorted(glob.glob(here + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.setdefault(m['property'], []).append('%s (%s)' % (os.path.basename(os.path.dirname(f)), m['needs']))
t = '| check | planted bugs |\n|---|---|\n' + ''.join('| %s | %s |\n' % (k, '; '.join(v)) for k, v in sorted(rows.items()))
p = here + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'\| check \| planted bugs \|\n\|---\|---\|\n(?:\|.*\n)*', lambda _: t, s)
open(p, 'w').write(s)
