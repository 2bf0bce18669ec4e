#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['needs'].replace('|', '/').replace('\n', ' '), m['property']))
t = '<!-- seeds -->\n| seeded bug | needs | caught by |\n|---|---|---|\n' + '\n'.join(rows) + '\n<!-- /seeds -->'
s = open(V + '/DESIGN.md').read()
s = re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda m: t, s, flags=re.S)
open(V + '/DESIGN.md', 'w').write(s)
