#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
os.chdir(os.path.dirname(os.path.abspath(__file__)) + '/..')
rows = []
for f in glob.glob('seeded/*/meta.json'):
    m = json.load(open(f))
    rows.append((m['property'], os.path.basename(os.path.dirname(f)), m['needs'].replace('|', '/')))
t = '| caught by | planted bug | needs |\n|---|---|---|\n' + ''.join('| %s | %s | %s |\n' % r for r in sorted(rows))
d = open('DESIGN.md').read()
d = re.sub(r'<!-- SEEDED -->.*<!-- /SEEDED -->', lambda _: '<!-- SEEDED -->\n' + t + '<!-- /SEEDED -->', d, flags=re.S)
open('DESIGN.md', 'w').write(d)
