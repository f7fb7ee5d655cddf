#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from the seeds' metadata."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(root, 'DESIGN.md')
MARK = '<!-- planted bugs: written by tools/mkdesign.py -->\n'
text = open(p).read().split(MARK)[0]
rows = []
later = set(open(os.path.join(root, 'tools', 'strengthened.txt')).read().split())
for d in sorted(os.listdir(os.path.join(root, 'seeded'))):
    m = json.load(open(os.path.join(root, 'seeded', d, 'meta.json')))
    rows.append('| %s | %s | %s | %s |' % (d, m['property'], m['what_it_breaks'], 'after strengthening' if d in later else 'yes'))
open(p, 'w').write(text + MARK + '\n| change | property | what it breaks | caught by its check |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n')
