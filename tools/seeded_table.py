#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (between its two markers) from seeded/*/meta.json and
tools/caught.txt (lines: bug id, property and check that reported it)."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = {}
for line in open(f'{root}/tools/caught.txt'):
    if line.strip():
        bug, check = line.split(None, 1)
        caught[bug] = check.strip()
rows = []
for d in sorted(os.listdir(f'{root}/seeded')):
    m = json.load(open(f'{root}/seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m['needs']} | {m['what_it_breaks']} | {caught.get(d, '-')} |".replace('\n', ' '))
path = f'{root}/DESIGN.md'
text = open(path).read()
a, b = '<!-- planted -->\n', '<!-- /planted -->'
head, rest = text.split(a)
tail = rest.split(b)[1]
open(path, 'w').write(head + a + '| bug | needs | breaks | caught by |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n' + b + tail)
