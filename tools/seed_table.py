#!/usr/bin/env python3
"""Rewrites the list of planted changes at the end of DESIGN.md from seeded/*/meta.json (development aid)."""
import json, os
s = open('/verif/DESIGN.md').read()
head = '| seed | caught by | needs |\n|---|---|---|\n'
i = s.index(head) + len(head)
j = i
while s.startswith('|', j):
    j = s.index('\n', j) + 1
rows = ''
for d in sorted(os.listdir('/verif/seeded')):
    m = json.load(open(f'/verif/seeded/{d}/meta.json'))
    rows += f"| {d} | {m['property']} | {m['needs']} |\n"
open('/verif/DESIGN.md', 'w').write(s[:i] + rows + s[j:])
