#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md from seeded/*/meta.json and tools/caught.txt."""
import json, glob, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = {}
p = os.path.join(root, 'tools', 'caught.txt')
if os.path.exists(p):
    for l in open(p):
        f = l.split(None, 2)
        if len(f) == 3:
            caught[f[0]] = (f[1], f[2].strip())
print('| bug | property | what it breaks | needs | caught by |')
print('|---|---|---|---|---|')
for d in sorted(glob.glob(os.path.join(root, 'seeded', '*'))):
    n = os.path.basename(d)
    m = json.load(open(os.path.join(d, 'meta.json')))
    c = caught.get(n, ('?', ''))
    print('| %s | %s | %s | %s | %s %s |' % (n, m['property'], m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/'), c[0], c[1]))
