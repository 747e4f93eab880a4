#!/usr/bin/env python3
# Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json.
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '### Table: planted bug → check that reports it\n'
s = open(V + '/DESIGN.md').read()
if MARK in s: s = s[:s.index(MARK)]
s = s.rstrip('\n') + '\n\n' + MARK + '\nEvery one is reported by the check of its property (quick tier, seed 1).\n\n| bug | check | needs |\n|----|----|----|\n'
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(f)); s += '| %s | %s%s | %s |\n' % (f.split('/')[-2], d['property'], '', d['needs'].replace('|', '/'))
open(V + '/DESIGN.md', 'w').write(s)
