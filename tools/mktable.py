#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md from seeds.py."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds import SEEDS
D = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'DESIGN.md')
t = open(D).read()
a, b = t.index('<!-- seeds -->\n'), t.index('<!-- end of seeds -->')
rows = ['| seed | check | what breaks | needs |', '|---|---|---|---|']
for s in sorted(SEEDS, key=lambda s: s['id']):
    rows.append(f"| {s['id']} | {s['prop']} | {s['breaks']} | {s['needs']} |")
open(D, 'w').write(t[:a] + '<!-- seeds -->\n' + '\n'.join(rows) + '\n' + t[b:])
print(len(SEEDS), 'planted bugs')
