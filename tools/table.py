#!/usr/bin/env python3
"""Rewrites section 7 (SENSITIVITY) of DESIGN.md from seeded/*/meta.json."""
import json, glob, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
MISSED = {  # what had to be strengthened before the check caught it
 'b01-equal-at-top': 'books compared with copies that lack a level', 'f04-mid-pairs': 'ladders whose sides thin out at different depths',
 'l01-before-file': 'logging before a file is attached', 't02-minutes': 'gaps of hours with units above a second',
 'n01-swallow': 'send errors of every kind on the simulated wire, with counters of what reached it', 'f03-days-elapsed': 'receivers started days after the sender, clocks apart',
 's03-prefix16': 'codes that differ in one late character only',
}
try: MISSED.update(json.load(open('tools/missed.json')))
except FileNotFoundError: pass
s = open('DESIGN.md').read()
s = s[:s.index('## 7. SENSITIVITY')] if '## 7. SENSITIVITY' in s else s.rstrip() + '\n\n'
rows = [(f.split('/')[-2], json.load(open(f))) for f in sorted(glob.glob('seeded/*/meta.json'))]
s += f'''## 7. SENSITIVITY
{len(rows)} planted bugs; each is caught by the quick check of its property. "Missed first": the check missed it when it was planted, and what was added to it.

| planted bug | what it breaks | needs | missed first |
|---|---|---|---|
'''
for n, m in rows: s += f"| {n} | {m['what_it_breaks']} | {m['needs']} | {MISSED.get(n, '')} |\n"
s += open('tools/mutation.md').read() if os.path.exists('tools/mutation.md') else ''
open('DESIGN.md', 'w').write(s)
print(len(rows))
