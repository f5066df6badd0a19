#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.md, known-findings.txt and the planted bugs."""
import glob, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
text = open(os.path.join(ROOT, 'tools', 'design.md')).read()
fixes = []
for l in open(os.path.join(ROOT, 'known-findings.txt')):
    if l.startswith('fixed: '):
        _, p, h, what = l.strip().split(' ', 3)
        fixes.append('| %s | %s | %s |' % (p[9:], h, what))
seeded = []
for d in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
    m = json.load(open(d))
    seeded.append('| %s | %s | %s | %s |' % (d.split(os.sep)[-2], m['what_it_breaks'], m['needs'], m['property']))
text = text.replace('@@FIXES@@', '| property | commit | what failed |\n|---|---|---|\n' + '\n'.join(fixes))
text = text.replace('@@SEEDED@@', '| id | what it breaks | needs | caught by |\n|---|---|---|---|\n' + '\n'.join(seeded))
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write(text)
