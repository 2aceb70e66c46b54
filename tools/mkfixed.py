#!/usr/bin/env python3
"""Rewrites the fixed: lines of known_findings.txt from this table and /repo's log (development aid)"""
import os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = dict(x.split() for x in """
6f8141c C01
d22f966 C01
61c3ab7 C02
5efc192 C02
25488ab C03
f056195 C22
d6d0854 C14
0eff7fd C14
c1bcfef C14
7779276 C10
f8568cd C16
d8d3cfa C16
f873873 C12
7113734 C12
15352fa C12
d06955d C12
a8b663b C12
abab1d6 C13
3912782 C09
cb20e47 C06
dd07ca7 C15
f685918 C17
1c59241 C17
00acc78 C18
57d3384 C17
e1c74df C18
a589c7a C19
904bb82 C19
f4efef5 C19
3adab3b C19
f0816e1 C19
6f02ea9 C23
6f0a11a C23
7441bb3 C23
8a72efd C25
47a1f52 C25
ebc63dd C08
d3826d4 C08
f471462 C14
a80daa1 C27
9cc2188 C22
b4b9ccd C22
22b9d10 C22
4060e16 C15
45f85b7 C18
""".strip().splitlines())
extra = os.path.join(here, 'tools', 'fixed_props.txt')
if os.path.exists(extra):
    PROPS.update(x.split() for x in open(extra).read().split('\n') if x.strip())
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], stdout=subprocess.PIPE).stdout.decode()
path = os.path.join(here, 'known_findings.txt')
lines = [l for l in open(path).read().split('\n') if not l.startswith('fixed:') and l.strip()]
for l in log.splitlines():
    (h, s) = l.split(' ', 1)
    if s.startswith('fix: '):
        lines.append('fixed: property=%s %s %s' % (PROPS[h], h, s[5:] + ' (before this commit it did not)' if False else s[5:]))
open(path, 'w').write('\n'.join(lines) + '\n')
