#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from tools/design.md."""
import json, os, subprocess
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(R + '/tools/design.md').read()
rows = subprocess.run([R + '/.build/harness', 'list'], text=True, stdout=subprocess.PIPE, check=True).stdout.strip().split('\n')
w = '| property | workload | build | quick cases | thorough cases |\n|---|---|---|---|---|\n'
for r in rows:
    a = r.split('\t'); w += '| %s | %s | %s | %s | %s |\n' % (a[0], a[1], a[2] or 'plain', a[3], a[4])
fx = ''
for l in open(R + '/known-findings.txt'):
    if l.startswith('fixed:'):
        _, p, c, text = l.strip().split(' ', 3)
        fx += '* %s (%s): %s\n' % (p.split('=')[1], c[:7], text)
rec = json.load(open(R + '/tools/seeded.json'))
s = '| bug | property | what it breaks | needs | caught by quick check |\n|---|---|---|---|---|\n'
for d in sorted(os.listdir(R + '/seeded')):
    m = json.load(open(R + '/seeded/%s/meta.json' % d))
    c = ', '.join(k if v else k + ' (missed)' for k, v in sorted(rec.get(d, {}).items()))
    s += '| %s | %s | %s | %s | %s |\n' % (d, m['property'], m['what_it_breaks'], m['needs'], c)
mut = open(R + '/tools/mutation.md').read()
for k, v in dict(WORKLOADS=w, FIXES=fx, SEEDED=s, MUT=mut).items(): t = t.replace('{{%s}}' % k, v.strip())
open(R + '/DESIGN.md', 'w').write(t)
