#!/usr/bin/env python3
"""fills the tables of DESIGN.md from known_findings.txt and a table of seeded changes"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(os.path.join(V, 'tools', 'design.md')).read()
k = open(os.path.join(V, 'known_findings.txt')).read().split('\n')
fnd = [re.match(r'finding: property=(\S+) key=(\S+) (.*)', l).groups() for l in k if l.startswith('finding:')]
seeds = []
sd = os.path.join(V, 'seeded')
if os.path.isdir(sd):
    for s in sorted(os.listdir(sd)):
        m = json.load(open(os.path.join(sd, s, 'meta.json')))
        seeds.append('| %s | %s | %s |' % (s, m['property'], m['needs'].replace('|', '\\|')))
caught = json.load(open(os.path.join(V, 'tools', 'caught.json')))
seeds = [l + ' %s |' % caught.get(l.split('|')[1].strip(), '?') for l in seeds]
t = t.replace('{NFIX}', str(sum(l.startswith('fixed:') for l in k))).replace('{NFIND}', str(len(fnd)))
t = t.replace('{FINDINGS}', '\n'.join('* %s `%s`: %s' % f for f in fnd))
t = t.replace('{SEEDS}', '| change | breaks | needs | caught by |\n|---|---|---|---|\n' + '\n'.join(seeds))
open(os.path.join(V, 'DESIGN.md'), 'w').write(t)
