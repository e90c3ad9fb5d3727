#!/usr/bin/env python3-vt
"""DESIGN.md from tools/design.tmpl, symx/spec.py, seeded/ and known_findings.txt"""
import sys, os, json, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'symx'))
import spec
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
T = open(os.path.join(V, 'tools', 'design.tmpl')).read()
rows = []
for p in props:
    s = spec.SPEC.get(p['id'])
    if not s:
        continue
    sec = json.load(open(os.path.join(V, 'tools', 'times.json'))).get(p['id'], '')
    rows.append('* **%s %s** (harness %s, about %s s). *Oracle:* %s. *Bounds:* %s.%s' % (
        p['id'], p['title'], ', '.join('`h/%s`' % j['h'] for j in s['jobs']), sec, s.get('oracle', ''), s['bounds'],
        ' *Outside:* %s.' % s['outside'] if s.get('outside') else ''))
na = ['Not applicable or not claimed (listed in MANIFEST.json with these reasons):', '']
for p in props:
    if p['id'] not in spec.SPEC:
        na.append('* **%s %s**: %s' % (p['id'], p['title'], spec.NA.get(p['id'], 'no check built for this property yet')))
if len(na) == 2:
    na = ['Every property in properties.jsonl is claimed.']
seeds = ['| change | property | needs | caught by |', '|---|---|---|---|']
for d in sorted(glob.glob(os.path.join(V, 'seeded', '*'))):
    m = json.load(open(os.path.join(d, 'meta.json')))
    seeds.append('| %s | %s | %s | %s |' % (os.path.basename(d), m['property'], m['needs'].replace('|', '/'), m.get('caught_by', 'check ' + m['property'])))
kf = [l.strip() for l in open(os.path.join(V, 'known_findings.txt')) if l.strip()]
kft = '\n\n' + '\n'.join('* ' + l for l in kf)
for k, v in (('TABLE', '\n'.join(rows)), ('NA', '\n'.join(na)), ('SEEDS', '\n'.join(seeds)), ('KF', kft)):
    T = T.replace('@@%s@@' % k, v)
open(os.path.join(V, 'DESIGN.md'), 'w').write(T)
