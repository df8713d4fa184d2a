#!/usr/bin/env python3
"""Fills the generated parts of DESIGN.md from the manifest, the findings and tools/catches.json."""
import json,os
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s=open(R+'/tools/DESIGN.in.md').read()
m=json.load(open(R+'/MANIFEST.json'))
s=s.replace('@@NA@@','\n'.join('* **%s** %s'%(n['property'],n['reason']) for n in m['not_applicable']))
s=s.replace('@@FIXED@@','\n'.join('* '+l.strip()[len('fixed: '):] for l in open(R+'/known_findings.txt') if l.startswith('fixed:')))
c=json.load(open(R+'/tools/catches.json')) if os.path.exists(R+'/tools/catches.json') else {}
t=['| change | property | caught by | needs |','|---|---|---|---|']
for d in sorted(os.listdir(R+'/seeded')):
    j=json.load(open(R+'/seeded/%s/meta.json'%d))
    n=j['needs']; n=n if len(n)<160 else n[:157]+'...'
    t.append('| %s | %s | %s | %s |'%(d,j['property'],c.get(d,'?'),n.replace('|','/')))
s=s.replace('@@SEEDS@@','\n'.join(t))
s=s.replace('@@LEAN@@',open(R+'/tools/lean.in.md').read() if os.path.exists(R+'/tools/lean.in.md') else '')
open(R+'/DESIGN.md','w').write(s)
