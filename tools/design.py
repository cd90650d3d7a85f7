#!/usr/bin/env python3
"""Composes DESIGN.md from design_head.md, the evidence of the last run, and design_tail.md."""
import json,os,glob
R='/verif/'
m=json.load(open(R+'MANIFEST.json'))
ch={c['property']:c for c in m['checks']}
props=[json.loads(l) for l in open(R+'properties.jsonl')]
seeds={}
for f in sorted(glob.glob(R+'seeded/*/meta.json')):
    j=json.load(open(f)); seeds.setdefault(j['property'],[]).append((f.split('/')[-2],j))
out=[open(R+'tools/design_head.md').read().rstrip(),'','## 2. Cost','','Every quick check takes between one second and about one minute on this sandbox, the thorough tier of T01 and T05 four to seven minutes; `thorough` runs the same rules over larger enumerations (tree shapes, address patterns) where there is something to enumerate, and is otherwise identical, since the rules already quantify over all inputs.','','## 3. Properties','']
boiler=('sequential exec','standard lib')
for p in props:
    i=p['id']
    if i not in ch: continue
    out.append('### %s %s'%(i,p['title']));out.append('')
    out.append('*Property.* '+p['statement']);out.append('')
    e=json.load(open(R+'evidence/%s.json'%i)); cov=e['coverage']
    x=cov.get('explanation','').split(' Every obligation is decided')[0]
    out.append('*Decided by.* '+x);out.append('')
    out.append('*Technique.* '+ch[i]['technique']+'. '+'*Bounds.* '+ch[i]['level_note'])
    a=[a for a in e.get('assumptions',[]) if not a.startswith(boiler)]
    if a: out.append('*Further assumptions.* '+' '.join(s[0].upper()+s[1:]+('' if s.endswith('.') else '.') for s in a))
    n=' on %d paths'%cov['paths'] if cov.get('paths') else ''
    out.append('*Size.* %d obligations%s, %d functions.'%(cov['obligations'],n,cov.get('functions_analysed',0)))
    out.append('')
rows=['| planted bug | check | what it breaks | needs |','|---|---|---|---|']
for k in sorted(seeds):
    for n,j in seeds[k]: rows.append('| %s | %s | %s | %s |'%(n,k,j['what_it_breaks'],j['needs']))
out.append(open(R+'tools/design_tail.md').read().replace('@SEEDS@','\n'.join(rows)))
open(R+'DESIGN.md','w').write('\n'.join(out))
