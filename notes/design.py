#!/usr/bin/env python3
# rewrites the generated tables of DESIGN.md (between the marker comments) from props/*/property.json and seeded/*/meta.json
import json,glob,os,re
V='/verif/'
def sec(name,text):
    global d
    a,b=f'<!-- {name} -->',f'<!-- /{name} -->'
    i,j=d.index(a)+len(a),d.index(b)
    d=d[:i]+'\n'+text+'\n'+d[j:]
d=open(V+'DESIGN.md').read()
rows=['| id | property | contracts over | what is unbounded, what is bounded or assumed |','|---|---|---|---|']
for f in sorted(glob.glob(V+'props/*/property.json')):
    p=json.load(open(f)); files=', '.join('`'+re.sub(r'^packages/','',x).replace('/src/','/…/')+'`' for x in p['anchors']['files'])
    n=sum(len(re.findall(r'^contract\(',open(t).read(),re.M)) for t in glob.glob(os.path.dirname(f)+'/*.ts'))
    rows.append(f"| {f.split('/')[-2]} | {p['title']} | {n} contracts: {files} | {p['level_note']} |")
sec('PROPERTIES','\n'.join(rows))
rows=['| change | property | needs | breaks | caught by |','|---|---|---|---|---|']
for f in sorted(glob.glob(V+'seeded/*/meta.json')):
    m=json.load(open(f)); rows.append(f"| {f.split('/')[-2]} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {m['property']} |")
sec('SEEDS','\n'.join(rows))
k=json.load(open(V+'known-findings.json'))
sec('DEFECTS','\n'.join(f" - {x}" for x in k['fixed'])+'\n'+'\n'.join(f" - finding (not repaired): property={x['property']} {x['what']}" for x in k['findings']))
open(V+'DESIGN.md','w').write(d)
