#!/usr/bin/env python3
"""Refreshes the generated parts of DESIGN.md (defects, planted bugs)."""
import json,glob,os,re,sys
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); p=root+'/DESIGN.md'; s=open(p).read()
def put(tag,txt):
    global s
    s=re.sub(r'<!-- %s -->.*?<!-- /%s -->'%(tag,tag),lambda m:'<!-- %s -->\n%s\n<!-- /%s -->'%(tag,txt,tag),s,flags=re.S)
k=json.load(open(root+'/known_findings.json'))
put('findings','\n'.join('* `%s`: %s'%(f.split()[2],'%s (%s)'%(' '.join(f.split()[3:]),f.split()[1].split('=')[1])) for f in k['fixed'])+('' if k['findings'] else '\n\nNo finding is recorded without a repair.'))
notes={}
np=root+'/tools/seeds/notes.json'
if os.path.exists(np): notes=json.load(open(np))
rows=['| seed | property | what it breaks | added because of it |','|---|---|---|---|']
for f in sorted(glob.glob(root+'/seeded/*/meta.json')):
    m=json.load(open(f)); i=f.split('/')[-2]; rows.append('| %s | %s | %s | %s |'%(i,m['property'],m['what_it_breaks'],notes.get(i,'')))
put('seeds','\n'.join(rows)); open(p,'w').write(s)
