#!/usr/bin/env python3
import json,os,re,glob,sys
sys.path.insert(0,'/verif')
os.chdir('/verif')
import importlib
left=[]
for f in sorted(glob.glob('checks/[A-Z]*.py')):
    i=os.path.basename(f)[:-3]
    P=importlib.import_module('checks.'+i).PROP
    a=getattr(P,'assumptions',())
    if a: left.append('* %s: %s.'%(i,'; '.join(a)))
rows=[]
C=json.load(open('caught.json'))
for d in sorted(os.listdir('seeded')):
    m=json.load(open('seeded/%s/meta.json'%d))
    rows.append('| %s | %s | %s | %s |'%(d,m['property'],m['what_it_breaks'].replace('|','/'),', '.join(C.get(d,[]))))
s=open('DESIGN.md').read()
def put(tag,head,text):
    global s
    if '@%s@'%tag in s: s=s.replace('@%s@'%tag,'<!-- %s -->\n%s\n<!-- /%s -->'%(tag,text,tag))
    else: s=re.sub(r'<!-- %s -->\n.*?\n<!-- /%s -->'%(tag,tag),lambda m:'<!-- %s -->\n%s\n<!-- /%s -->'%(tag,text,tag),s,flags=re.S)
put('LEFT','','\n'.join(left))
put('MATRIX','','| change | property | what it breaks | caught by |\n|---|---|---|---|\n'+'\n'.join(rows))
open('DESIGN.md','w').write(s)
