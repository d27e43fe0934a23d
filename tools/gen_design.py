#!/usr/bin/env python3
# fills the generated parts of DESIGN.md (developer helper): not-applicable list, table of planted bugs, sizes of the corpora
import json,glob,re
p='/verif/DESIGN.md'; s=open(p).read()
m=json.load(open('/verif/MANIFEST.json'))
na='\n'.join('* %s: %s'%(n['property'],n['reason']) for n in m['not_applicable'])
s=re.sub(r'### Not applicable\n.*?\n## 3\.',lambda _:'### Not applicable\n\n'+na+'\n\n## 3.',s,flags=re.S)
missed=set(open('/verif/tools/seeds/missed.txt').read().split())
rows=[]
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    i=f.split('/')[-2]; j=json.load(open(f)); rows.append('| %s | %s | %s | %s |'%(i,j['property'],j['what_it_breaks'],'nobody (see C42 below the table)' if False else ('no check' if i in missed else 'check of '+j['property'])))
s=re.sub(r'(\| planted bug \|.*?\n\|---.*?\n).*?\n\nMutant',lambda q:q.group(1)+'\n'.join(rows)+'\n\nMutant',s,flags=re.S)
t=[]
for f in sorted(glob.glob('/verif/tools/mutants/*.py')):
    ns={}; exec(open(f).read(),ns); M=ns['M']; n=sum(x['expect']=='fire' for x in M)
    t.append('%s %d/%d'%(f.split('/')[-1][:-3],n,len(M)-n))
s=re.sub(r'as recorded\)[^.]*\. The mutants',lambda _:'as recorded; to be caught/to stay quiet): '+', '.join(t)+'. The mutants',s)
open(p,'w').write(s)
