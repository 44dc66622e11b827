#!/usr/bin/env python3
# Rewrites the table of planted bugs in DESIGN.md (between the two marker lines)
# from seeded/*/meta.json. Run by hand after adding one; no check uses it.
import json,os,re
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=[]
for d in sorted(os.listdir(root+'/seeded')):
    m=json.load(open(f'{root}/seeded/{d}/meta.json'))
    f=re.findall(r'^\+\+\+ b/(\S+)',open(f'{root}/seeded/{d}/patch.diff').read(),re.M)
    need=m['needs'].replace('|','/').replace('\n',' ')
    rows.append(f"| {d} | {m['property']} | {', '.join(os.path.basename(x) for x in f)} | {need} |")
t="| planted bug | caught by (quick) | file | what it needs |\n|---|---|---|---|\n"+"\n".join(rows)
p=root+'/DESIGN.md'; s=open(p).read()
a,b='<!-- seeds -->','<!-- /seeds -->'
if a not in s: s=s.replace('SEEDTABLE',a+'\n'+b)
i,j=s.index(a)+len(a),s.index(b)
open(p,'w').write(s[:i]+"\n"+t+"\n"+s[j:])
print(len(rows))
