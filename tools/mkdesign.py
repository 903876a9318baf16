#!/usr/bin/env python3
# rewrites the table of planted bugs in DESIGN.md
import json,glob,os,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=['| change | needs | caught by |','|---|---|---|']
for d in sorted(glob.glob(V+'/seeded/*/meta.json')):
    m=json.load(open(d)); rows.append(f"| {os.path.basename(os.path.dirname(d))} | {m['needs']} | {m['property']} |")
s=open(V+'/DESIGN.md').read()
t='<!-- table -->\n'+'\n'.join(rows)+'\n<!-- end -->'
s=s.replace('@@TABLE@@',t) if '@@TABLE@@' in s else re.sub(r'<!-- table -->.*<!-- end -->',lambda _:t,s,flags=re.S)
open(V+'/DESIGN.md','w').write(s)
