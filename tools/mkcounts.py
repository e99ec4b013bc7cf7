#!/usr/bin/env python3
"""Writes the tables of DESIGN.md: checks and counts from the sources, planted bugs from their meta.json."""
import re,json,glob,os
caught=json.load(open('/verif/tools/caught.json'))
rows=[]
for f in ['p_data','p_insert','p_read','p_proto','p_conf','p_mem','p_hist','p_tls','p_astd']:
    s=open(f'/verif/harness/src/{f}.rs').read(); cur=None
    for m in re.finditer(r'id: "(C\d+)"|Check \{\s*name: "([^"]*)",\s*what:\s*"((?:[^"\\]|\\.)*)",\s*quick: ([\d_]+),\s*thorough: ([\d_]+)',s):
        if m.group(1): cur=m.group(1); continue
        rows.append((cur,m.group(2),m.group(3),int(m.group(4)),int(m.group(5))))
rows.sort(key=lambda r:r[0])
t="| property | check | what | quick | thorough |\n|---|---|---|---|---|\n"+"".join(f"| {a} | {b} | {c.replace('|','/')} | {q:,} | {h:,} |\n" for a,b,c,q,h in rows)
d=open('/verif/DESIGN.md').read()
d=re.sub(r'<!-- counts -->.*?<!-- end -->',lambda m:'<!-- counts -->\n'+t+'<!-- end -->',d,flags=re.S)
t="| id | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n"
for p in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(p)); t+=f"| {os.path.basename(os.path.dirname(p))} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {caught.get(os.path.basename(os.path.dirname(p)),'')} |\n"
d=re.sub(r'<!-- seeds -->.*?<!-- endseeds -->',lambda m:'<!-- seeds -->\n'+t+'<!-- endseeds -->',d,flags=re.S)
open('/verif/DESIGN.md','w').write(d)
