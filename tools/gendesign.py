#!/usr/bin/env python3
"""Writes DESIGN.md. usage: gendesign.py LIST-QUICK-FILE (output of 'mc list quick')"""
import json,os,re,sys
here=os.path.dirname(os.path.abspath(__file__)); V=here+"/.."
sys.path.insert(0,here+"/design")
from props import D
sc={};cur=None
for l in open(sys.argv[1]):
    l=l.rstrip("\n")
    if re.match(r"C\d+$",l): cur=l; sc[cur]=[]
    elif l.strip(): sc[cur].append(l.strip())
seeds={}
r=here+"/design/seedresults.txt"
res={}
if os.path.exists(r):
    for l in open(r):
        p=l.split()
        if len(p)>2: res[p[0]]=p[2]
for i in sorted(os.listdir(V+"/seeded")):
    f=V+"/seeded/"+i+"/meta.json"
    if os.path.exists(f):
        m=json.load(open(f)); seeds.setdefault(m["property"],[]).append((i,m,res.get(i,"?")))
o=open(V+"/DESIGN.md","w")
o.write(open(here+"/design/head.md").read())
o.write("## 5. Per property\n\nBounds below are those of the quick tier as the check itself states them; `thorough` widens the numbers given in parentheses. Measured costs and counts are in `evidence/<id>.json`.\n\n")
for l in open(V+"/properties.jsonl"):
    p=json.loads(l); i=p["id"]; d=D[i]
    o.write(f"### {i} {p['title']}\n\n{d[0]}\n\nBeyond the tests: {d[1]}\n\n")
    for s in sc.get(i,[]): o.write(f"* {s}\n")
    if i in sc: o.write("\n")
    if i in seeds: o.write("Planted bugs: "+", ".join(f"{s} ({r.lower()})" for s,_,r in seeds[i])+".\n\n")
o.write(open(here+"/design/tail.md").read())
