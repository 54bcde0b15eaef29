#!/usr/bin/env python3
"""table of the planted changes for DESIGN.md from seeded/*/meta.json and (optional) the output of runseeds.py given as arguments"""
import json, os, sys
V=os.path.abspath(os.path.join(os.path.dirname(__file__), "..")); res={}
for f in sys.argv[1:]:
    for l in open(f):
        w=l.split()
        if len(w)>4 and w[4] in ("CAUGHT","MISSED"): res.setdefault(w[0],{})[w[1]]=w[4]
rows=["| change | breaks | needs | caught by |","|---|---|---|---|"]
for id in sorted(os.listdir(V+"/seeded")):
    m=json.load(open(f"{V}/seeded/{id}/meta.json")); r=res.get(id,{})
    rows.append(f"| {id} ({m['property']}) | {m['what_it_breaks']} | {m['needs']} | {', '.join(c for c in sorted(r) if r[c]=='CAUGHT') or ('MISSED' if r else '?')} |".replace("\n"," "))
p=V+"/DESIGN.md"; s=open(p).read(); a,b="<!-- seeds -->","<!-- /seeds -->"
i,j=s.index(a)+len(a),s.index(b); open(p,"w").write(s[:i]+"\n"+"\n".join(rows)+"\n"+s[j:])
