#!/usr/bin/env python3
# Writes the table of section 6 of DESIGN.md from seeded/*/meta.json and the obligations noted below.
import json,glob,os,re
root=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
ob=dict(l.rstrip("\n").split(" ",1) for l in open(os.path.join(root,"tools","seedobligations.txt")) if " " in l)
t="| planted bug | property | what it breaks | first failed obligation | failing input |\n|---|---|---|---|---|\n"
for d in sorted(glob.glob(os.path.join(root,"seeded","*"))):
    m=json.load(open(d+"/meta.json")); i=os.path.basename(d)
    o=ob.get(i,"? ?").rsplit(" ",1)
    t+="| %s | %s | %s (needs: %s) | `%s` | %s |\n"%(i,m["property"],m["what_it_breaks"],m["needs"],o[0],o[1])
f=os.path.join(root,"DESIGN.md"); s=open(f).read()
a=s.index("## 6. Which check"); b=s.index("## 7. Not applicable")
s=s[:a]+"## 6. Which check catches which bug\n"+t+"\n"+s[b:]
open(f,"w").write(s)
