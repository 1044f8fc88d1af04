#!/usr/bin/env python3
"""writes DESIGN.md from design.md, props.py, the analyser's list and the planted bugs"""
import os,subprocess,json,glob,re
here=os.path.dirname(os.path.abspath(__file__)); root=os.path.dirname(here)
exec(open(here+"/props.py").read())
rows=[l.split("\t") for l in subprocess.run([root+"/bin/ck","-list"],capture_output=True,text=True).stdout.splitlines()]
have={r[0]:r for r in rows}
out=[]
for p in sorted(PROPS,key=lambda p:p["id"]):
    if p["na"] or p["id"] not in have: continue
    out.append("### %s %s\n"%(p["id"],p["title"]))
    out.append("Method: %s. %s\n"%(p["technique"],have[p["id"]][-1]))
    out.append("Covers: %s. %s Cost: seconds to a minute on one core (all within 900 s).\n"%(p["text"],p["note"]))
    out.append("Beyond tests: %s\n"%p["why"])
na=["### Not applicable\n"]+["* %s (%s): %s"%(p["id"],p["title"],p["na"]) for p in sorted(PROPS,key=lambda p:p["id"]) if p["na"]]
seeds=["| planted bug | property | what it breaks | needs |","|---|---|---|---|"]
for d in sorted(glob.glob(root+"/seeded/*/meta.json")):
    m=json.load(open(d)); seeds.append("| %s | caught by %s | %s | %s |"%(os.path.basename(os.path.dirname(d)),m["property"],m["what_it_breaks"],m["needs"]))
ms=[]
for f in glob.glob(here+"/mutants_*.py"):
    g={}; exec(open(f).read(),g); ms+=g["M"]
t=open(here+"/design.md").read()
for k,v in {"PROPS":"\n".join(out),"NA":"\n".join(na) if len(na)>1 else "","SEEDS":"\n".join(seeds),"NMUT":str(len(ms)),"NOK":str(sum(m[1].startswith("ok ") for m in ms))}.items(): t=t.replace("@@%s@@"%k,v)
open(root+"/DESIGN.md","w").write(t)
