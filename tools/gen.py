#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from props.py (claims only what the analyser registers)"""
import json,subprocess,os
here=os.path.dirname(os.path.abspath(__file__)); root=os.path.dirname(here)
exec(open(here+"/props.py").read())
have=set(l.split("\t")[0] for l in subprocess.run([root+"/bin/ck","-list"],capture_output=True,text=True).stdout.splitlines())
checks=[];na=[]
with open(root+"/properties.jsonl","w") as f:
    for p in sorted(PROPS,key=lambda p:p["id"]):
        assert len(p["title"])<=80,(p["id"],len(p["title"]))
        f.write(json.dumps({"id":p["id"],"title":p["title"],"statement":p["statement"],"quantifier":{"over":p["over"],"text":p["text"]},
          "why_tests_cant":p["why"],"anchors":{"files":p["files"],"mechanism":[{"name":a,"where":b} for a,b in p["mech"]]}},ensure_ascii=False)+"\n")
        if p["na"]: na.append({"property":p["id"],"reason":p["na"]}); continue
        if p["id"] not in have:
            na.append({"property":p["id"],"reason":"no check has been built for it yet"}); print("unclaimed",p["id"]); continue
        checks.append({"property":p["id"],"quick_cmd":"./check "+p["id"],"thorough_cmd":"./check "+p["id"],"technique":p["technique"],"level":"other","level_note":p["note"]})
for h in sorted(have-set(p["id"] for p in PROPS)): print("no property text for",h)
json.dump({"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":na},open(root+"/MANIFEST.json","w"),indent=1,ensure_ascii=False)
print(len(checks),"claimed",len(na),"not")
