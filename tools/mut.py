#!/usr/bin/env python3
"""Development aid: applies small edits to a scratch copy of /repo and says which checks notice.
usage: mut.py [-p PROP] [-k substring]   (runs /tmp/ck on a copy under /tmp/mut)"""
import subprocess, sys, shutil, os, glob, importlib.util
here=os.path.dirname(os.path.abspath(__file__))
def load():
    res=[]
    for f in sorted(glob.glob(here+"/mutants_*.py")):
        ns={}
        exec(open(f).read(), ns)
        res+=ns["M"]
    return res
def main():
    a=sys.argv[1:]
    prop=key=None; every=False
    while a:
        if a[0]=="-p": prop=a[1]; a=a[2:]
        elif a[0]=="-k": key=a[1]; a=a[2:]
        elif a[0]=="-A": every=True; a=a[1:]
        else: raise SystemExit("?")
    ms=[m for m in load() if (not prop or prop in m[0]) and (not key or key in m[1])]
    if every: ms=[([os.environ.get("ONLY","all")],m[1],m[2]) for m in ms if m[1].startswith("ok ")] # edits which keep the behaviour must keep every check quiet
    bad=0
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(max_workers=int(os.environ.get("J","6"))) as ex:
        for out,b in ex.map(lambda im: one(im[0],im[1],prop), enumerate(ms)):
            bad+=b
            if out: print(out,flush=True)
    print("bad:",bad)
def one(n,m,prop):
    props, name, edits = m
    D="/tmp/mut%d/%d"%(os.getpid(),n)
    out=[]; bad=0
    try:
        shutil.copytree("/repo", D, symlinks=True, ignore=shutil.ignore_patterns("testdata",".git"))
        for f,old,new in edits:
            s=open(D+"/"+f).read()
            if s.count(old)<1:
                return "!! no match %s %s %r"%(name,f,old),1
            open(D+"/"+f,"w").write(s.replace(old,new,1))
        b=subprocess.run(["go","build","./..."],cwd=D,capture_output=True,text=True,env=dict(os.environ,GOFLAGS="-mod=mod"))
        if b.returncode:
            return "!! does not build %s %s"%(name,b.stderr[:500]),1
        os.mkdir(D+"/.ev")
        for p in props:
            if prop and p!=prop: continue
            quiet = name.startswith("ok ")
            q=subprocess.run([os.environ.get("CK","/tmp/ck"),"-property",p,"-repo",D,"-verif",D+"/.ev"],capture_output=True,text=True)
            caught = q.returncode==1 and "VIOLATION property="+p in q.stdout
            und = "undecided" in q.stdout
            good = (not caught and q.returncode==0) if quiet else (caught and not und)
            if not good: bad+=1
            out.append(("ok   " if good else "FAIL ")+p+" "+name)
            if not good or os.environ.get("V"): out.append("      "+q.stdout.replace("\n","\n      ")+q.stderr[-500:])
    finally:
        shutil.rmtree(D, ignore_errors=True)
    return "\n".join(out),bad
main()
