#!/usr/bin/env python3
"""Builds and validates the planted bugs under /verif/seeded from tools/seeds.py.

usage: seed.py [-c] [substring...]     -c also runs the check of the property
"""
import json, os, shutil, subprocess, sys, tempfile, re
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from seeds import S, HELPERS

DEMO = """#!/bin/bash
# exits 0 when the behaviour is right, non-zero when it is broken
d=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace": {"%%s/%(pkg)s/zz_demo_test.go": "%%s/demo_test.go.txt"}}\\n' "$PWD" "$d" > "$tmp/overlay.json"
export TMPDIR="$tmp"
timeout 250 go test -vet=off -count=1 %(race)s -overlay "$tmp/overlay.json" -run '^TestDemo$' ./%(pkg)s
"""

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **kw)

def main():
    args = sys.argv[1:]
    check = "-c" in args
    args = [a for a in args if a != "-c"]
    base = sh("git rev-list --max-parents=0 HEAD", "/repo").stdout.split()[0]
    bad = 0
    for s in S:
        if args and not any(a in s["id"] for a in args):
            continue
        tmp = tempfile.mkdtemp(prefix="seed")
        wt = os.path.join(tmp, "repo")
        try:
            sh("cp -a /repo %s" % wt, "/")
            sh("git checkout -q -- . && git clean -fdq", wt)
            ok = True
            for f, old, new in s["edits"]:
                p = os.path.join(wt, f)
                src = open(p).read()
                if src.count(old) != 1:
                    print(s["id"], "edit matches", src.count(old), "times:", f, old[:60]); ok = False; break
                open(p, "w").write(src.replace(old, new))
            if not ok:
                bad += 1; continue
            for f in {e[0] for e in s["edits"]}:
                sh("gofmt -w " + f, wt) if sh("gofmt -l " + f, "/repo").stdout == "" else None
            diff = sh("git diff", wt).stdout
            d = os.path.join(VERIF, "seeded", s["id"])
            os.makedirs(d, exist_ok=True)
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            pkg = s.get("pkg", ".")
            open(os.path.join(d, "demo_test.go.txt"), "w").write(s["test"].strip() + "\n" + HELPERS.get(s.get("helper", ""), ""))
            demo = DEMO % dict(pkg=pkg, race=s.get("race", ""))
            demo = demo.replace("/./zz", "/zz")
            open(os.path.join(d, "demo.sh"), "w").write(demo)
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
            # original lines touched?
            removed = []
            for f in {e[0] for e in s["edits"]}:
                blame = sh("git blame -s --line-porcelain HEAD -- %s" % f, wt).stdout
                lines = []
                cur = None
                for l in blame.split("\n"):
                    m = re.match(r"^([0-9a-f]{40}) \d+ (\d+)", l)
                    if m: cur = m.group(1)
                    elif l.startswith("\t"): lines.append(cur)
                ln = 0
                for l in sh("git diff -U0 -- " + f, wt).stdout.split("\n"):
                    m = re.match(r"^@@ -(\d+)", l)
                    if m: ln = int(m.group(1)); continue
                    if l.startswith("-") and not l.startswith("---"):
                        removed.append(lines[ln-1] == base); ln += 1
            r = sh("go build ./... && go test -count=1 -json ./...", wt)
            res = {}
            for l in r.stdout.split("\n"):
                if l.startswith("{"):
                    e = json.loads(l)
                    if e.get("Action") in ("pass", "fail") and e.get("Test"):
                        res[e["Package"] + "/" + e["Test"]] = e["Action"]
            stable = all(res.get(t) == "pass" for t in json.load(open("/opt/vp/BASELINE.json"))["stable"])
            dd = os.path.join(tmp, "demo"); os.makedirs(dd)
            for f in os.listdir(d):
                if not f.endswith((".diff", ".patch", "meta.json")): shutil.copy(os.path.join(d, f), dd)
            with_p = sh("bash %s/demo.sh" % dd, wt)
            without = sh("bash %s/demo.sh" % dd, "/repo")
            good = stable and with_p.returncode != 0 and without.returncode == 0 and any(removed)
            if "[build failed]" in with_p.stdout + with_p.stderr: good = False
            caught = ""
            if check:
                env = dict(os.environ)
                c = sh("/tmp/ck -property %s -repo %s -verif /tmp/seedev" % (s["prop"], wt), "/verif")
                caught = "CAUGHT" if c.returncode == 1 and "VIOLATION property=" + s["prop"] in c.stdout else "MISSED rc=%d" % c.returncode
            print("%-34s %s stable=%s orig=%s/%s demo: with=%d without=%d %s" % (s["id"], "ok " if good else "BAD", stable, sum(removed), len(removed), with_p.returncode, without.returncode, caught), flush=True)
            if not good:
                bad += 1
                if not stable: print(r.stdout[-2500:], r.stderr[-500:])
                if with_p.returncode == 0: print("demo passes with the patch")
                if "[build failed]" in with_p.stdout: print(with_p.stdout[-1500:])
                if without.returncode != 0: print(without.stdout[-1500:], without.stderr[-1500:])
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(1 if bad else 0)
main()
