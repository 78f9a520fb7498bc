#!/usr/bin/env python3
"""Build and confirm planted bugs: scripts/seed.py SPEC... (ids) ; specs in scripts/seeds/*.txt
Writes seeded/<id>/ and checks: patch applies, builds, stable tests pass, demo 0/!0, which check catches it."""
import sys, os, json, subprocess, shutil, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedwork"
def sh(c, cwd=None, env=None, t=400):
    return subprocess.run(c, shell=True, cwd=cwd, env=env, capture_output=True, text=True, timeout=t)
def parse(f):
    d = {"hunks": []}; txt = open(f).read()
    head, _, demo = txt.partition("\n+++ demo\n")
    lines = head.split("\n"); cur = None; i = 0
    while i < len(lines):
        l = lines[i]
        if l.startswith("--- "): cur = l[4:].strip()
        elif l == "<<<<":
            old, new = [], []; i += 1
            while lines[i] != "====": old.append(lines[i]); i += 1
            i += 1
            while lines[i] != ">>>>": new.append(lines[i]); i += 1
            d["hunks"].append((cur, "\n".join(old), "\n".join(new)))
        elif ": " in l and cur is None:
            k, v = l.split(": ", 1); d[k] = v.strip()
        i += 1
    d["demo"] = demo
    return d
DEMO = '''#!/bin/bash
# Exit 0 when the property's witness behaves, non-zero when it does not.
d=$(cd "$(dirname "$0")" && pwd)
o=$(mktemp -d)
trap 'rm -rf -- "$o"' EXIT
export TMPDIR="$o"
printf '{"Replace":{"%s/PKG/zz_seed_demo_test.go":"%s/demo_test.go.txt"}}' "$PWD" "$d" > "$o/overlay.json"
timeout 200 go test -count=1 -vet=off -overlay "$o/overlay.json" -run '^TestSeedDemo$' ./PKG
'''
def main():
    ids = sys.argv[1:]
    specs = sorted(glob.glob(V + "/scripts/seeds/*.txt"))
    for f in specs:
        sid = os.path.basename(f)[:-4]
        if ids and sid not in ids: continue
        d = parse(f)
        shutil.rmtree(W, ignore_errors=True)
        sh("cp -a /repo " + W)
        bad = None
        for (p, old, new) in d["hunks"]:
            s = open(W + "/" + p).read()
            if s.count(old) != 1: bad = "hunk matches %d times in %s" % (s.count(old), p); break
            open(W + "/" + p, "w").write(s.replace(old, new))
        if bad: print(sid, "BAD", bad); continue
        patch = sh("git diff", cwd=W).stdout
        out = V + "/seeded/" + sid; os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(patch)
        open(out + "/demo.sh", "w").write(DEMO.replace("PKG", d["pkg"])); os.chmod(out + "/demo.sh", 0o755)
        open(out + "/demo_test.go.txt", "w").write(d["demo"])
        json.dump({"property": d["property"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        b = sh("go build ./... && go vet ./common/... >/dev/null 2>&1; go build ./...", cwd=W)
        if b.returncode: print(sid, "BUILD", b.stderr[:400]); continue
        t = sh("go test ./common/hash/... ./common/limiter/...", cwd=W)
        if t.returncode: print(sid, "TESTS FAIL", t.stdout[-400:]); continue
        m = sh("bash %s/demo.sh" % out, cwd=W)
        o = sh("bash %s/demo.sh" % out, cwd="/repo")
        st = "demo ok" if (m.returncode != 0 and o.returncode == 0 and "build failed" not in m.stdout+m.stderr and "setup failed" not in m.stdout) else "DEMO BAD patched=%d clean=%d\n%s\n%s" % (m.returncode, o.returncode, m.stdout[-500:], o.stdout[-700:])
        env = dict(os.environ, SA_REPO=W, SA_VERIF="/tmp/seedverif")
        os.makedirs("/tmp/seedverif/evidence", exist_ok=True)
        if os.path.exists(V + "/known_findings.txt"): shutil.copy(V + "/known_findings.txt", "/tmp/seedverif/")
        c = sh("%s/bin/sa check %s" % (V, d["property"]), env=env)
        v = [l for l in c.stdout.split("\n") if l.startswith("VIOLATION")]
        print(sid, d["property"], st, "CAUGHT" if v and c.returncode == 1 else "MISSED rc=%d %s" % (c.returncode, c.stdout[-200:]))
    shutil.rmtree(W, ignore_errors=True)
main()
