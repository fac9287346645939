#!/usr/bin/env python3
"""seed.py ID : confirms one planted bug of /verif/seeded against /repo (applied, built, tested, undone).
   seed.py new ID PROP FILE  (old text / new text / program / expected on stdin, separated by lines of '=====')"""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# runs p.cs with the april just built in the current directory and compares its output
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
cp "$d/p.cs" "$t/p.cs"
r=$PWD
out=$(cd "$t" && timeout 60 "$r/bin/april" run p.cs "$r/System.apl" 2>&1 | tr -d '\r')
rm -rf "$t"
if [ "$out" = "$(cat "$d/expected.txt")" ]; then echo "demo: output as expected"; exit 0; fi
echo "demo: wrong output:"; echo "$out" | head -40
exit 1
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def clean():
    sh("git -C /repo checkout -- .")
def build():
    r = sh("bash /opt/vp/build.sh"); return r.returncode == 0 and "build ok" in r.stdout, r.stdout[-1500:]
def stable():
    sh("bash /opt/vp/test.sh /tmp/seed-o.json"); o = json.load(open("/tmp/seed-o.json")); b = json.load(open("/opt/vp/BASELINE.json"))
    base = b["stable"]
    return sorted(set(base) - set(o["passed"]))
def confirm(i, check=True, full=True):
    d = os.path.join(ROOT, "seeded", i); m = json.load(open(d + "/meta.json"))
    try:
        if full:
            clean(); ok, t = build(); assert ok, t
            r = sh("bash %s/demo.sh" % d, cwd="/repo"); print("demo on clean tree:", r.returncode, r.stdout if r.returncode else "")
            if r.returncode: return False
        r = sh("git -C /repo apply %s/patch.diff" % d); assert r.returncode == 0, r.stdout
        if full:
            ok, t = build()
            if not ok: print("BUILD FAILS", t); return False
            bad = stable(); print("stable tests failing:", bad)
            if bad: return False
            r = sh("bash %s/demo.sh" % d, cwd="/repo"); print("demo with patch:", r.returncode, r.stdout[:300])
            if not r.returncode: return False
        if check:
            r = sh("python3-vt tools/check.py %s" % m["property"], cwd=ROOT)
            print("check:", r.returncode, "\n".join(l for l in r.stdout.splitlines() if not l.startswith("  compiled"))[-900:])
            return r.returncode == 1 and "VIOLATION property=%s" % m["property"] in r.stdout
        return True
    finally:
        clean()
def status(i, ok):
    p = os.path.join(ROOT, "tools", "seed_status.json"); st = json.load(open(p)) if os.path.exists(p) else {}
    st[i] = "yes" if ok else "no"; json.dump(st, open(p, "w"), indent=1, sort_keys=True)
    print(i, "CAUGHT" if ok else "NOT CAUGHT")
if __name__ == "__main__":
    if sys.argv[1] == "new":
        _, _, i, prop, f = sys.argv[:5]
        parts = [p.strip("\n") for p in sys.stdin.read().split("=====\n")]
        edits, (prog, exp, needs, breaks) = parts[:-4], parts[-4:]
        clean(); fs = f.split(",")
        for k in range(0, len(edits), 2):
            fn = "/repo/" + fs[min(k // 2, len(fs) - 1)]; s = open(fn).read()
            assert s.count(edits[k]) == 1, ("occurrences", s.count(edits[k]), edits[k])
            open(fn, "w").write(s.replace(edits[k], edits[k + 1]))
        d = os.path.join(ROOT, "seeded", i); os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout); clean()
        open(d + "/p.cs", "w").write(prog + "\n"); open(d + "/expected.txt", "w").write(exp + "\n")
        open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
        status(i, confirm(i))
    elif sys.argv[1] == "all":
        for i in sorted(os.listdir(os.path.join(ROOT, "seeded"))): print("==", i); status(i, confirm(i, full=len(sys.argv) > 2))
    else:
        for i in sys.argv[1:]: status(i, confirm(i))
