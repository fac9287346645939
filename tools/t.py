#!/usr/bin/env python3-vt
# development helper: explore the cases matching a pattern, print statistics
import sys, os, tempfile, fnmatch, subprocess, json, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, dse
b = build.build()
pat = sys.argv[1] if len(sys.argv) > 1 else "*"
L = [l.split() for l in subprocess.check_output([b["bin"], "--list"]).decode().splitlines()]
cs = [(p, n) for p, n, t in L if (t == "quick" or os.environ.get("TIER") == "thorough") and fnmatch.fnmatch(p + ":" + n, pat)]
root = tempfile.mkdtemp(prefix="sym-")
t = time.time()
cfg = dict(bin=b["bin"], apl=b["apl"], root=root, path_tmo=60, solver_ms=20000)
r = dse.explore(cfg, cs, float(os.environ.get("BUDGET", "300")), int(os.environ.get("PATHS", "2000")))
for c in cs:
    s = r[c]
    if os.environ.get("Q") and not (s["viol"] or s["errors"] or s["undecided"] or s["left"] or s["full"] or s["solver_s"] > 20 or s["bounds"]): continue
    print(c, "paths", s["paths"], "left", s["left"], "full" if s["full"] else "", "asserts %d/%d" % (s["proved"], s["asserts"]), "dec", s["decisions"], "conc", s["conc"], "out", s["assumed_out"], dict(s["q"]), "%.1fs" % s["solver_s"])
    for k in ("notes", "undecided", "bounds"):
        if s[k]: print("   ", k, dict(s[k].most_common(8)))
    if os.environ.get("SITES"):
        for (k, v) in s["concsites"].most_common(8): print("    CONC %d %x %s" % (v, k[1], dse.sym_of(b["bin"], k[0])[:150]))
        for (k, v) in s["brsites"].most_common(12): print("    BR %d %s" % (v, dse.sym_of(b["bin"], k)[:150]))
    for e in s["errors"][:3]: print("   ERR", e)
    for v in s["viol"][:3]:
        ok, txt = dse.replay(b["bin"], b["apl"], c[0], c[1], v["inp"], root)
        print("   VIOL", v["what"], {k: hex(x) for k, x in v["inp"].items()}, "replay", ok, txt[-600:])
print("wall %.1f" % (time.time() - t), "paths", sum(r[c]["paths"] for c in cs))
import shutil; shutil.rmtree(root)
