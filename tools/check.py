#!/usr/bin/env python3-vt
"""check.py PROP [quick|thorough]: decides one property by symbolic execution of the april code in /repo.

exit 0: every assertion was discharged (or nothing refuted within the budget; evidence says what is left)
exit 1: a counterexample, replayed on the native code, on stdout as VIOLATION property=.. replay=..
exit 2: the check could not run (build error)
"""
import collections, hashlib, json, os, subprocess, sys, tempfile, time, shutil
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build, dse

BUDGET = {"quick": 420.0, "thorough": 3000.0}
PATHS = {"quick": 3000, "thorough": 40000}
SOLVER_MS = {"quick": 20000, "thorough": 120000}


def load_known():
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p): return []
    return json.load(open(p)).get("findings", [])


def write_replay(prop, n, case, v, txt, b):
    d = os.path.join(ROOT, "evidence", "replay"); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%d.txt" % (prop, n))
    with open(p, "w") as f:
        f.write("property %s, case %s\nviolated: %s\n\ninputs:\n" % (prop, case, v["what"]))
        for k, x in sorted(v["inp"].items()): f.write("  %s = %d (0x%x)\n" % (k, x, x))
        f.write("\nreplay (natively, no symbolic values):\n  python3-vt /verif/tools/replay.py %s %s %s\n\noutput of the replay:\n%s\n" %
                (prop, case, " ".join("%s=%d" % x for x in sorted(v["inp"].items())), txt))
    return p


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    evp = os.path.join(ROOT, "evidence", prop + ".json")
    if os.path.exists(evp): os.unlink(evp)
    try:
        b = build.build()
    except build.BuildError as e:
        print("BUILD-ERROR", e); return 2
    L = [l.split() for l in subprocess.check_output([b["bin"], "--list"]).decode().splitlines()]
    cs = [(p, n) for p, n, t in L if p == prop and (t == "quick" or tier == "thorough")]
    if not cs:
        print("no cases for", prop); return 2
    known = [k for k in load_known() if k["property"] == prop]
    root = tempfile.mkdtemp(prefix="sym-")
    confirmed, unconfirmed, knownhit = [], [], collections.OrderedDict()
    seen = collections.Counter()

    def on_result(c, s, r):
        for v in r.get("viol", ()):
            if seen[c] >= 5: continue
            seen[c] += 1
            ok, txt = dse.replay(b["bin"], b["apl"], c[0], c[1], v["inp"], root)
            if not ok:
                unconfirmed.append((c, v, txt[-500:])); continue
            k = next((k for k in known if k["case"] == c[1] and k.get("what", "") in v["what"]), None)
            if k is not None:
                knownhit[k["id"]] = k; continue
            confirmed.append((c, v, txt))
        return bool(confirmed)

    tb = time.time()
    try:
        cfg = dict(bin=b["bin"], apl=b["apl"], root=root, path_tmo=60 if tier == "quick" else 300, solver_ms=SOLVER_MS[tier])
        st = dse.explore(cfg, cs, float(os.environ.get("VERIF_BUDGET", BUDGET[tier])), PATHS[tier], on_result)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    te = time.time()

    tot = lambda k: sum(s[k] for s in st.values())
    q = collections.Counter(); notes = collections.Counter(); und = collections.Counter(); bnd = collections.Counter(); ra = set()
    for s in st.values():
        q.update(s["q"]); notes.update(s["notes"]); und.update(s["undecided"]); bnd.update(s["bounds"]); ra |= s["ra"]
    knowncases = {k["case"] for k in knownhit.values()}
    incomplete, complete = [], []
    bad = ("ENGINE-MISMATCH", "ENCODING-XCHECK", "DIVERGED", "STALE", "LOST", "EXT")
    for c in cs:
        s = st[c]; why = []
        if s["left"]: why.append("%d path prefixes left" % s["left"])
        if s["full"]: why.append("path limit")
        if s["undecided"]: why.append("%d undecided" % sum(s["undecided"].values()))
        if s["bounds"]: why.append(str(dict(s["bounds"])))
        if s["errors"]: why.append("errors: " + str(s["errors"][0])[:300])
        if not s["paths"]: why.append("not started")
        n = {k: v for k, v in s["notes"].items() if k.startswith(bad) and not k.startswith("EXT-ARG")}
        if n: why.append("notes %s" % n)
        if s["paths"] and s["asserts"] == 0: why.append("no assertion reached")
        if why: incomplete.append({"case": c[1], "why": why})
        else: complete.append(c[1])
    funcs = sorted({dse.sym_of(b["bin"], a) for a in ra})
    funcs = [f for f in funcs if "april::" in f]
    cases = {}
    for c in cs:
        s = st[c]
        cases[c[1]] = {"paths": s["paths"], "symbolic_decisions": s["decisions"], "assertions": s["asserts"], "discharged": s["proved"],
                       "values_enumerated": s["conc"], "outside_precondition": s["assumed_out"], "solver_s": round(s["solver_s"], 2),
                       "sample_inputs": s["samples"][:1]}
    cov = {
        "explanation": "Symbolic execution of the repository's own code (compiled from /repo's working tree to LLVM IR, every instruction instrumented to build "
                       "bit-vector/floating-point terms over the symbolic inputs); per path z3 decides every branch flip and every assertion. "
                       "'cases' lists the symbolic programs/calls; a case in complete_cases was explored to exhaustion within its stated bounds, so the "
                       "assertions hold for every value of its symbolic inputs.",
        "cases_total": len(cs), "cases_complete": len(complete), "exhaustive": not incomplete, "incomplete_cases": incomplete,
        "paths": tot("paths"), "symbolic_decisions": tot("decisions"),
        "assertions": tot("asserts"), "assertions_discharged": tot("proved"),
        "queries": dict(q), "queries_total": sum(q.values()), "solver_s": round(tot("solver_s"), 2),
        "functions_encoded": len(funcs), "functions": funcs[:400],
        "undecided": dict(und.most_common(20)), "bounds_hit": dict(bnd), "engine_notes": dict(notes.most_common(20)),
        "unconfirmed_models": [{"case": c[1], "what": v["what"], "inputs": {k: hex(x) for k, x in v["inp"].items()}} for c, v, t in unconfirmed[:10]],
        "translation_units": b["units"], "units_compiled_this_run": len(b["compiled"]), "build_s": b["build_s"], "explore_s": round(te - tb, 2),
        "known_findings": sorted(knownhit), "cases": cases,
        "samples": [{"case": c[1], "inputs": {k: hex(x) for k, x in i.items()}} for c in cs for i in st[c]["samples"][:1]][:12],
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
          "assumptions": ["LLVM IR at -O0 (after SROA/mem2reg) of /repo's sources represents the compiled program",
                          "libstdc++/libc code outside the instrumented set behaves as on the concrete run (its results are concrete or modelled: memcpy family, string and stream output)",
                          "z3 is sound; each reported counterexample is replayed natively, each path condition is re-checked against its concrete run",
                          "bounds: the program shapes of the cases; loop counts and source lengths as written in each case"],
          "wall_s": round(time.time() - t0, 2), "violations": len(confirmed)}
    json.dump(ev, open(evp + ".tmp", "w"), indent=1); os.replace(evp + ".tmp", evp)
    print("%s %s: %d cases (%d complete), %d paths, %d/%d assertions discharged, %d queries, solver %.1fs, build %.1fs, explore %.1fs" %
          (prop, tier, len(cs), len(complete), tot("paths"), tot("proved"), tot("asserts"), sum(q.values()), tot("solver_s"), b["build_s"], te - tb))
    for i in incomplete: print("INCOMPLETE %s: %s" % (i["case"], "; ".join(i["why"])))
    for c, v, t in unconfirmed[:5]: print("UNCONFIRMED %s: %s %s" % (c[1], v["what"], v["inp"]))
    for k in knownhit.values(): print("KNOWN-FINDING: property=%s %s" % (prop, k["desc"]))
    if confirmed:
        for n, (c, v, txt) in enumerate(confirmed[:5]):
            p = write_replay(prop, n, c[1], v, txt, b)
            print("counterexample case %s: %s with %s" % (c[1], v["what"], v["inp"]))
            print("VIOLATION property=%s replay=%s" % (prop, p))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
