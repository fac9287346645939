"""Exhaustive symbolic exploration of one harness case with z3.

A worker keeps a fork server of the instrumented binary per case.  One item = one input: the child
runs the real code on it and writes its symbolic trace; every decision after the item's bound is
negated and given to the solver: sat -> a new item, unsat -> that side is infeasible for all
inputs.  Every assertion is checked as (path condition and not assertion)."""
import multiprocessing as mp
import os, select, shutil, signal, subprocess, sys, tempfile, time, hashlib, collections
import numpy as np
import z3

NODE = np.dtype({"names": ["op", "sub", "tc", "stc", "a", "b", "c", "imm", "cval"],
                 "formats": ["u1", "u2", "u2", "u2", "u4", "u4", "u4", "u8", "u8"],
                 "offsets": [0, 2, 4, 6, 8, 12, 16, 24, 32], "itemsize": 40})
EVT = np.dtype({"names": ["kind", "taken", "site", "e", "str", "val"],
                "formats": ["u1", "u1", "u4", "u4", "u4", "u8"], "offsets": [0, 1, 4, 8, 12, 16], "itemsize": 24})
VAR = np.dtype({"names": ["name", "bits", "val"], "formats": ["S48", "u4", "u8"], "offsets": [0, 48, 56], "itemsize": 64})
OP_VAR, OP_CONST, OP_BIN, OP_ICMP, OP_FBIN, OP_FCMP, OP_FNEG, OP_CAST, OP_SELECT, OP_EXTRACT, OP_CONCAT, OP_FMATH = range(1, 13)
EV_BR, EV_CONC, EV_ASSUME, EV_ASSERT, EV_NOTE, EV_OBS, EV_DIV = range(1, 8)
DECISION = (EV_BR, EV_CONC, EV_ASSUME, EV_DIV)


class Trace:
    def __init__(self, path):
        d = open(path, "rb").read()
        h = np.frombuffer(d, "u4", 10)
        if h[0] != 0x53594d31:
            raise RuntimeError("bad trace")
        self.status, self.info, nV, nN, nEV, nSTR, self.mismatch, self.stale, self.concs = map(int, h[1:10])
        o = 40
        self.vars = np.frombuffer(d, VAR, nV, o); o += nV * 64
        self.nodes = np.frombuffer(d, NODE, nN, o); o += nN * 40
        self.ev = np.frombuffer(d, EVT, nEV, o); o += nEV * 24
        self.strs = d[o:o + nSTR]; o += nSTR
        nra = int(np.frombuffer(d, "u4", 1, o)[0]); o += 4
        self.ra = set(int(x) for x in np.frombuffer(d[o:o + 8 * nra], "u8", nra))

    def s(self, off):
        e = self.strs.index(b"\0", off)
        return self.strs[off:e].decode(errors="replace")


RNE = None


class Conv:
    """trace node -> z3 expression"""
    def __init__(self, tr):
        self.tr = tr
        n = tr.nodes
        self.op = n["op"].tolist(); self.sub = n["sub"].tolist(); self.tc = n["tc"].tolist(); self.stc = n["stc"].tolist()
        self.a = n["a"].tolist(); self.b = n["b"].tolist(); self.c = n["c"].tolist(); self.imm = n["imm"].tolist()
        self.memo = {}
        self.side = []      # side constraints (bit patterns of floats)
        self.fresh = 0
        self.varmemo = {}

    def sort(self, tc):
        if tc & 0x100:
            return z3.Float32() if tc & 0xff == 32 else z3.Float64()
        return z3.BitVecSort(tc & 0xff)

    def var(self, i):
        v = self.tr.vars[i]
        return z3.BitVec(v["name"].decode(), int(v["bits"]))

    def get(self, root):
        memo = self.memo
        if root in memo:
            return memo[root]
        st = [root]
        while st:
            n = st[-1]
            if n in memo:
                st.pop(); continue
            op = self.op[n]
            kids = ()
            if op in (OP_BIN, OP_ICMP, OP_FBIN, OP_FCMP, OP_CONCAT): kids = (self.a[n], self.b[n])
            elif op == OP_SELECT: kids = (self.a[n], self.b[n], self.c[n])
            elif op not in (OP_VAR, OP_CONST): kids = (self.a[n],)
            miss = [k for k in kids if k not in memo]
            if miss:
                st.extend(miss); continue
            memo[n] = self.build(n, op, [memo[k] for k in kids])
            st.pop()
        return memo[root]

    def vars_of(self, root):
        """set of variable indices of a node"""
        vm = self.varmemo
        st = [root]
        while st:
            n = st[-1]
            if n in vm:
                st.pop(); continue
            op = self.op[n]
            if op == OP_VAR:
                vm[n] = frozenset((self.imm[n],)); st.pop(); continue
            if op == OP_CONST:
                vm[n] = frozenset(); st.pop(); continue
            kids = (self.a[n], self.b[n]) if op in (OP_BIN, OP_ICMP, OP_FBIN, OP_FCMP, OP_CONCAT) else \
                (self.a[n], self.b[n], self.c[n]) if op == OP_SELECT else (self.a[n],)
            miss = [k for k in kids if k not in vm]
            if miss:
                st.extend(miss); continue
            r = vm[kids[0]]
            for k in kids[1:]:
                if not vm[k] <= r: r = r | vm[k]
            vm[n] = r
            st.pop()
        return vm[root]

    def build(self, n, op, k):
        tc, sub, stc, imm = self.tc[n], self.sub[n], self.stc[n], self.imm[n]
        if op == OP_VAR:
            return self.var(imm)
        if op == OP_CONST:
            if tc & 0x100:
                return z3.fpBVToFP(z3.BitVecVal(imm, tc & 0xff), self.sort(tc))
            return z3.BitVecVal(imm, tc & 0xff)
        if op == OP_BIN:
            x, y = k
            return {13: lambda: x + y, 15: lambda: x - y, 17: lambda: x * y, 19: lambda: z3.UDiv(x, y), 20: lambda: x / y,
                    22: lambda: z3.URem(x, y), 23: lambda: z3.SRem(x, y), 25: lambda: x << y, 26: lambda: z3.LShR(x, y),
                    27: lambda: x >> y, 28: lambda: x & y, 29: lambda: x | y, 30: lambda: x ^ y}[sub]()
        if op == OP_ICMP:
            x, y = k
            r = {32: lambda: x == y, 33: lambda: x != y, 34: lambda: z3.UGT(x, y), 35: lambda: z3.UGE(x, y), 36: lambda: z3.ULT(x, y),
                 37: lambda: z3.ULE(x, y), 38: lambda: x > y, 39: lambda: x >= y, 40: lambda: x < y, 41: lambda: x <= y}[sub]()
            return z3.If(r, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        rm = z3.RNE()
        if op == OP_FBIN:
            x, y = k
            return {14: lambda: z3.fpAdd(rm, x, y), 16: lambda: z3.fpSub(rm, x, y), 18: lambda: z3.fpMul(rm, x, y), 21: lambda: z3.fpDiv(rm, x, y)}[sub]()
        if op == OP_FCMP:
            x, y = k
            un = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
            base = {0: z3.BoolVal(False), 1: z3.fpEQ(x, y), 2: z3.fpGT(x, y), 3: z3.fpGEQ(x, y), 4: z3.fpLT(x, y), 5: z3.fpLEQ(x, y),
                    6: z3.And(z3.Not(un), z3.Not(z3.fpEQ(x, y))), 7: z3.Not(un), 8: un, 9: z3.Or(un, z3.fpEQ(x, y)), 10: z3.Or(un, z3.fpGT(x, y)),
                    11: z3.Or(un, z3.fpGEQ(x, y)), 12: z3.Or(un, z3.fpLT(x, y)), 13: z3.Or(un, z3.fpLEQ(x, y)), 14: z3.Not(z3.fpEQ(x, y)), 15: z3.BoolVal(True)}[sub]
            return z3.If(base, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        if op == OP_FNEG:
            return z3.fpNeg(k[0])
        if op == OP_FMATH:
            x = k[0]
            return {1: lambda: z3.fpAbs(x), 2: lambda: z3.fpSqrt(rm, x), 3: lambda: z3.fpRoundToIntegral(z3.RTN(), x),
                    4: lambda: z3.fpRoundToIntegral(z3.RTP(), x), 5: lambda: z3.fpRoundToIntegral(z3.RTZ(), x)}[sub]()
        if op == OP_SELECT:
            return z3.If(k[0] == z3.BitVecVal(1, 1), k[1], k[2])
        if op == OP_EXTRACT:
            return z3.Extract(imm + (tc & 0xff) - 1, imm, k[0])
        if op == OP_CONCAT:
            return z3.Concat(k[0], k[1])
        if op == OP_CAST:
            x = k[0]; db, sb = tc & 0xff, stc & 0xff
            if sub == 38: return z3.Extract(db - 1, 0, x)
            if sub == 39: return z3.ZeroExt(db - sb, x)
            if sub == 40: return z3.SignExt(db - sb, x)
            if sub == 41: return z3.fpToUBV(z3.RTZ(), x, z3.BitVecSort(db))
            if sub == 42: return z3.fpToSBV(z3.RTZ(), x, z3.BitVecSort(db))
            if sub in (43, 44):      # narrowest operand: equal conversions become equal terms
                sg = sub == 44
                while True:
                    dk = x.decl().kind()
                    if dk == z3.Z3_OP_ZERO_EXT: x = x.arg(0); sg = False
                    elif dk == z3.Z3_OP_SIGN_EXT and sg: x = x.arg(0)
                    else: break
                return (z3.fpSignedToFP if sg else z3.fpUnsignedToFP)(rm, x, self.sort(tc))
            if sub in (45, 46): return z3.fpFPToFP(rm, x, self.sort(tc))
            if sub == 49:
                if tc & 0x100: return z3.fpBVToFP(x, self.sort(tc))
                v = z3.BitVec("!fpbits_%d" % n, db)
                self.side.append((z3.fpBVToFP(v, self.sort(stc)) == x, self.vars_of(n)))   # '=' identifies all NaNs
                return v
        raise RuntimeError("unknown node op %d sub %d" % (op, sub))

    def true(self, e, taken):
        x = self.get(e)
        return x == z3.BitVecVal(1 if taken else 0, 1)


class Server:
    def __init__(self, binp, apl, prop, case, root):
        self.dir = tempfile.mkdtemp(prefix="srv-", dir=root)
        os.makedirs(self.dir + "/s")
        r1, w1 = os.pipe(); r2, w2 = os.pipe()
        env = {k: v for k, v in os.environ.items() if not k.startswith("SYM_")}
        env.update(SYM_MODE="explore", LC_ALL="C.UTF-8")
        self.log = open(self.dir + "/log", "wb")
        def pre():
            os.setpgid(0, 0)
            a, b = os.dup2(r1, 190), os.dup2(w2, 191)
            os.dup2(190, 198, inheritable=True); os.dup2(191, 199, inheritable=True)
            os.close(190); os.close(191)
        self.p = subprocess.Popen(["setarch", "-R", binp, "--case", prop, case, self.dir + "/s", apl], stdin=subprocess.DEVNULL,
                                  stdout=self.log, stderr=self.log, env=env, preexec_fn=pre, close_fds=False, cwd=self.dir)
        os.close(r1); os.close(w2)
        self.w, self.r = os.fdopen(w1, "w"), r2
        self.buf = b""
        self.n = 0

    def line(self, tmo):
        t = time.time() + tmo
        while b"\n" not in self.buf:
            left = t - time.time()
            if left <= 0 or not select.select([self.r], [], [], left)[0]:
                return "TIMEOUT"
            c = os.read(self.r, 4096)
            if not c:
                return None
            self.buf += c
        l, self.buf = self.buf.split(b"\n", 1)
        return l.decode()

    def run(self, inp, tmo):
        self.n += 1
        out = "%s/t" % self.dir
        try: os.unlink(out)
        except OSError: pass
        self.w.write("%s %d %s\n" % (out, tmo, " ".join("%s=%x" % kv for kv in inp.items())))
        self.w.flush()
        l = self.line(tmo + 20)
        if l in (None, "TIMEOUT"):
            return None, l
        return (out if os.path.exists(out) else None), l

    def close(self):
        try: os.killpg(self.p.pid, signal.SIGKILL)
        except OSError: pass
        try: self.w.close()
        except OSError: pass
        os.close(self.r)
        self.p.wait(); self.log.close()
        shutil.rmtree(self.dir, ignore_errors=True)


def replay(binp, apl, prop, case, inp, root, tmo=120):
    """native run of the counterexample -> (confirmed, text)"""
    d = tempfile.mkdtemp(prefix="rep-", dir=root)
    try:
        env = {k: v for k, v in os.environ.items() if not k.startswith("SYM_")}
        env.update(SYM_INPUT=" ".join("%s=%x" % kv for kv in inp.items()), LC_ALL="C.UTF-8")
        try:
            r = subprocess.run(["setarch", "-R", binp, "--case", prop, case, d, apl], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               stdin=subprocess.DEVNULL, env=env, timeout=tmo, cwd=d)
        except subprocess.TimeoutExpired as e:
            return True, "does not terminate within %d s\n%s" % (tmo, (e.stdout or b"").decode(errors="replace")[-2000:])
        out = r.stdout.decode(errors="replace")
        if r.returncode == 75:
            return True, out
        if r.returncode < 0:
            return True, "killed by signal %d\n%s" % (-r.returncode, out)
        return False, "rc=%d\n%s" % (r.returncode, out)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check_sat(cons, tmo_ms):
    """fresh solver with fallbacks -> ('sat', model) / ('unsat', None) / ('unknown', None)"""
    s = z3.Solver(); s.set("timeout", min(tmo_ms, 4000))
    s.add(*cons)
    r = s.check()
    if r == z3.sat: return "sat", s.model()
    if r == z3.unsat: return "unsat", None
    for tac in (["simplify", "fpa2bv", "propagate-values", "solve-eqs", "bit-blast", "sat"], ["qffpbv"], ["smt"]):
        try:
            s = z3.Then(*tac).solver() if len(tac) > 1 else z3.Tactic(tac[0]).solver()
            s.set("timeout", tmo_ms); s.add(*cons); r = s.check()
            if r == z3.sat:
                m = s.model()
                if all(z3.is_true(m.eval(c, model_completion=True)) for c in cons): return "sat", m
                continue
            if r == z3.unsat: return "unsat", None
        except z3.Z3Exception:
            pass
    return "unknown", None


class Worker:
    def __init__(self, cfg):
        self.cfg = cfg
        self.servers = collections.OrderedDict()

    def server(self, prop, case):
        k = (prop, case)
        if k in self.servers:
            self.servers.move_to_end(k)
            return self.servers[k]
        while len(self.servers) >= 3:
            self.servers.popitem(last=False)[1].close()
        s = Server(self.cfg["bin"], self.cfg["apl"], prop, case, self.cfg["root"])
        l = s.line(self.cfg.get("boot_s", 120))
        if l != "R":
            s.log.flush()
            txt = open(s.dir + "/log", errors="replace").read()[-1500:]
            rc = s.p.poll()
            time.sleep(0.2); rc = s.p.poll()
            s.close()
            raise BootFail("fork server did not start (%s, rc=%s): %s" % (l, rc, txt))
        self.servers[k] = s
        return s

    def drop(self, prop, case):
        s = self.servers.pop((prop, case), None)
        if s: s.close()

    def process(self, item):
        t0 = time.time()
        prop, case, inp, bound, pref, excl = item
        res = dict(prop=prop, case=case, new=[], viol=[], notes=collections.Counter(), q=collections.Counter(), solver_s=0.0,
                   asserts=0, proved=0, undecided=[], status=None, ra=set(), decisions=0, bounds_hit=[], kind="path", conc=0,
                   concsites=collections.Counter(), brsites=collections.Counter())
        try:
            sv = self.server(prop, case)
        except BootFail as e:
            res["kind"] = "boot"; res["error"] = str(e)
            res["viol"].append(dict(what="the run ended before any input was read", inp={})); return res
        out, l = sv.run(inp, self.cfg["path_tmo"])
        if out is None:
            res["status"] = "lost"; res["notes"]["LOST %s" % l] += 1
            res["viol"].append(dict(what="run ended without a trace (%s)" % l, inp=inp))
            self.drop(prop, case)
            return res
        tr = Trace(out)
        res["ra"] = tr.ra
        res["status"] = tr.status
        cv = Conv(tr)
        ev = tr.ev
        kinds, takens, sites, es, strs, vals = (ev[x].tolist() for x in ("kind", "taken", "site", "e", "str", "val"))
        names = [v["name"].decode() for v in tr.vars]
        full = {names[i]: int(tr.vars[i]["val"]) for i in range(len(names))}
        if tr.mismatch: res["notes"]["ENGINE-MISMATCH"] += tr.mismatch
        if tr.stale: res["notes"]["STALE"] += tr.stale
        dec = []       # (constraint, vars)
        h = 0
        di = 0
        diverged = bound > 0 or bool(excl)
        asserts = []
        tstat = dict(t=0.0)

        # path solver with variable-disjoint slicing
        def slice_(vs, upto):
            vs = set(vs); idx = set(); ch = True
            while ch:
                ch = False
                for j in range(upto):
                    if j not in idx and not dec[j][1].isdisjoint(vs):
                        idx.add(j)
                        if not dec[j][1] <= vs:
                            vs |= dec[j][1]; ch = True
            return [dec[j][0] for j in sorted(idx)], vs

        def solve(sl, cons, what):
            t = time.time()
            r, m = check_sat(sl[0] + cons + [c for c, v in cv.side if sl[1] is None or v <= sl[1]], self.cfg["solver_ms"])
            tstat["t"] += time.time() - t
            res["q"][what + ":" + r] += 1
            return r, m

        def model_input(m, sl):
            d = dict(full)
            ok = {names[j] for j in sl[1]}       # the others keep the value that satisfies their constraints
            for dd in m.decls():
                if dd.name() in ok:
                    v = m[dd]
                    if z3.is_bv_value(v): d[dd.name()] = v.as_long()
            return d

        for i in range(len(kinds)):
            k = kinds[i]
            if k == EV_NOTE:
                s = tr.s(strs[i]); res["notes"][s[:160]] += 1; continue
            if k == EV_OBS:
                continue
            if k == EV_ASSERT:
                asserts.append((es[i], takens[i], tr.s(strs[i]), di))
                continue
            # decision
            c = cv.true(es[i], takens[i]); vs = cv.vars_of(es[i])
            hn = hash((h, k, sites[i], es[i], takens[i]))
            ident = hash((h, k, sites[i], cv.a[es[i]] if k == EV_CONC else es[i]))
            if di == (bound if excl else bound - 1):
                # this is the decision the parent negated
                if ident == pref[0] and (excl or takens[i] == pref[1]): diverged = False
            if di >= bound and k == EV_CONC:
                # a value the engine had to fix: enumerate the others one by one
                ex = (excl if di == bound and excl else ()) + (vals[i],)
                lhs = cv.get(cv.a[es[i]])
                sl = slice_(vs, di)
                r, m = solve(sl, [lhs != z3.BitVecVal(x, lhs.size()) for x in ex], "enum")
                if r == "sat":
                    res["new"].append((prop, case, model_input(m, sl), di, (ident, 1), ex))
                elif r == "unknown":
                    res["undecided"].append("value at site %x" % sites[i])
                res["concsites"][(strs[i], sites[i])] += 1
            elif di >= bound and not (k == EV_ASSUME and takens[i]):
                sl = slice_(vs, di)
                r, m = solve(sl, [cv.true(es[i], not takens[i])], "flip")
                if r == "sat":
                    res["new"].append((prop, case, model_input(m, sl), di + 1, (ident, 0 if takens[i] else 1), ()))
                    res["brsites"][strs[i]] += 1
                elif r == "unknown":
                    res["undecided"].append("decision at site %x" % sites[i])
            dec.append((c, vs)); h = hn; di += 1
            if k == EV_CONC: res["conc"] += 1
        res["decisions"] = di - bound
        if diverged:
            res["notes"]["DIVERGED"] += 1
        # encoding cross-check: the path condition must hold for the concrete input
        if dec:
            xs = [z3.BitVec(names[j], int(tr.vars[j]["bits"])) == z3.BitVecVal(int(tr.vars[j]["val"]), int(tr.vars[j]["bits"])) for j in range(len(names))]
            r, _ = solve(([d[0] for d in dec], None), xs, "xcheck")
            if r == "unsat": res["notes"]["ENCODING-XCHECK-FAILED"] += 1
        for (e, c, what, upto) in asserts:
            res["asserts"] += 1
            if e == 0:
                if c: res["proved"] += 1
                else: res["viol"].append(dict(what=what, inp=full))
                continue
            vs = cv.vars_of(e)
            sl = slice_(vs, upto)
            r, m = solve(sl, [cv.true(e, False)], "assert")
            if r == "unsat": res["proved"] += 1
            elif r == "sat": res["viol"].append(dict(what=what, inp=model_input(m, sl)))
            else: res["undecided"].append("assertion " + what)
        if tr.status == 2:
            res["viol"].append(dict(what="crash: signal %d" % tr.info if tr.info != 14 else "no end within the time limit", inp=full))
        elif tr.status == 3:
            res["bounds_hit"].append("resource limit %d" % tr.info)
        elif tr.status == 4:
            res["viol"].append(dict(what="process exit inside the program", inp=full))
        res["solver_s"] = tstat["t"]
        res["wall"] = time.time() - t0
        res["inp"] = full
        return res

    def close(self):
        for s in self.servers.values(): s.close()


class BootFail(Exception):
    pass


def worker_main(conn, cfg):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    w = Worker(cfg)
    try:
        while True:
            it = conn.recv()
            if it is None: break
            try:
                r = w.process(it)
            except Exception as ex:       # noqa
                import traceback
                r = dict(prop=it[0], case=it[1], kind="error", error=traceback.format_exc()[-2000:])
            conn.send(r)
    finally:
        w.close()


def explore(cfg, cases, budget_s, max_paths, on_result=None, jobs=None):
    """cases: [(prop, name)].  Returns per-case statistics."""
    jobs = jobs or os.cpu_count() or 4
    ctx = mp.get_context("fork")
    st = {c: dict(paths=0, asserts=0, proved=0, q=collections.Counter(), solver_s=0.0, notes=collections.Counter(), viol=[], undecided=collections.Counter(),
                  bounds=collections.Counter(), errors=[], ra=set(), decisions=0, pending=0, assumed_out=0, conc=0, samples=[], full=False, concsites=collections.Counter(), brsites=collections.Counter()) for c in cases}
    queues = {c: collections.deque() for c in cases}
    for c in cases:
        queues[c].append((c[0], c[1], {}, 0, None, ())); st[c]["pending"] = 1
    ws = []
    for _ in range(jobs):
        a, b = ctx.Pipe()
        p = ctx.Process(target=worker_main, args=(b, cfg), daemon=True); p.start(); b.close()
        ws.append(dict(p=p, c=a, busy=None, has=collections.deque(maxlen=3)))
    t0 = time.time()
    order = collections.deque(cases)
    inflight = {c: 0 for c in cases}
    stopped = False

    def pick(w):
        for c in list(w["has"])[::-1]:
            if queues[c]: return c
        # a case nobody works on first, then the fullest queue
        best = None
        for c in cases:
            if queues[c]:
                if inflight[c] == 0: return c
                if best is None or len(queues[c]) > len(queues[best]): best = c
        return best

    while True:
        if time.time() - t0 > budget_s: stopped = True
        for w in ws:
            if w["busy"] is None and not stopped:
                c = pick(w)
                if c is not None:
                    it = queues[c].popleft()
                    w["c"].send(it); w["busy"] = c; inflight[c] += 1
                    if c in w["has"]: w["has"].remove(c)
                    w["has"].append(c)
        busy = [w for w in ws if w["busy"] is not None]
        if not busy: break
        ready = mp.connection.wait([w["c"] for w in busy], timeout=1.0)
        for w in busy:
            if w["c"] not in ready:
                if stopped and time.time() - t0 > budget_s + 60:
                    w["p"].kill(); w["busy"] = None
                continue
            c = w["busy"]
            try:
                r = w["c"].recv()
            except EOFError:
                st[c]["errors"].append("worker died")
                w["busy"] = None; inflight[c] -= 1
                a, b = ctx.Pipe(); p = ctx.Process(target=worker_main, args=(b, cfg), daemon=True); p.start(); b.close()
                w.update(p=p, c=a, has=collections.deque(maxlen=3))
                continue
            w["busy"] = None; inflight[c] -= 1
            s = st[c]
            if r["kind"] in ("boot", "error"):
                s["errors"].append((r["kind"], r["error"])); s["viol"] += r["viol"]
                if on_result and on_result(c, s, r): stopped = True
                continue
            s["paths"] += 1
            if r["status"] == 1: s["assumed_out"] += 1
            for k in ("asserts", "proved", "solver_s", "decisions", "conc"): s[k] += r[k]
            s["q"].update(r["q"]); s["notes"].update(r["notes"]); s["undecided"].update(r["undecided"]); s["bounds"].update(r["bounds_hit"])
            s["concsites"].update(r["concsites"]); s["brsites"].update(r["brsites"])
            s["ra"] |= r["ra"]
            if len(s["samples"]) < 3 and r.get("inp") is not None: s["samples"].append(r["inp"])
            s["viol"] += r["viol"]
            if s["paths"] + len(queues[c]) >= max_paths:
                if r["new"]: s["full"] = True
            else:
                queues[c].extend(r["new"])
            if on_result and on_result(c, s, r): stopped = True
            if len(s["viol"]) >= 5: queues[c].clear(); s["full"] = True
        if stopped and not any(w["busy"] for w in ws): break
    for c in cases:
        st[c]["left"] = len(queues[c])
    for w in ws:
        try: w["c"].send(None)
        except OSError: pass
    for w in ws:
        w["p"].join(10)
        if w["p"].is_alive(): w["p"].kill()
    return st


_nm = {}
def symbols(binp):
    if binp not in _nm:
        import bisect
        out = subprocess.check_output(["nm", "-C", "--defined-only", binp]).decode(errors="replace").splitlines()
        t = []
        for l in out:
            p = l.split(" ", 2)
            if len(p) == 3 and p[1] in "tTwWuU": t.append((int(p[0], 16), p[2]))
        t.sort()
        _nm[binp] = ([x[0] for x in t], [x[1] for x in t])
    return _nm[binp]


def sym_of(binp, addr):
    import bisect
    a, n = symbols(binp)
    i = bisect.bisect_right(a, addr - 1) - 1
    return n[i] if i >= 0 else "?"
