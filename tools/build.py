#!/usr/bin/env python3
"""Builds the instrumented (symbolic) binary from /repo's current working tree.

Everything lands in /verif/build (git-ignored).  Objects are cached by content: the key of a
translation unit covers the plugin, the flags, the set of header paths in the repository and the
content of every file the compiler read (from its depfile).  A cold build compiles everything.
"""
import concurrent.futures as cf
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("APRIL_REPO", "/repo")
B = os.path.join(VERIF, "build")
ENG = os.path.join(VERIF, "engine")
HAR = os.path.join(VERIF, "harness")
CXX = "clang++-18"
SRC_GLOBS = ["modules/*/*.cpp", "global/default/*.cpp", "arch/x86_64/*.cpp", "common/*.cpp",
             "algorithm/*.cpp", "os/linux/*.cpp", "lib/*.cpp"]
# slowest first, so that the critical path starts at once
SLOW = ["exec/commands.cpp", "core/core.cpp", "compile/ast.cpp", "compile/expression.cpp",
        "core/expression_executor.cpp", "compile/xilx.cpp", "lang_cs/ast.cpp"]


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, "little")); h.update(p)
    return h.hexdigest()


_fh = {}
def fsha(path):
    try:
        st = os.stat(path)
    except OSError:
        return "absent"
    k = (path, st.st_mtime_ns, st.st_size, st.st_ino)
    if k not in _fh:
        with open(path, "rb") as f:
            _fh[k] = hashlib.sha256(f.read()).hexdigest()
    return _fh[k]


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        raise BuildError("command failed (%d): %s\n%s" % (r.returncode, " ".join(cmd) if isinstance(cmd, list) else cmd,
                                                          r.stdout.decode(errors="replace")[-6000:]))
    return r.stdout


def write_if_changed(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if isinstance(data, str):
        data = data.encode()
    try:
        if open(path, "rb").read() == data:
            return
    except OSError:
        pass
    with open(path + ".tmp", "wb") as f:
        f.write(data)
    os.replace(path + ".tmp", path)


def build_plugin():
    src = os.path.join(ENG, "pass.cpp")
    key = sha(fsha(src), "plugin-2")[:24]
    so = os.path.join(B, "symdse-%s.so" % key)
    if not os.path.exists(so):
        flags = run(["llvm-config-18", "--cxxflags"]).decode().split()
        flags = [f for f in flags if not f.startswith("-std=")]
        run([CXX, "-O1", "-fPIC", "-shared", "-fno-rtti"] + flags + ["-std=c++17", src, "-o", so + ".tmp"])
        os.replace(so + ".tmp", so)
    return so, key


def gen_files():
    """config.h and text.csec, which the project's make generates (both are git-ignored there)."""
    g = os.path.join(B, "gen")
    mk = open(os.path.join(REPO, "Makefile.rule")).read() if os.path.exists(os.path.join(REPO, "Makefile.rule")) else ""
    write_if_changed(os.path.join(g, "include/config.h"),
                     "\n#define CONFIG_NULLPTR_SUPPORTED 1\n#define CONFIG_BASE_NAMESPACE    april\n#define CONFIG_OPTIMIZE          0\n")
    maps = []
    for src in sorted(glob.glob(os.path.join(REPO, "modules/*/*.src"))):
        rel = os.path.relpath(src, REPO)[:-4] + ".csec"
        dst = os.path.join(g, rel)
        key = sha(fsha(src), *[fsha(x) for x in sorted(glob.glob(os.path.join(REPO, "tools/*")))])
        kf = dst + ".key"
        if not (os.path.exists(dst) and os.path.exists(kf) and open(kf).read() == key):
            out = subprocess.run(["bash", "-O", "xpg_echo", "tools/csec", "--home", REPO], stdin=open(src),
                                 stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=REPO).stdout
            if not out:
                raise BuildError("csec produced nothing for " + src)
            write_if_changed(dst, out); write_if_changed(kf, key)
        maps.append({"type": "file", "name": os.path.join(REPO, rel), "external-contents": dst})
    vfs = {"version": 0, "case-sensitive": "true", "use-external-names": "true",
           "roots": [{"type": "directory", "name": os.path.dirname(m["name"]),
                      "contents": [{"type": "file", "name": os.path.basename(m["name"]), "external-contents": m["external-contents"]}]} for m in maps]}
    write_if_changed(os.path.join(g, "vfs.json"), json.dumps(vfs, indent=1))
    return os.path.join(g, "include"), os.path.join(g, "vfs.json")


def header_set():
    hs = []
    for d, ds, fs in os.walk(REPO):
        ds[:] = [x for x in ds if x not in (".git", "_build", "bin", "libs", "test", "tests", "core_lib")]
        hs += [os.path.join(d, f) for f in fs if f.endswith(".h")]
    return sha(*sorted(hs))


def base_flags(inc, vfs):
    return ["-w", "-include", os.path.join(ENG, "compat.h"), "-D__error_t_defined=1", "-ffp-contract=off", "-O0", "-std=c++2a",
            "-DBOOST_LOG_DYN_LINK", "-DBOOST_FILESYSTEM_DYN_LINK", "-ivfsoverlay", vfs,
            "-I" + inc, "-I" + ENG,
            "-I%s/include" % REPO, "-I%s/include/modules" % REPO, "-I" + REPO,
            "-I%s/os/linux" % REPO, "-I%s/arch/x86_64" % REPO, "-I%s/global/default" % REPO]


def compile_one(src, flags, keybase, name):
    """-> path of the object, (cached?, seconds)"""
    cache = os.path.join(B, "cache"); os.makedirs(cache, exist_ok=True)
    k0 = sha(keybase, src, *flags)[:24]
    man = os.path.join(cache, k0 + ".man")
    if os.path.exists(man):
        try:
            ents = json.load(open(man))
        except ValueError:
            ents = []
        for ent in ents:
            if all(fsha(p) == h for p, h in ent["deps"].items()):
                o = os.path.join(cache, ent["obj"])
                if os.path.exists(o):
                    return o, True, 0.0
    t = time.time()
    tmp = tempfile.mkdtemp(prefix="cc-", dir=cache)
    try:
        o, d = os.path.join(tmp, "x.o"), os.path.join(tmp, "x.d")
        run([CXX, "-fno-crash-diagnostics"] + flags + ["-MD", "-MF", d, "-c", src, "-o", o], cwd=REPO)
        txt = open(d).read().replace("\\\n", " ")
        deps = re.split(r"(?<!\\)\s+", txt.split(":", 1)[1].strip())
        deps = {p.replace("\\ ", " "): fsha(p) for p in deps if p and not p.startswith(("/usr/", "/lib/"))}
        deps[src] = fsha(src)
        obj = sha(k0, *["%s=%s" % x for x in sorted(deps.items())])[:32] + ".o"
        os.replace(o, os.path.join(cache, obj))
        ents = []
        if os.path.exists(man):
            try:
                ents = json.load(open(man))
            except ValueError:
                pass
        ents = [e for e in ents if e["obj"] != obj][-5:] + [{"deps": deps, "obj": obj}]
        write_if_changed(man, json.dumps(ents))
        return os.path.join(cache, obj), False, time.time() - t
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def build(verbose=True):
    """-> dict(bin=..., apl=..., stats)"""
    os.makedirs(B, exist_ok=True)
    lock = open(os.path.join(B, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    t0 = time.time()
    so, pkey = build_plugin()
    inc, vfs = gen_files()
    hs = header_set()
    bf = base_flags(inc, vfs)
    inst = ["-Xclang", "-disable-O0-optnone", "-fpass-plugin=" + so]
    jobs = []   # (src, flags, name)
    for g in SRC_GLOBS:
        for s in sorted(glob.glob(os.path.join(REPO, g))):
            rel = os.path.relpath(s, REPO); extra = []
            if rel == "modules/april/april.cpp":
                extra = ["-Dmain=april_original_main"]
            if rel == "modules/rtlib/rtlib.cpp":
                extra = ["-Dget_libfunc=april_original_get_libfunc"]
            jobs.append((s, bf + inst + extra, rel))
    for s in sorted(glob.glob(os.path.join(HAR, "*.cpp"))):
        jobs.append((s, bf + inst + ["-I" + HAR], "harness/" + os.path.basename(s)))
    jobs.append((os.path.join(ENG, "stdinst.cpp"), ["-w", "-O0", "-std=c++2a", "-D_GLIBCXX_EXTERN_TEMPLATE=0"] + inst, "engine/stdinst.cpp"))
    jobs.append((os.path.join(ENG, "rtwrap.c"), ["-x", "c", "-w", "-O0", "-fno-builtin"] + inst, "engine/rtwrap.c"))
    jobs.append((os.path.join(ENG, "rt.cpp"), ["-w", "-O2", "-std=c++17", "-fno-builtin"], "engine/rt.cpp"))
    def prio(j):
        for i, s in enumerate(SLOW):
            if j[2].endswith(s):
                return i
        return 50
    jobs.sort(key=prio)
    objs, compiled = {}, []
    with cf.ThreadPoolExecutor(max_workers=max(2, os.cpu_count() or 4)) as ex:
        futs = {ex.submit(compile_one, s, f, sha(pkey, hs), n): n for s, f, n in jobs}
        try:
            for fu in cf.as_completed(futs):
                o, cached, dt = fu.result()
                objs[futs[fu]] = o
                if not cached:
                    compiled.append((futs[fu], round(dt, 1)))
                    if verbose:
                        print("  compiled %s (%.1fs)" % (futs[fu], dt), file=sys.stderr, flush=True)
        except BaseException:
            for fu in futs:
                fu.cancel()
            raise
    olist = [objs[n] for n in sorted(objs)]
    bkey = sha(*[os.path.basename(o) for o in olist])[:24]
    binp = os.path.join(B, "april-sym-" + bkey)
    if not os.path.exists(binp):
        run([CXX, "-fuse-ld=lld", "-Wl,--no-as-needed", "-no-pie"] + olist +
            ["-o", binp + ".tmp", "-lpthread", "-lboost_log", "-lboost_system", "-lboost_filesystem", "-lboost_thread"])
        os.replace(binp + ".tmp", binp)
    # the core library, compiled by the binary just built, with the harness' input natives added
    lk = sha(bkey, *["%s=%s" % (os.path.relpath(f, REPO), fsha(f)) for f in sorted(glob.glob(REPO + "/core_lib/**/*", recursive=True)) if os.path.isfile(f)],
             fsha(os.path.join(HAR, "Verif.cs")))[:24]
    apl = os.path.join(B, "sys-" + lk, "System.apl")
    if not os.path.exists(apl):
        d = tempfile.mkdtemp(prefix="sys-", dir=B)
        try:
            shutil.copytree(os.path.join(REPO, "core_lib"), os.path.join(d, "core_lib"))
            shutil.copy(os.path.join(HAR, "Verif.cs"), os.path.join(d, "core_lib/System/Verif.cs"))
            try:
                r = subprocess.run([binp, "--april", "compile", "core_lib/System/System.project"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300,
                                   env={k: v for k, v in os.environ.items() if not k.startswith("SYM_")})
            except subprocess.TimeoutExpired:
                raise BuildError("core library: the compiler did not finish")
            out = [p for p in glob.glob(d + "/**/System.apl", recursive=True)]
            if not out:
                raise BuildError("core library did not compile:\n" + r.stdout.decode(errors="replace")[-3000:])
            os.makedirs(os.path.dirname(apl), exist_ok=True)
            shutil.copy(out[0], apl + ".tmp"); os.replace(apl + ".tmp", apl)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    # prune old products
    for pat, keep in (("april-sym-*", binp), ("sys-*", os.path.dirname(apl))):
        xs = sorted((x for x in glob.glob(os.path.join(B, pat)) if x != keep), key=os.path.getmtime)
        for x in xs[:-3]:
            shutil.rmtree(x, ignore_errors=True) if os.path.isdir(x) else os.unlink(x)
    os.utime(binp)
    fcntl.flock(lock, fcntl.LOCK_UN)
    return {"bin": binp, "apl": apl, "compiled": compiled, "units": len(objs), "build_s": round(time.time() - t0, 1)}


if __name__ == "__main__":
    try:
        r = build()
    except BuildError as e:
        print("BUILD-ERROR", e); sys.exit(2)
    print(json.dumps(r, indent=1))
