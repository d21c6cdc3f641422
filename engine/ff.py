#!/usr/bin/env python3
"""ffsym driver: builds the instrumented and the native (replay) binary of every harness of a check
from /repo's current sources, runs the symbolic exploration, replays counterexamples, writes evidence."""
import sys, os, threading, subprocess, hashlib, json, time, re, shutil, concurrent.futures as cf, fnmatch

VERIF = os.path.realpath(os.path.join(os.path.dirname(__file__), ".."))
REPO = os.environ.get("FFSYM_REPO", "/repo")
BUILD = os.environ.get("FFSYM_BUILD", os.path.join(VERIF, ".build"))
CLANG, GXX, OPT, LINK = "clang++-18", "g++", "opt-18", "llvm-link-18"
MODELS = os.path.join(VERIF, "models")
ENGINE = os.path.join(VERIF, "engine")
JOBS = os.cpu_count() or 8

class BuildError(Exception):
    pass

def sh(cmd, env=None, timeout=800):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=timeout)
    if r.returncode != 0:
        raise BuildError(" ".join(cmd)[:400] + "\n" + r.stdout.decode(errors="replace")[-4000:])
    return r.stdout.decode(errors="replace")

def fhash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:20]

_repohash = None
def repo_files():
    out = []
    for root, _, fs in os.walk(os.path.join(REPO, "source")):
        for f in fs:
            if f.endswith((".cpp", ".hpp", ".h", ".in")): out.append(os.path.join(root, f))
    for f in os.listdir(REPO):
        if f.endswith((".cpp", ".hpp")): out.append(os.path.join(REPO, f))
    return out
def repo_hash():
    global _repohash
    if _repohash is None:
        hs = [f for f in repo_files() if f.endswith((".hpp", ".h", ".in"))]
        _repohash = fhash(hs)
    return _repohash

def atomic(fn):
    """run fn(tmp) then rename to final"""
    def w(final, *a, **k):
        tmp = "%s.%d.tmp" % (final, os.getpid())
        fn(tmp, *a, **k)
        os.rename(tmp, final)
    return w

def gen_headers(config):
    d = os.path.join(BUILD, "gen", config, "firefly")
    os.makedirs(d, exist_ok=True)
    fl = {"default": dict(FLINT_FLAG=0, DEFAULT_FLAG=1, CUSTOM_FLAG=0, MPI_FLAG=0),
          "flint": dict(FLINT_FLAG=1, DEFAULT_FLAG=0, CUSTOM_FLAG=0, MPI_FLAG=0),
          "mpi": dict(FLINT_FLAG=0, DEFAULT_FLAG=1, CUSTOM_FLAG=0, MPI_FLAG=1)}[config]
    inc = os.path.join(REPO, "source/include/firefly")
    m = re.search(r"VERSION\s+(\d+)\.(\d+)\.(\d+)", open(os.path.join(REPO, "CMakeLists.txt")).read())
    v = m.groups() if m else ("2", "0", "3")
    fl.update(PROJECT_VERSION_MAJOR=v[0], PROJECT_VERSION_MINOR=v[1], PROJECT_VERSION_PATCH=v[2])
    for n in ("config.hpp", "version.hpp"):
        t = open(os.path.join(inc, n + ".in")).read()
        for k, x in fl.items(): t = t.replace("@%s@" % k, str(x))
        p = os.path.join(d, n)
        if not os.path.exists(p) or open(p).read() != t:
            tmp = p + ".%d" % os.getpid()
            open(tmp, "w").write(t); os.rename(tmp, p)
    return os.path.dirname(d)

def engine_build():
    os.makedirs(BUILD, exist_ok=True)
    ins = [os.path.join(ENGINE, x) for x in ("SymPass.cpp", "runtime.cpp", "fpmode.inc", "co.inc", "ffsym.h", "native.cpp", "race.inc")]
    h = fhash(ins)
    d = os.path.join(BUILD, "engine-" + h)
    if os.path.exists(os.path.join(d, "ok")): return d
    tmp = d + ".%d" % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    cx = subprocess.run(["llvm-config-18", "--cxxflags"], stdout=subprocess.PIPE).stdout.decode().split()
    with cf.ThreadPoolExecutor(4) as ex:
        js = [ex.submit(sh, [CLANG, "-shared", "-fPIC", "-O1"] + cx + [ins[0], "-o", tmp + "/SymPass.so"]),
              ex.submit(sh, [CLANG, "-std=c++17", "-O2", "-c", ins[1], "-o", tmp + "/runtime.o"]),
              ex.submit(sh, [GXX, "-std=c++17", "-O1", "-c", "-I" + ENGINE, ins[5], "-o", tmp + "/native.o"])]
        for j in js: j.result()
    open(tmp + "/ok", "w").close()
    try: os.rename(tmp, d)
    except OSError: pass
    return d

def mpi_inc():
    for p in ("/usr/lib/x86_64-linux-gnu/openmpi/include", "/usr/lib/x86_64-linux-gnu/mpich/include"):
        if os.path.isdir(p): return ["-I" + p]
    return []

def cflags(h):
    c = h.get("config", "default")
    inc = gen_headers(c)
    fl = ["-std=gnu++14", "-pthread", "-I" + inc, "-I" + os.path.join(REPO, "source/include"), "-I" + REPO, "-I" + ENGINE, "-I" + MODELS, "-I" + os.path.join(VERIF, "harness"),
          '-DFIREFLY_ROOT_DIR="%s"' % REPO, "-w"]
    fl += {"default": ["-DDEFAULT"], "flint": ["-DFLINT"], "mpi": ["-DDEFAULT", "-DWITH_MPI"]}[c]
    if c == "mpi": fl += mpi_inc()
    pre = h.get("incdirs", [])
    fl = ["-I" + os.path.join(VERIF, p) for p in pre] + fl
    return fl + h.get("cflags", [])

def defs(h, tier):
    d = dict(h.get("defs", {}))
    d.update(h.get("defs_" + tier, {}))
    return ["-D%s=%s" % kv for kv in sorted(d.items())]

def src_path(s):
    if s.startswith("models/") or s.startswith("harness/"): return os.path.join(VERIF, s)
    return os.path.join(REPO, s)

_cmplock = threading.Lock(); _cmplocks = {}
def compile_one(src, flags, kind, tool):
    k = (src, kind, tool, tuple(flags))
    with _cmplock: lk = _cmplocks.setdefault(k, threading.Lock())
    with lk: return compile_locked(src, flags, kind, tool)

def compile_locked(src, flags, kind, tool):
    deps = [src] + [os.path.join(ENGINE, "ffsym.h")]
    if src.startswith(VERIF):
        for d in (MODELS, os.path.join(VERIF, "harness")):
            for root, _, fs in os.walk(d):
                deps += [os.path.join(root, f) for f in fs if f.endswith((".h", ".hpp", ".inc"))]
    if src.startswith(os.path.join(VERIF, "harness")):  # harnesses may include repo .cpp files
        deps += [f for f in repo_files() if f.endswith(".cpp")]
    key = fhash(sorted(set(deps)), "lt1" + repo_hash() + kind + tool + " ".join(flags))
    out = os.path.join(BUILD, "obj", "%s-%s.%s" % (os.path.basename(src), key, "bc" if kind == "bc" else "o"))
    if os.path.exists(out): return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + ".%d.tmp" % os.getpid()
    if kind == "bc":
        sh([CLANG, "-O1", "-Xclang", "-disable-llvm-passes", "-fno-vectorize", "-fno-slp-vectorize", "-fno-math-errno", "-gline-tables-only", "-fdebug-info-for-profiling", "-emit-llvm", "-c", src, "-o", tmp] + flags)
    else:
        sh([tool, "-O2", "-c", src, "-o", tmp] + flags)
    os.rename(tmp, out)
    return out

def all_sources(h):
    out = []
    for root, _, fs in os.walk(os.path.join(REPO, "source")):
        for f in sorted(fs):
            if f.endswith(".cpp"): out.append(os.path.relpath(os.path.join(root, f), REPO))
    return out

def build_harness(h, tier, ex, eng, everything=False):
    """returns (sym_exe, native_exe)"""
    if everything:
        h = dict(h, repo=sorted(set(h.get("repo", []) + all_sources(h)) - set(h.get("exclude", []))))
    fl = cflags(h)
    hd = defs(h, tier)
    models = ["models/" + m + ".cpp" for m in h.get("models", ["libc", "strinst", "ffint"])]
    symsrc = [h["src"]] + h.get("repo", []) + models
    natsrc = [h["src"]] + h.get("repo", []) + ["models/" + m + ".cpp" for m in h.get("native_models", [])]
    dset = fl + hd
    def f(s): return dset + (h.get("harness_cflags", []) if s.startswith("harness/") else []) if s.startswith(("harness/", "models/")) or h.get("defs_all") else fl + h.get("repo_cflags", [])
    symj = [ex.submit(compile_one, src_path(s), f(s) + ["-DFFSYM_SYMBOLIC"], "bc", CLANG) for s in symsrc]
    natj = [ex.submit(compile_one, src_path(s), f(s) + ["-DFFSYM_NATIVE"], "o", GXX) for s in natsrc]
    return (symj, natj)

def link_harness(h, tier, jobs, eng):
    symj, natj = jobs
    bcs = [j.result() for j in symj]
    objs = [j.result() for j in natj]
    libs = h.get("libs", []) + ["-lgmp", "-lgmpxx", "-lz", "-lpthread"] + (["-lflint"] if h.get("config") == "flint" else [])
    key = fhash(bcs, eng + json.dumps([h.get("optflags", []), h.get("latepass", ""), libs]))
    d = os.path.join(BUILD, "exe"); os.makedirs(d, exist_ok=True)
    base = os.path.basename(h["src"]).split(".")[0]
    exe = os.path.join(d, "%s-%s" % (base, key))
    with _linklock: lk = _linklocks.setdefault(exe, threading.Lock())
    with lk: return link_locked(h, bcs, objs, libs, base, exe, d, eng)

_linklock = threading.Lock(); _linklocks = {}
def link_locked(h, bcs, objs, libs, base, exe, d, eng):
    if not os.path.exists(exe):
        t = exe + ".%d" % os.getpid()
        sh([LINK] + bcs + ["-o", t + ".bc"])
        env = dict(os.environ, FFSYM_EXT_OUT=exe + ".ext")
        sh([OPT, "-load-pass-plugin=" + eng + "/SymPass.so", "-vectorize-loops=false", "-vectorize-slp=false", "-scalarize-load-store",
            "-internalize-public-api-list=ff_harness", "-phi-node-folding-threshold=8", "-two-entry-phi-node-folding-threshold=16"] + h.get("optflags", []) +
           ["-passes=ffsym-pre,internalize,globaldce,default<O1>,globaldce,function(" + h.get("latepass", "") + "scalarizer),ffsym", t + ".bc", "-o", t + ".i.bc"], env=env)
        parts = [t + ".i.bc"]
        if os.path.getsize(t + ".i.bc") > 3000000 and shutil.which("llvm-split-18"): # code generation of large modules in parallel
            sh(["llvm-split-18", "-j", str(JOBS), "-o", t + ".part", t + ".i.bc"]); parts = [t + ".part%d" % i for i in range(JOBS)]
            for x in parts: os.rename(x, x + ".bc")
            parts = [x + ".bc" for x in parts]
        with cf.ThreadPoolExecutor(JOBS) as px: list(px.map(lambda x: sh([CLANG, "-O1", "-w", "-c", x, "-o", x[:-3] + ".o", "-fno-vectorize", "-fno-slp-vectorize"]), parts))
        if len(parts) > 1: # local symbols of the module must not meet those of the runtime
            sh(["ld", "-r", "--force-group-allocation", "-o", t + ".o"] + [x[:-3] + ".o" for x in parts]); sh(["objcopy", "--localize-hidden", t + ".o"])
        else: os.rename(parts[0][:-3] + ".o", t + ".o")
        sh([CLANG, "-o", t + ".exe", t + ".o", eng + "/runtime.o", "-Wl,--wrap=exit"] + libs + ["-lz3"])
        for x in {t + ".o", t + ".bc", t + ".i.bc"} | set(parts) | ({x[:-3] + ".o" for x in parts} if len(parts) > 1 else set()): os.unlink(x)
        os.rename(t + ".exe", exe)
    nk = fhash(objs, eng + json.dumps(libs))
    nexe = os.path.join(d, "%s-native-%s" % (base, nk))
    if not os.path.exists(nexe):
        t = nexe + ".%d" % os.getpid()
        sh([GXX, "-pthread", "-o", t] + objs + [eng + "/native.o", "-Wl,--wrap=exit"] + libs)
        os.rename(t, nexe)
    return exe, nexe

def replay(nexe, inputs, args, scratch):
    os.makedirs(scratch, exist_ok=True)
    p = os.path.join(scratch, "in.txt")
    open(p, "w").write(inputs + "\n")
    try:
        r = subprocess.run([nexe, p] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=150, cwd=scratch)
    except subprocess.TimeoutExpired:
        return None, "timeout"
    o = r.stdout.decode(errors="replace")
    m = re.search(r"^REPRODUCED: (.*)$", o, re.M)
    return (m.group(1) if m else None), o

MODELTEXT = dict(sched="threads, mutexes, condition variables and futures run as coroutines under a symbolic schedule (models/sched.cpp); switches happen at synchronisation operations; no spurious wakeups",
  libc="libc character classes, strto*, hash of bytes (models/libc.cpp), memory and file system of the C++ runtime executed natively",
  ffint="products and inverses of FFInt are field operations of the solver layer, Z_p theory (models/ffint.cpp; their exactness is C01)",
  ffint_prim="mod_mul of FFInt is the field product (models/ffint_prim.cpp; its exactness is C01 modmul)",
  gmp="GMP integers are exact integers below 2^253, larger values end the path as a limit (models/gmp.cpp)",
  flint="FLINT nmod functions by their documentation (models/flint.cpp)")

def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"known": [], "fixed": []}

def run_check(pid, spec, tier):
    t0 = time.time()
    eng = engine_build()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    hs = spec["harnesses"]
    evp = os.path.join(os.environ.get("FFSYM_EVID", os.path.join(VERIF, "evidence")), pid + ".json")
    os.makedirs(os.path.dirname(evp), exist_ok=True)
    scratch = os.path.join(BUILD, "scratch", "%s-%d" % (pid, os.getpid()))
    os.makedirs(scratch, exist_ok=True)
    known = [k for k in load_known()["known"] if k["property"] == pid]
    exes = {}
    with cf.ThreadPoolExecutor(JOBS) as ex:
        jobs = {h["name"]: build_harness(h, tier, ex, eng) for h in hs}
        with cf.ThreadPoolExecutor(JOBS) as ex2:
            def link(h):
                try: return link_harness(h, tier, jobs[h["name"]], eng)
                except BuildError as e:
                    # code may have moved between translation units: retry with all sources of the library
                    if "undefined" not in str(e): raise
                    return link_harness(h, tier, build_harness(h, tier, ex, eng, True), eng)
            lj = {h["name"]: ex2.submit(link, h) for h in hs}
            for n, j in lj.items(): exes[n] = j.result()
    tb = time.time() - t0
    print("[%s] built %d harness(es) from %s in %.1fs" % (pid, len(hs), REPO, tb), flush=True)
    allv, reports, samples = [], [], []
    tot = dict(paths=0, branches=0, queries=0, sat=0, unsat=0, solver_unknown=0, solver_s=0.0, asserts=0, asserts_proved=0, unexplored=0, by_ideal=0, by_norm=0, by_fd=0)
    funcs, externals, validated, unrepro, notes = set(), set(), 0, 0, []
    complete = True
    maxtotal = 800 if tier == "quick" else 6 * 3600
    for h in hs:
        exe, nexe = exes[h["name"]]
        args = h.get("args", [])
        budget = h.get("budget_" + tier, h.get("budget", 60 if tier == "quick" else 1800))
        budget = max(5, min(budget, maxtotal - (time.time() - t0)))
        out = os.path.join(scratch, h["name"] + ".json")
        sc = os.path.join(scratch, h["name"]); os.makedirs(sc, exist_ok=True)
        cmd = [exe, "--budget", str(budget), "--out", out, "--jobs", str(h.get("jobs", JOBS)), "--seed", str(seed), "--all", "--maxviol", str(h.get("maxviol", 6))] + h.get("engine", []) + h.get("engine_" + tier, []) + ["--"] + args
        try:
            r = subprocess.run(cmd, cwd=sc, timeout=budget + 120, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        except subprocess.TimeoutExpired:
            complete = False; notes.append(h["name"] + ": engine timeout"); continue
        if not os.path.exists(out):
            raise BuildError("engine produced no result for %s: %s" % (h["name"], r.stdout.decode(errors="replace")[-1000:]))
        j = json.load(open(out))
        for k in tot: tot[k] += j.get(k, 0)
        funcs |= {f for fs in j["functions"] for f in fs.split("|")}; externals |= set(j["externals"])
        missing = sorted(set(j["expected"]) - set(j["reached"]))
        rep = dict(harness=h["name"], bound=h.get("bound", ""), complete=j["complete"], paths=j["paths"], unexplored=j["unexplored"], queries=j["queries"], sat=j["sat"], unsat=j["unsat"],
                   solver_unknown=j["solver_unknown"], solver_s=round(j["solver_s"], 2), asserts=j["asserts"], asserts_proved=j["asserts_proved"], ends=j["ends"], wall_s=round(j["wall_s"], 1),
                   reached=j["reached"], not_reached=missing, externals=j["externals"])
        reports.append(rep)
        if not j["complete"] and not h.get("partial_ok"): complete = False
        print("[%s] %-28s %s paths=%d unexplored=%d queries=%d (unknown %d) asserts=%d/%d solver=%.1fs wall=%.1fs ends=%s%s" % (
            pid, h["name"], "COMPLETE" if j["complete"] else "partial", j["paths"], j["unexplored"], j["queries"], j["solver_unknown"], j["asserts_proved"], j["asserts"], j["solver_s"], j["wall_s"], j["ends"],
            (" NOT-REACHED " + ",".join(missing)) if missing else ""), flush=True)
        if missing: notes.append("%s: reachability witnesses not reached: %s" % (h["name"], ", ".join(missing)))
        # translator validation: replay some explored paths natively, the property must hold there too
        for s in j["samples"][:h.get("validate", 4)]:
            if j["violations"]: break
            m, o = replay(nexe, s, args, sc)
            if m is None and "NOT-REPRODUCED" in o: validated += 1
            elif m is not None:
                allv.append((h, dict(kind="native", msg=m, inputs=s), m, o))
        samples += [h["name"] + ": " + s for s in j["samples"][:3]]
        seen = set()
        for v in j["violations"]:
            m, o = replay(nexe, v["inputs"], args, sc)
            if m is None:
                unrepro += 1
                notes.append("%s: solver counterexample did not reproduce natively: %s [%s]" % (h["name"], v["msg"], v["inputs"][:300]))
                print("[%s] %s: counterexample NOT reproduced by the native replay (%s): %s" % (pid, h["name"], v["inputs"][:200], v["msg"]), flush=True)
                continue
            if v["msg"] in seen: continue
            seen.add(v["msg"])
            allv.append((h, v, m, o))
    rc = 0
    nviol = 0
    for h, v, m, o in allv:
        k = next((k for k in known if k["harness"] == h["name"] and re.search(k["match"], m) and (not k.get("inputs") or re.search(k["inputs"], v["inputs"]))), None)
        if k:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]), flush=True)
            continue
        nviol += 1
        rd = os.path.join(VERIF, "replays"); os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, "%s-%s-%s.txt" % (pid, h["name"], hashlib.sha256(v["inputs"].encode()).hexdigest()[:8]))
        open(rp, "w").write("property %s\nharness %s\nmessage %s\ninputs %s\nreplay: %s <file with inputs> %s\n\n%s\n" % (pid, h["name"], m, v["inputs"], exes[h["name"]][1], " ".join(h.get("args", [])), o))
        print("[%s] %s: %s   inputs: %s" % (pid, h["name"], m, v["inputs"][:300]), flush=True)
        print("VIOLATION property=%s replay=%s" % (pid, rp), flush=True)
        rc = 1
    ev = dict(property=pid, tier=tier, seed=seed, level=spec.get("level", "model_checking"), wall_s=round(time.time() - t0, 2), violations=nviol,
              assumptions=spec.get("assumptions", []) + ["clang-18 -O1 IR of the sources is what is encoded; the native replay uses g++ -O2", "code replaced by models: " + "; ".join(MODELTEXT[m] for m in sorted({m for h in hs for m in h.get("models", ["libc", "strinst", "ffint"])}) if MODELTEXT.get(m))],
              coverage=dict(states=tot["paths"], transitions=tot["branches"], traces_validated_against_impl=validated, samples=samples[:20] or ["none"],
                            exhaustive=bool(complete and not unrepro), bounds={h["name"]: h.get("bound", "") for h in hs}, queries=tot["queries"], queries_sat=tot["sat"], queries_unsat=tot["unsat"],
                            queries_unknown=tot["solver_unknown"], solver_s=round(tot["solver_s"], 2), assertions_checked=tot["asserts"], assertions_proved=tot["asserts_proved"], unexplored_paths=tot["unexplored"], queries_unsat_by_ideal_membership=tot["by_ideal"], assertions_reduced_to_constant_by_normalisation=tot["by_norm"], queries_decided_by_exhaustive_formula_evaluation=tot["by_fd"],
                            functions_encoded=demangle(sorted(funcs)), unmodelled_externals_called=demangle(sorted(externals)), harnesses=reports, notes=notes, unreproduced_counterexamples=unrepro, build_s=round(tb, 1),
                            solver="z3 4.8.12 (finite-domain bit-vector solver, in process) behind a normal form and ideal-membership layer for polynomials over Z_p"))
    json.dump(ev, open(evp, "w"), indent=1)
    shutil.rmtree(scratch, ignore_errors=True)
    print("[%s] %s: %s in %.1fs" % (pid, tier, "VIOLATED" if rc else ("held on all %d paths" % tot["paths"] if complete and not notes else "no violation on %d paths explored (exploration INCOMPLETE: %s)" % (tot["paths"], "; ".join(notes)[:300] or "budget or solver limits")), time.time() - t0), flush=True)
    return rc

def demangle(l):
    if not l: return []
    r = subprocess.run(["c++filt"], input="\n".join(l).encode(), stdout=subprocess.PIPE).stdout.decode().split("\n")
    return [x for x in r if x]

def main():
    sys.path.insert(0, os.path.join(VERIF, "engine"))
    import checks
    a = sys.argv[1:]
    if a and a[0] == "setup":
        d = engine_build(); print("engine built in", d); return 0
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in a: tier = "thorough"; a.remove("--thorough")
    if "--quick" in a: tier = "quick"; a.remove("--quick")
    only = None
    if "--only" in a:
        i = a.index("--only"); only = a[i + 1]; del a[i:i + 2]
    pid = a[0]
    spec = dict(checks.CHECKS[pid])
    if only: spec["harnesses"] = [h for h in spec["harnesses"] if fnmatch.fnmatch(h["name"], only)]
    else:
        spec["harnesses"] = [h for h in spec["harnesses"] if tier == "thorough" or not h.get("thorough_only")]
    try:
        return run_check(pid, spec, tier)
    except BuildError as e:
        print("BUILD/ENGINE ERROR in check %s:\n%s" % (pid, e), flush=True)
        return 2

if __name__ == "__main__":
    sys.exit(main())
