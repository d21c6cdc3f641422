#!/usr/bin/env python3
"""seedlib.py mk FILE.py ...   write seeded/<id>/ from definitions (S(...) calls)
   seedlib.py verify ID...     in a private copy of /repo: apply, build, stable tests, demo fails there and passes on /repo
   seedlib.py check ID...      run the property's quick check against a patched copy of the sources"""
import sys, os, subprocess, json, shutil, stat
V = "/verif"; W = "/tmp/seedw"
DEMO = '''#!/bin/bash
# exit 0: property holds here; nonzero: broken
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
cfg=%(cfg)s
g++ -std=gnu++14 -O1 -w -pthread %(cdef)s -I_build/$cfg/include -Isource/include -I. %(extra)s "$d/demo.cpp" _build/$cfg/libfirefly.a -o "$t/demo" %(libs)s -lgmpxx -lgmp -lz || exit 99
cd "$t" && timeout 120 ./demo
'''
def S(id, prop, edits, demo, needs, breaks, cfg="default", extra="", demo_sh=None, files={}):
    d = f"{V}/seeded/{id}"; os.makedirs(d, exist_ok=True)
    t = f"/tmp/mkseed-{os.getpid()}"; shutil.rmtree(t, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", "/repo", t])
    for f, old, new in edits:
        p = f"{t}/{f}"; s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    open(d + "/patch.diff", "wb").write(subprocess.check_output(["git", "diff"], cwd=t))
    shutil.rmtree(t)
    if demo: open(d + "/demo.cpp", "w").write(demo)
    cdef = {"default": "-DDEFAULT", "flint": "-DFLINT", "mpi": "-DDEFAULT -DWITH_MPI"}[cfg]
    open(d + "/demo.sh", "w").write(demo_sh or DEMO % dict(cfg=cfg, cdef=cdef, extra=extra, libs="-lflint" if cfg == "flint" else ""))
    for n, c in files.items(): open(f"{d}/{n}", "w").write(c)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    print("wrote", id)
def ns(cmd):
    return subprocess.run(["unshare", "-Urm", "bash", "-c", f"mount --bind {W} /repo && cd /repo && {cmd}"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
def verify(ids):
    if not os.path.exists(W): subprocess.check_call(["cp", "-a", "/repo", W])
    stable = json.load(open("/opt/vp/BASELINE.json"))
    for i in ids:
        d = f"{V}/seeded/{i}"
        subprocess.check_call("git checkout -q -- . && git fetch -q /repo && git checkout -q FETCH_HEAD", shell=True, cwd=W)
        r0 = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if subprocess.call(["git", "apply", d + "/patch.diff"], cwd=W): print(i, "PATCH DOES NOT APPLY"); continue
        b = ns("bash /opt/vp/build.sh")
        ok = b.returncode == 0
        t = ns("bash /opt/vp/test.sh /tmp/seedw/_build/out.json") if ok else None
        res = json.load(open(W + "/_build/out.json")) if ok and os.path.exists(W + "/_build/out.json") else {}
        r1 = ns(f"bash {d}/demo.sh") if ok else None
        subprocess.check_call("git checkout -q -- .", shell=True, cwd=W)
        def names(o):
            if isinstance(o, dict):
                for k in ("passed", "pass", "stable", "tests"):
                    if k in o: return set(o[k]) if not isinstance(o[k], dict) else {x for x, y in o[k].items()}
            return set(o)
        miss = sorted(names(stable) - names(res))
        print(i, "demo unchanged:", r0.returncode, "build", ok, "tests missing:", miss, "demo patched:", r1.returncode if r1 else None, flush=True)
        if r0.returncode: print(r0.stdout.decode()[-1500:])
        if not ok: print(b.stdout.decode()[-1500:])
def check(ids, tier="--quick"):
    for i in ids:
        d = f"{V}/seeded/{i}"; t = f"/tmp/chk-{os.getpid()}"
        shutil.rmtree(t, ignore_errors=True); subprocess.check_call(["git", "clone", "-q", "/repo", t])
        subprocess.check_call(["git", "apply", d + "/patch.diff"], cwd=t)
        p = json.load(open(d + "/meta.json"))["property"]
        e = dict(os.environ, FFSYM_REPO=t, FFSYM_BUILD="/tmp/chkbuild", FFSYM_EVID="/tmp/chkev")
        r = subprocess.run(["python3", V + "/engine/ff.py", p, tier], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        o = r.stdout.decode()
        print(i, p, "rc", r.returncode, "CAUGHT" if r.returncode == 1 and "VIOLATION property=" + p in o else "MISSED"); print("\n".join(o.split("\n")[-8:]) if r.returncode != 1 else "\n".join([l for l in o.split("\n") if "inputs:" in l][:2]), flush=True)
        shutil.rmtree(t)
if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "mk":
        for f in a[1:]: exec(open(f).read())
    elif a[0] == "verify": verify(a[1:])
    elif a[0] == "check": check(a[1:])
