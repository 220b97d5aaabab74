#!/usr/bin/env python3
"""trybug.py ID [C01 C02 ...|all|none]  validates /verif/seeded/ID in a scratch copy of /repo and runs checks against it
   (default: the property named in meta.json).  trybug.py --new ID FILE: nothing else."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def run(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
def build(r):
    b = r + "/_build"
    if not os.path.exists(b + "/build.ninja"):
        p = run(["cmake", "-S", r, "-B", b, "-G", "Ninja", "-DCMAKE_C_COMPILER=/usr/bin/gcc", "-DCMAKE_BUILD_TYPE=RelWithDebInfo", "-DCMAKE_POLICY_VERSION_MINIMUM=3.5", "-DCMAKE_C_FLAGS=-Wno-error", "-DBUILD_RDIFF=ON", "-DBUILD_SHARED_LIBS=ON"])
        if p.returncode: return p.stdout
    p = run(["ninja", "-C", b])
    return p.stdout if p.returncode else None
def demo(sd, r):
    d = r + "-demo"; shutil.rmtree(d, ignore_errors=True); shutil.copytree(sd, d)
    for f in ("patch.diff", "meta.json"): os.path.exists(d + "/" + f) and os.remove(d + "/" + f)
    try: p = run(["bash", d + "/demo.sh"], cwd=r, timeout=300)
    except subprocess.TimeoutExpired: return "timeout", ""
    finally: shutil.rmtree(d)
    return p.returncode, p.stdout[-600:]
def main():
    bid = sys.argv[1]; sd = V + "/seeded/" + bid
    meta = json.load(open(sd + "/meta.json"))
    ck = sys.argv[2:] or [meta["property"]]
    if ck == ["all"]: ck = ["C%02d" % i for i in range(1, 25)]
    if ck == ["none"]: ck = []
    top = "/tmp/tb-" + bid; shutil.rmtree(top, ignore_errors=True); os.makedirs(top)
    r = top + "/repo"
    try:
        shutil.copytree("/repo", r, symlinks=True, ignore=lambda d, n: [x for x in n if x in (".git", "_build")])
        e = build(r)
        if e: print(bid, "BASE BUILD FAILED", e[-500:]); return 1
        c, o = demo(sd, r)
        if c != 0: print(bid, "DEMO FAILS ON BASE", c, o); return 1
        p = run(["git", "apply", "-p1", "--directory=", sd + "/patch.diff"], cwd=r)
        p = run(["patch", "-p1", "-i", sd + "/patch.diff"], cwd=r) if p.returncode or not changed(r) else p
        if p.returncode: print(bid, "PATCH", p.stdout); return 1
        e = build(r)
        if e: print(bid, "BUILD FAILED", e[-1500:]); return 1
        p = run(["ctest", "--timeout", "100"], cwd=r + "/_build")
        if p.returncode: print(bid, "TESTS FAIL", p.stdout[-900:]); return 1
        c, o = demo(sd, r)
        if c == 0: print(bid, "DEMO PASSES WITH BUG", o); return 1
        res = []
        for k in ck:
            p = run([sys.executable, V + "/check.py", k, "quick"], env=dict(os.environ, VERIF_REPO=r), cwd=V)
            res.append("%s:%s" % (k, {0: "missed", 1: "CAUGHT"}.get(p.returncode, "rc%s" % p.returncode)))
            if p.returncode == 1 and len(ck) < 4: print("   ", "\n    ".join(l for l in p.stdout.splitlines() if l.startswith("  ") and not l.startswith("  |"))[:500])
            if p.returncode not in (0, 1): print(p.stdout[-1500:])
        print(bid, "valid(demo rc %s)" % c, " ".join(res), flush=True)
    finally:
        shutil.rmtree(top, ignore_errors=True)
def changed(r):
    return bool(run(["diff", "-rq", "/repo/src", r + "/src"]).stdout)
sys.exit(main())
