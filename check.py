#!/usr/bin/env python3
"""check.py <ID> [quick|thorough]   run the check of one property against /repo's working tree
   check.py --replay FILE           re-execute a stored violation
Exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check itself could not run."""
import concurrent.futures as cf, json, os, shutil, signal, subprocess, sys, tempfile, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
MC = os.path.join(HERE, "mc")
sys.path.insert(0, HERE)
from checks import CHECKS, FLAVOURS, HARNESS

class Infra(Exception): pass

def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)

class Builder:
    def __init__(self, scratch):
        self.scratch = scratch
        self.done = {}
    def lib(self, fl):
        f = FLAVOURS[fl]
        b = os.path.join(self.scratch, "lib-" + fl)
        env = dict(os.environ, LC_ALL="C.UTF-8")
        for k in ("CFLAGS", "CPPFLAGS", "LDFLAGS", "LD_LIBRARY_PATH", "DESTDIR"): env.pop(k, None)
        r = sh(["cmake", "-S", REPO, "-B", b, "-G", "Ninja", "-DCMAKE_C_COMPILER=" + f.get("cc", "/usr/bin/gcc"), "-DCMAKE_BUILD_TYPE=None",
                "-DCMAKE_C_FLAGS=" + f["cflags"] + " -Wno-error -w", "-DBUILD_SHARED_LIBS=OFF", "-DBUILD_RDIFF=ON",
                "-DCMAKE_POLICY_VERSION_MINIMUM=3.5"] + f.get("cmake", []), env=env)
        if r.returncode: raise Infra("cmake failed:\n" + r.stderr.decode(errors="replace")[-2000:])
        tg = ["rsync", "rdiff"] if f.get("rdiff") else ["rsync"]
        r = sh(["ninja", "-C", b] + tg, env=env)
        if r.returncode: raise Infra("build failed:\n" + r.stdout.decode(errors="replace")[-3000:])
        return b
    def libs(self, fls):
        todo = [f for f in dict.fromkeys(fls) if f not in self.done]
        with cf.ThreadPoolExecutor(8) as ex:
            for f, b in zip(todo, ex.map(self.lib, todo)): self.done[f] = b
    def harness(self, h, fl):
        exe = os.path.join(self.scratch, "h-%s-%s" % (h, fl))
        if os.path.exists(exe): return exe
        d, f, b = HARNESS[h], FLAVOURS[fl], self.done[fl]
        cmd = [f.get("cc", "/usr/bin/gcc"), "-O2", "-g", "-w", "-std=gnu11", "-I" + REPO + "/src", "-I" + REPO + "/src/blake2", "-I" + b + "/src", "-I" + MC, "-DLIBRSYNC_STATIC_DEFINE"]
        cmd += f.get("hflags", "").split() + d.get("cflags", "").split()
        cmd += [os.path.join(MC, s) for s in d["src"]] + ["-o", exe, os.path.join(b, "librsync.a")] + d.get("ldflags", "").split() + ["-lm", "-lpthread"]
        r = sh(cmd)
        if r.returncode: raise Infra("harness %s/%s does not compile:\n%s" % (h, fl, r.stderr.decode(errors="replace")[-3000:]))
        return exe

def run_part(bl, part, tier, only=None, limit=None):
    """Runs one part; returns the harness' JSON."""
    fl = part["flavour"]
    if "py" in part:
        mod = __import__(part["py"])
        return mod.run(dict(part=part, tier=tier, only=only, builddir=bl.done[fl], scratch=bl.scratch, limit=limit or 700, builder=bl))
    exe = bl.harness(part["harness"], fl)
    cmd = [exe, "--mode", part["mode"], "--workers", str(min(8, os.cpu_count() or 8))]
    if tier == "thorough": cmd.append("--thorough")
    if only is not None: cmd += ["--only", str(only)]
    if limit: cmd += ["--limit", str(int(limit))]
    env = dict(os.environ, ASAN_OPTIONS="abort_on_error=1:detect_leaks=0:handle_segv=0:handle_abort=0:allocator_may_return_null=1:print_summary=1:malloc_context_size=8",
               UBSAN_OPTIONS="halt_on_error=1:abort_on_error=1:print_stacktrace=1", LC_ALL="C.UTF-8")
    err = tempfile.TemporaryFile(dir=bl.scratch)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=err, env=env, cwd=bl.scratch, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=(limit or 700) * 2 + 200)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); p.wait()
        raise Infra("harness %s timed out" % part["harness"])
    n = err.seek(0, 2); err.seek(max(0, n - 6000)); tail = err.read().decode(errors="replace"); err.close()
    try:
        j = json.loads(out.decode())
    except Exception:
        raise Infra("harness %s gave no result (status %s)\n%s\n%s" % (part["harness"], p.returncode, out[-500:], tail[-2000:]))
    if j.get("infra"): raise Infra("harness %s: infrastructure failure\n%s" % (part["harness"], tail[-2000:]))
    j["stderr"] = tail
    return j

def confirm(bl, part, tier, viol):
    """Re-execute the violating case alone (twice); true if it fails again."""
    for _ in range(2):
        j = run_part(bl, part, tier, only=viol["case"])
        if j["violations"]: return j
    return None

def known(pid):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: property=%s " % pid): out.append(l[len("known: property=%s " % pid):])
    return out

def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay": return replay(sys.argv[2])
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    chk = CHECKS[pid]; t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    scratch = tempfile.mkdtemp(prefix="vmc-%s-" % pid)
    try:
        bl = Builder(scratch)
        parts = [p for p in chk["parts"] if tier == "thorough" or not p.get("thorough_only")]
        bl.libs([p["flavour"] for p in parts])
        results = []; violations = []
        budget = 560 if tier == "quick" else float(os.environ.get("VERIF_BUDGET", "7200"))
        for p in parts:
            left = max(20, budget - (time.time() - t0))
            j = run_part(bl, p, tier, limit=left)
            results.append((p, j))
            print("part %s/%s/%s: %s cases, %s evaluations, %s distinct, %s states, %s transitions, %.1fs%s" % (p.get("harness", p.get("py")), p["flavour"], p["mode"],
                  j["cases"], j["evaluations"], j["distinct"], j["states"], j["transitions"], j["wall"], (" STOPPED at time limit" if j["stopped"] else "") + (" %d cases cut at the state limit" % j["truncated"] if j.get("truncated") else "")), flush=True)
            if j["violations"]:
                v = j["violations"][0]
                c = confirm(bl, p, tier, v)
                if c is None:       # depends on the history of earlier cases: repeat the whole part
                    j2 = run_part(bl, p, tier, limit=left)
                    if j2["violations"]: c = j2; v = j2["violations"][0]
                if c is None: raise Infra("violation in part %s not reproducible: %s" % (p["mode"], v))
                violations.append((p, v, c)); break
        rc = 0
        kf = known(pid)
        for k in kf: print("KNOWN-FINDING: property=%s %s" % (pid, k))
        if violations:
            p, v, c = violations[0]
            rd = os.path.join(HERE, "evidence", "replay"); os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, "%s.json" % pid)
            json.dump(dict(property=pid, tier=tier, part=p, case=v["case"], message=c["violations"][0]["msg"], description=c["violations"][0].get("desc", ""), stderr=c.get("stderr", "")[-4000:]), open(rp, "w"), indent=1)
            print("  case %s: %s" % (v["case"], c["violations"][0].get("desc", "")))
            print("  " + c["violations"][0]["msg"])
            if c.get("stderr"): print("\n".join("  | " + l for l in c["stderr"].splitlines()[-25:]))
            print("VIOLATION property=%s replay=%s" % (pid, rp), flush=True)
            rc = 1
        write_evidence(pid, tier, seed, chk, results, len(violations), time.time() - t0)
        return rc
    except Infra as e:
        print("ERROR: %s" % e, file=sys.stderr); return 2
    except Exception:
        traceback.print_exc(); return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def write_evidence(pid, tier, seed, chk, results, nviol, wall):
    s = lambda k: int(sum(j[k] for _, j in results))
    samples = []
    for p, j in results: samples += ["%s/%s/%s %s" % (p.get("harness", p.get("py")), p["flavour"], p["mode"], x) for x in j["samples"]]
    cov = dict(exhaustive=all(not j["stopped"] and not j.get("truncated") for _, j in results) and not nviol, samples=samples[:12],
               parts=[dict(part="%s/%s/%s" % (p.get("harness", p.get("py")), p["flavour"], p["mode"]), cases=j["cases"], evaluations=j["evaluations"], distinct=j["distinct"],
                           states=j["states"], transitions=j["transitions"], wall_s=j["wall"], completed=not j["stopped"] and not j.get("truncated")) for p, j in results],
               rule=chk["rule"], bounds=chk["bounds"])
    if chk["level"] == "model_checking":
        cov.update(states=s("states"), transitions=s("transitions"), traces_validated_against_impl=s("evaluations"))
        if not cov["states"]: cov["states"] = s("distinct")
        if not cov["transitions"]: cov["transitions"] = s("evaluations")
        cov["note"] = "The transition function explored is the real implementation, so every explored trace is an implementation trace."
    else:
        cov.update(evaluations=s("evaluations"), distinct_nontrivial=s("distinct"))
        if s("states"): cov.update(states=s("states"), transitions=s("transitions"))
    ev = dict(property=pid, tier=tier, seed=seed, level=chk["level"], coverage=cov, assumptions=chk.get("assumptions", []), wall_s=round(wall, 2), violations=nviol)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)

def replay(path):
    r = json.load(open(path)); scratch = tempfile.mkdtemp(prefix="vmc-replay-")
    try:
        bl = Builder(scratch); bl.libs([r["part"]["flavour"]])
        j = run_part(bl, r["part"], r["tier"], only=r["case"])
        print(j["stderr"][-4000:])
        if j["violations"]:
            print(j["violations"][0]["msg"]); print("VIOLATION property=%s replay=%s" % (r["property"], path)); return 1
        print("case %s does not fail on this tree" % r["case"]); return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

if __name__ == "__main__":
    sys.exit(main())
