#!/usr/bin/env python3
"""mutate.py gen OUT.json            list one-line mutants of /repo/src
   mutate.py filter IN OUT [-j N]   keep those that build, differ in object code and pass the test suite
   mutate.py check IN OUT [ids..]   run the checks (quick) on each until one reports it
A development aid for judging the checks; nothing registered in MANIFEST.json uses it.  Everything happens in /tmp/mut."""
import concurrent.futures as cf, glob, hashlib, json, os, random, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); T = "/tmp/mut"
SKIP = {"version.c", "librsync_export.h", "prototab.h", "command.c", "isprefix.c"}
def run(c, **k): return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
REL = [(r"(?<![<>=!\-])<(?![<=])", "<="), (r"(?<![<>\-=!])<=", "<"), (r"(?<![<>\-])>(?![>=])", ">="), (r"(?<![<>\-])>=", ">"), (r"==", "!="), (r"!=", "=="),
       (r"(?<![+\-/*e(,=] )(?<!\+)\+(?![+=])", "-"), (r"(?<![\-(,=])-(?![\-=>0-9])", "+"), (r"&&", "||"), (r"\|\|", "&&"), (r"\+=", "-="), (r"-=", "+="),
       (r"\+\+", "--"), (r"(?<=[\w)\]] )\*(?= [\w(])", "+"), (r"/(?= ?[\w(])(?!\*)", "*"), (r"<<", ">>"), (r">>", "<<"), (r"(?<=\w )&(?= \w)", "|"), (r"%(?= [\w(])", "/")]
def strip(l):   # blank out strings, chars and comments, keeping positions
    l = re.sub(r'"(\\.|[^"\\])*"', lambda m: '"' + " " * (len(m.group()) - 2) + '"', l)
    l = re.sub(r"'(\\.|[^'\\])+'", lambda m: "'" * len(m.group()), l)
    l = re.sub(r"/\*.*?\*/", lambda m: " " * len(m.group()), l)
    return re.sub(r"//.*|/\*.*", lambda m: " " * len(m.group()), l)
def gen():
    out = []
    for f in sorted(glob.glob("/repo/src/*.[ch]")):
        b = os.path.basename(f)
        if b in SKIP: continue
        L = open(f).read().split("\n"); com = False
        for i, l in enumerate(L):
            if com:
                if "*/" in l: com = False
                continue
            s = strip(l)
            if "/*" in l and "*/" not in l: com = True
            if l.lstrip().startswith(("#", "*", "/*", "//")) or not s.strip(): continue
            if re.match(r"\s*(rs_trace|rs_log|assert)\b", s): continue
            def add(n, k):
                if n != l: out.append(dict(file=b, line=i + 1, old=l, new=n, kind=k))
            for rx, rep in REL:
                for m in re.finditer(rx, s): add(l[:m.start()] + rep + l[m.end():], "op")
            for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", s):
                v = int(m.group(1))
                for n in {v + 1, v - 1 if v else 1}: add(l[:m.start()] + str(n) + l[m.end():], "const")
            for m in re.finditer(r"(?<![\w.])0x([0-9a-fA-F]+)", s): add(l[:m.start()] + hex(int(m.group(1), 16) ^ 1) + l[m.end():], "const")
            for m in re.finditer(r"!(?![=])", s): add(l[:m.start()] + l[m.end():], "neg")
            m = re.match(r"(\s*(?:\} else )?if )\((.*)\)( \{)?$", s)
            if m: 
                for c in "01": add(l[:m.end(1)] + "(%s)" % c + (m.group(3) or ""), "cond")
            if re.match(r"\s+[\w\->.*()\[\], +&]+(=|\+=|-=|\+\+|--|\()[^{}]*;\s*$", s) and not re.match(r"\s+(return|static|const|int|size_t|rs_\w+_t \*?\w+ =|uint\w+|char|void|unsigned|rs_result \w+ =|else|for|while)\b", s):
                add(re.match(r"\s*", l).group() + ";", "del")
            m = re.match(r"(\s*return )(.+);$", s)
            if m and m.group(2).strip() not in ("0",):
                for r in ("0", "RS_BLOCKED", "RS_INTERNAL_ERROR") if "RS_" in m.group(2) or "result" in m.group(2) else ("0", "1"): add(m.group(1) + r + ";", "ret")
            for a, c in (("size_t", "int"), ("size_t", "uint32_t"), ("rs_long_t", "int"), ("rs_long_t", "uint32_t"), ("uint32_t", "uint16_t"), ("int", "short"), ("uint64_t", "uint32_t")):
                for m in re.finditer(r"(?<![\w])%s(?!\w)" % a, s): add(l[:m.start()] + c + l[m.end():], "type")
            m = re.match(r"(.*)\bbreak;", s)
            if m: add(l.replace("break;", ";"), "del")
    seen = set(); res = []
    for m in out:
        k = (m["file"], m["line"], m["new"])
        if k not in seen: seen.add(k); m["id"] = len(res); res.append(m)
    return res
def objs(b):
    h = {}
    for o in sorted(glob.glob(b + "/CMakeFiles/r*.dir/src/*.o")): 
        o2 = o + ".s"; run(["objcopy", "-O", "binary", "--only-section=.text*", "--only-section=.rodata*", "--only-section=.data*", o, o2])
        d = run(["objdump", "-d", "-r", "-s", "-j", ".text", "-j", ".rodata", "-j", ".data", "-j", ".text.unlikely", "-j", ".text.startup", o]).stdout
        h[o] = hashlib.md5(re.sub(r"^.*file format.*$", "", d, flags=re.M).encode()).hexdigest()
    return sorted(h.values())
def setup(w):
    r = "%s/w%d" % (T, w); shutil.rmtree(r, ignore_errors=True)
    shutil.copytree(T + "/base", r, symlinks=True, ignore=lambda d, n: [x for x in n if x in (".git", "_build")])
    p = run(["cmake", "-S", r, "-B", r + "/_build", "-G", "Ninja", "-DCMAKE_C_COMPILER=/usr/bin/gcc", "-DCMAKE_BUILD_TYPE=None", "-DCMAKE_POLICY_VERSION_MINIMUM=3.5", "-DCMAKE_C_FLAGS=-O2 -DNDEBUG -w", "-DBUILD_RDIFF=ON", "-DBUILD_SHARED_LIBS=ON"])
    assert p.returncode == 0, p.stdout
    p = run(["ninja", "-C", r + "/_build"]); assert p.returncode == 0, p.stdout[-2000:]
    return r
def apply(r, m):
    f = r + "/src/" + m["file"]; L = open(f).read().split("\n"); assert L[m["line"] - 1] == m["old"], m
    L[m["line"] - 1] = m["new"]; open(f, "w").write("\n".join(L))
def undo(r, m): shutil.copy(T + "/base/src/" + m["file"], r + "/src/" + m["file"]); os.utime(r + "/src/" + m["file"])
def worker(w, ms):
    r = setup(w); base = objs(r + "/_build"); out = []
    for m in ms:
        apply(r, m)
        try:
            p = run(["ninja", "-C", r + "/_build"], timeout=120)
            if p.returncode: m["st"] = "nobuild"
            elif objs(r + "/_build") == base: m["st"] = "same"
            else:
                try:
                    os.makedirs(r + "/tmp", exist_ok=True)
                    p = run(["bash", "-c", "ulimit -f 1048576 -v 8000000; exec ctest --timeout 20 --stop-on-failure"], cwd=r + "/_build", env=dict(os.environ, TMPDIR=r + "/tmp"), timeout=200)
                    m["st"] = "tests" if p.returncode else "live"
                    shutil.rmtree(r + "/tmp", ignore_errors=True)
                except subprocess.TimeoutExpired: m["st"] = "tests"
        except subprocess.TimeoutExpired: m["st"] = "nobuild"
        undo(r, m); out.append(m); json.dump(out, open("%s/part%d.json" % (T, w), "w"))
    shutil.rmtree(r, ignore_errors=True)
    return out
ORDER = {"base64.c": "C22", "hex.c": "C22", "buf.c": "C12 C11 C18 C10", "checksum.c": "C15 C16 C06", "checksum.h": "C15 C04 C19", "delta.c": "C01 C04 C05 C02 C03", "emit.c": "C05 C24 C18", "emit.h": "C05", "fileutil.c": "C14 C12 C13 C19",
         "hashtable.c": "C17 C21", "hashtable.h": "C17", "job.c": "C02 C03 C21 C18", "job.h": "C02", "mdfour.c": "C16", "mksum.c": "C06 C02 C19 C18", "msg.c": "C23", "netint.c": "C09 C08 C02 C24 C06", "netint.h": "C05", "patch.c": "C07 C08 C10 C18 C24 C02",
         "prototab.c": "C07 C05", "rabinkarp.c": "C15", "rabinkarp.h": "C15 C04", "rollsum.c": "C15", "rollsum.h": "C15 C04", "rdiff.c": "C13 C14", "readsums.c": "C09 C02 C18 C21", "scoop.c": "C02 C03 C01", "scoop.h": "C02 C03 C01", "stats.c": "C23",
         "sumset.c": "C17 C19 C09 C21", "sumset.h": "C17 C19 C06", "trace.c": "C23", "trace.h": "C23", "tube.c": "C02 C03 C07", "util.c": "C24 C19", "util.h": "C21", "whole.c": "C12 C11 C19"}
def check(m, w):
    r = "%s/c%d" % (T, w); shutil.rmtree(r, ignore_errors=True)
    shutil.copytree(T + "/base", r, symlinks=True, ignore=lambda d, n: [x for x in n if x in (".git", "_build")])
    apply(r, m); o = ORDER.get(m["file"], "").split(); al = ["C%02d" % i for i in range(1, 25)]
    m["ran"] = []
    for k in o if os.environ.get("NEAR") else o + [x for x in al if x not in o]:
        p = run([sys.executable, V + "/check.py", k, "quick"], env=dict(os.environ, VERIF_REPO=r), cwd=V)
        m["ran"].append(k)
        if p.returncode == 1: m["caught"] = k; m["msg"] = [l for l in p.stdout.splitlines() if l.startswith("  ") and not l.startswith("  |")][:2]; break
        if p.returncode: m.setdefault("odd", []).append((k, p.returncode, p.stdout[-600:]))
    shutil.rmtree(r, ignore_errors=True)
def main():
    os.makedirs(T, exist_ok=True); a = sys.argv[1:]
    if not os.path.exists(T + "/base"): shutil.copytree("/repo", T + "/base", symlinks=True, ignore=lambda d, n: [x for x in n if x in (".git", "_build")])
    if a[0] == "gen": ms = gen(); json.dump(ms, open(a[1], "w"), indent=0); print(len(ms))
    elif a[0] == "filter":
        ms = json.load(open(a[1])); n = int(a[4]) if len(a) > 4 else 8; random.Random(7).shuffle(ms)
        with cf.ProcessPoolExecutor(n) as ex: res = [m for x in ex.map(worker, range(n), [ms[i::n] for i in range(n)]) for m in x]
        json.dump(sorted(res, key=lambda m: m["id"]), open(a[2], "w"), indent=0)
        c = {}; [c.__setitem__(m["st"], c.get(m["st"], 0) + 1) for m in res]; print(c)
    else:
        ms = [m for m in json.load(open(a[1])) if m.get("st") == "live"]; ids = set(map(int, a[3:])); done = json.load(open(a[2])) if os.path.exists(a[2]) else []
        have = {m["id"] for m in done if not ids}; random.Random(11).shuffle(ms)
        for m in ms:
            if (ids and m["id"] not in ids) or m["id"] in have: continue
            check(m, os.getpid()); done = [d for d in done if d["id"] != m["id"]] + [m]; json.dump(done, open(a[2], "w"), indent=0)
            print(m["id"], m["file"], m["line"], m["kind"], m.get("caught", "SURVIVED"), "" if "caught" in m else "| " + m["old"].strip() + " => " + m["new"].strip(), m.get("odd", ""), flush=True)
main()
