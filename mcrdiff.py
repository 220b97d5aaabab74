"""Exhaustive exploration of the real rdiff program: option products, input damage, I/O faults, path states.
Every run of rdiff happens in a scratch directory of its own; the fault enumeration uses only kernel behaviour
(file size limits, full device, reset sockets, closed pipes) and, where it works, strace's fault injection."""
import json, multiprocessing as mp, os, random, re, resource, selectors, shutil, signal, socket, stat, subprocess, sys, tempfile, time, traceback
import mcref
NOBODY = 65534
class Bad(Exception): pass
def fill(n, seed):
    out = bytearray(); x = seed * 2654435761 % 2**32 or 1
    while len(out) < n:
        x ^= (x << 13) & 0xffffffff; x ^= x >> 17; x ^= (x << 5) & 0xffffffff; out.append(x >> 7 & 255)
    return bytes(out)
OLD = fill(600, 1); NEW = OLD[250:420] + b"inserted text" + OLD[:100] + fill(40, 9) + OLD[560:]
BIGOLD = fill(20000, 3); BIGNEW = BIGOLD[5000:12000] + fill(9000, 4) + BIGOLD[:5000]
PAIRS = [(OLD, NEW), (b"", b""), (b"", NEW), (OLD, b""), (OLD, OLD), (b"x", b"y"), (BIGOLD, BIGNEW), (bytes(5000), bytes(4999))]

class W:    # per worker state
    rdiff = None; openx = None; dir = None; strace = None; spawns = 0
def clean():
    for n in os.listdir(W.dir):
        p = os.path.join(W.dir, n)
        if os.path.islink(p) or not os.path.isdir(p): os.unlink(p)
        else:
            for r, ds, fs in os.walk(p):
                for d in ds: os.chmod(os.path.join(r, d), 0o700)
            os.chmod(p, 0o700); shutil.rmtree(p)
    os.chmod(W.dir, 0o755)
def put(name, data, mode=0o644):
    p = os.path.join(W.dir, name)
    with open(p, "wb") as f: f.write(data)
    os.chmod(p, mode)
def get(name):
    with open(os.path.join(W.dir, name), "rb") as f: return f.read()
class R:
    def __init__(s, argv, rc, out, err): s.argv, s.rc, s.out, s.err = argv, rc, out, err
    def __str__(s): return "rdiff %s: status %s, stderr %r" % (" ".join(s.argv), s.rc, s.err[-300:])
def rdiff(argv, stdin=b"", stdout=None, fsize=None, user=None, sigpipe=False, pre=None, prog=None, close_out=False, timeout=60, vmem=None):
    """stdin: bytes (pipe), file object or socket.  stdout: None (captured) or file object."""
    def child():
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        signal.signal(signal.SIGPIPE, signal.SIG_DFL if sigpipe else signal.SIG_IGN)
        if fsize is not None: resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
        if vmem: resource.setrlimit(resource.RLIMIT_AS, (vmem, vmem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if user is not None: os.setgroups([]); os.setresgid(user, user, user); os.setresuid(user, user, user)
        if close_out: os.close(1)
    W.spawns += 1
    argv = [str(a) for a in argv]
    kw = dict(stdout=subprocess.PIPE if stdout is None else stdout, stderr=subprocess.PIPE, cwd=W.dir, preexec_fn=child, restore_signals=False)
    kw["stdin"] = subprocess.PIPE if isinstance(stdin, bytes) else stdin
    p = subprocess.Popen((pre or []) + [prog or W.rdiff] + argv, **kw)
    try:
        out, err = talk(p, stdin if isinstance(stdin, bytes) else None, timeout)
    except subprocess.TimeoutExpired:
        p.kill(); p.wait(); raise Bad("rdiff %s did not finish" % " ".join(argv))
    return R(argv, p.returncode, out, err)
def talk(p, data, timeout, cap=64 << 20):
    """communicate() with a bound on what the program may say (a runaway program counts as not finishing)."""
    sel = selectors.DefaultSelector(); out = {p.stdout: [], p.stderr: []}; size = 0; end = time.time() + timeout; pos = 0
    for f in out:
        if f: sel.register(f, selectors.EVENT_READ)
    if data is not None:
        if data: os.set_blocking(p.stdin.fileno(), False); sel.register(p.stdin, selectors.EVENT_WRITE)
        else: p.stdin.close()
    while sel.get_map():
        left = end - time.time()
        if left <= 0 or size > cap:
            for f in (p.stdin, p.stdout, p.stderr):
                if f: f.close()
            raise subprocess.TimeoutExpired("rdiff", timeout)
        for k, _ in sel.select(left):
            f = k.fileobj
            if f is p.stdin:
                try: pos += os.write(f.fileno(), data[pos:pos + 65536])
                except BlockingIOError: continue
                except BrokenPipeError: pos = len(data)
                if pos >= len(data): sel.unregister(f); f.close()
            else:
                b = os.read(f.fileno(), 1 << 16)
                if b: out[f].append(b); size += len(b)
                else: sel.unregister(f); f.close()
    p.wait(timeout=max(1, end - time.time()))
    return tuple(b"".join(out[f]) if f else None for f in (p.stdout, p.stderr))
OKSIG = (-signal.SIGPIPE, -signal.SIGXFSZ)
def failed(r, why):
    if r.rc == 0: raise Bad("%s, but exit status is 0 (%s)" % (why, r))
    if r.rc < 0 and r.rc not in OKSIG: raise Bad("%s: killed by signal %d (%s)" % (why, -r.rc, r))
    if r.rc > 0 and not r.err.strip(): raise Bad("%s: failed without any message (%s)" % (why, r))
def succeeded(r, why):
    if r.rc != 0: raise Bad("%s, but it failed (%s)" % (why, r))

def check_sig(sig, data, opts, why):
    """opts: dict H,R,b,S as given (None when absent)."""
    if len(sig) < 12: raise Bad("%s: signature of %d bytes" % (why, len(sig)))
    mg, bl, sl = (int.from_bytes(sig[i:i + 4], "big") for i in (0, 4, 8))
    want = mcref.MAGICS[(opts.get("H") or "blake2", opts.get("R") or "rabinkarp")]
    if mg != want: raise Bad("%s: signature type %#x, asked for %#x" % (why, mg, want))
    b, S = opts.get("b") or 0, opts.get("S") or 0
    if b and bl != b: raise Bad("%s: block length %d, asked for %d" % (why, bl, b))
    if S > 0 and sl != S or S == 0 and sl != mcref.MAXS[mg] or not 1 <= sl <= mcref.MAXS[mg]: raise Bad("%s: strong sum length %d, asked for %d" % (why, sl, S))
    if bl < 1: raise Bad("%s: block length 0" % why)
    if sig != mcref.signature(mg, bl, sl, data): raise Bad("%s: wrong signature content" % why)
def check_delta(d, old, new, why, shared=False):
    out, reason, cps = mcref.execute(d, old)
    if reason: raise Bad("%s: delta is malformed: %s" % (why, reason))
    if out != new: raise Bad("%s: delta does not describe the new file" % why)

# ------------------------------------------------------------------ C13: option product
def optargs(o, long):
    a = []
    for k, l in (("H", "hash"), ("R", "rollsum"), ("b", "block-size"), ("S", "sum-size"), ("I", "input-size"), ("O", "output-size")):
        if o.get(k) is not None: a += ["--%s=%s" % (l, o[k])] if long else ["-" + k, o[k]]
    return a
def accepted(o):
    if o.get("H") not in (None, "blake2", "md4") or o.get("R") not in (None, "rabinkarp", "rollsum"): return False
    mx = 16 if o.get("H") == "md4" else 32
    if (o.get("S") or 0) > mx or (o.get("S") or 0) < -1 or (o.get("b") or 0) < 0: return False
    return True
def c_opts(o, pair, style):
    old, new = PAIRS[pair]; put("old", old); put("new", new)
    oa = optargs(o, style & 1); extra = [[], ["-s"], ["-v"], ["--stats", "-f"]][style % 4]
    why = "signature with %s" % " ".join(map(str, oa))
    io = style >> 1 & 3     # 0 files, 1 stdin/stdout, 2 mixed, 3 stdin is a regular file
    def go(cmd, ins, out, why):     # ins: list of names; the last may be given on stdin
        if io == 0: r = rdiff(extra + oa + [cmd] + ins + [out]); data = get(out) if r.rc == 0 else None
        elif io == 1: r = rdiff(oa + extra + [cmd] + ins[:-1] + (["-"] if style & 8 else []), stdin=get(ins[-1])); data = r.out
        elif io == 2: r = rdiff([cmd] + oa + extra + ins); data = r.out
        else:
            with open(os.path.join(W.dir, ins[-1]), "rb") as f: r = rdiff([cmd] + ins[:-1] + ["-", out] + oa, stdin=f)
            data = get(out) if r.rc == 0 else None
        return r, data
    r, sig = go(["s", "sig", "signature", "signatur"][style % 4], ["old"], "sig", why)
    if not accepted(o): failed(r, why + " is not valid"); return "rejected"
    succeeded(r, why + " is valid")
    check_sig(sig, old, o, why)
    put("sig", sig)
    r, d = go(["d", "delta", "del", "delt"][style % 4], ["sig", "new"], "delta", why)
    succeeded(r, "delta (%s)" % why); check_delta(d, old, new, "delta (%s)" % why)
    if old == new and old and d.__len__() > 80 and (o.get("b") or 99) > 1: raise Bad("delta of identical files carries data (%d bytes, %s)" % (len(d), why))
    put("delta", d)
    r, n = go(["p", "patch", "pat", "patc"][style % 4], ["old", "delta"], "out", why)
    succeeded(r, "patch (%s)" % why)
    if n != new: raise Bad("patch output differs from the new file (%s)" % why)
    return "ok"
def gen_opts(th):
    bs = [None, 0, 1, 2, 7, 100, 5000, 1 << 20] + ([3, 4, 16, 64, 255, 256, 257, 599, 600, 601, 2048] if th else [])
    Ss = [None, 0, -1, 1, 8, 16, 17, 32, 33] + ([2, 3, 4, 5, 7, 12, 15, 31, -2, 1000] if th else [])
    k = 0
    for H in (None, "blake2", "md4"):
        for Rr in (None, "rabinkarp", "rollsum"):
            for b in bs:
                for S in Ss:
                    for io in ((None, None), (1, 1), (7, 100), (100000, 3)) + (((1, 70000), (4096, 4096), (13, 1), (1000, None), (None, 50)) if th else ()):
                        for pr in (range(8) if th else (0, 4)):
                            if (b or 99) < 7 and pr in (6, 7): continue
                            if io[0] is not None and io[0] < 8 and pr == 6 and not th: continue
                            k += 1
                            o = {kk: v for kk, v in (("H", H), ("R", Rr), ("b", b), ("S", S), ("I", io[0]), ("O", io[1])) if v is not None}
                            if not accepted(o) and k % 3: continue
                            yield ("opts", (o, pr, k % 16))
    for pr in range(8):
        for st in range(16):
            for H in ("blake2", "md4"):
                for Rr in ("rabinkarp", "rollsum"):
                    yield ("opts", (dict(H=H, R=Rr, b=[64, 500, 2048][st % 3]), pr, st))
    for H, Rr in (("sha1", None), ("", None), ("MD4", None), ("blake2b", None), ("md", None), (None, "rolling"), (None, ""), (None, "rabin"), ("md4", "x")):
        yield ("opts", ({k2: v for k2, v in (("H", H), ("R", Rr)) if v is not None}, 0, 0))

# ------------------------------------------------------------------ C13: usage errors
def gen_usage(th):
    for a in ([], [""] * 0 + ["--nosuch"], ["-q"], ["frob"], ["signaturex", "old"], ["Signature", "old"], ["x", "old", "o1"], ["deltas", "sig", "new"], ["patches", "old", "delta"],
              ["sig", "old", "o1", "extra"], ["sig", "old", "o1", "extra", "more"], ["delta"], ["delta", "sig", "new", "o1", "extra"], ["patch"], ["patch", "old", "delta", "o1", "extra"],
              ["-b"], ["-b", "x", "sig", "old", "o1"], ["-b", "10x", "sig", "old", "o1"], ["--block-size=", "sig", "old", "o1"][1:] + ["extra2"], ["-b", "99999999999999999999", "sig", "old", "o1"], ["-b", "4294967297", "sig", "old", "o1"],
              ["-S", "zz", "sig", "old", "o1"], ["-S", "4294967304", "sig", "old", "o1"], ["-S", "-3", "sig", "old", "o1"], ["-b", "-1", "sig", "old", "o1"], ["-b", "-2147483648", "sig", "old", "o1"], ["-S", "64", "sig", "old", "o1"], ["-S", "2147483647", "sig", "old", "o1"],
              ["-I", "q", "sig", "old", "o1"], ["-O", "99999999999", "sig", "old", "o1"], ["-z", "delta", "sig", "new", "o1"], ["-i", "delta", "sig", "new", "o1"], ["--gzip", "sig", "old", "o1"], ["--bzip2", "patch", "old", "delta", "o1"],
              ["-H", "nope", "sig", "old", "o1"], ["-R", "nope", "sig", "old", "o1"], ["-H"], ["--hash"], ["--force=1x", "sig", "old", "o1"], ["sig", "nofile", "o1"], ["delta", "nofile", "new", "o1"], ["delta", "sig", "nofile", "o1"],
              ["patch", "nofile", "delta", "o1"], ["patch", "old", "nofile", "o1"], ["sig", "old", "nodir/o1"], ["delta", "sig", "new", "nodir/o1"], ["patch", "old", "delta", "nodir/o1"], ["sig", "old/x", "o1"], ["sig", "dir", "o1"], ["delta", "dir", "new", "o1"], ["delta", "sig", "dir", "o1"], ["patch", "old", "dir", "o1"], ["patch", "dir", "delta", "o1"],
              ["-f", "sig", "old", "dir"], ["-f", "delta", "sig", "new", "dir"], ["-f", "patch", "old", "delta", "dir"], ["sig", "dir"], ["delta", "sig", "dir"], ["patch", "dir", "delta"]):
        for pre in ([], ["-s"], ["-v"]):
            yield ("usage", (pre + a,))
    for a in (["--help"], ["-?"], ["-h"], ["-V"], ["--version"]):
        yield ("help", (a,))
def c_usage(a):
    put("old", OLD); put("new", NEW); put("sig", mcref.signature(0x72730147, 64, 32, OLD)); put("delta", b"rs\x026\x45\x05\x64\x41\x03abc\0"); os.mkdir(os.path.join(W.dir, "dir"))
    failed(rdiff(a), "the command line %r is wrong or names unusable files" % (a,))
    return "usage error"
def c_help(a):
    r = rdiff(a); succeeded(r, "help or version")
    if not r.out.strip(): raise Bad("%r printed nothing" % (a,))
    with open("/dev/full", "wb") as f: r2 = rdiff(a, stdout=f)
    failed(r2, "the output of %r could not be written" % (a,))
    return "help"

# ------------------------------------------------------------------ commands with known inputs, used by the fault enumeration
def setup(cmd, size):
    old, new = (OLD, NEW) if size == 0 else (BIGOLD, BIGNEW) if size == 1 else (fill(60000, 6), fill(200000, 7) + fill(60000, 6)[100:50000])
    put("old", old); put("new", new)
    bl = 64 if size == 0 else 512
    sig = mcref.signature(0x72730147, bl, 16, old); put("sig", sig)
    # a delta of our own making: copies of both ends plus literals, in several encodings
    d = bytearray(b"rs\x026"); i = 0; out = []
    def lit(x):
        d.extend(bytes([len(x)]) + x if len(x) <= 64 else b"\x42" + len(x).to_bytes(2, "big") + x if len(x) < 65536 else b"\x43" + len(x).to_bytes(4, "big") + x); out.append(x)
    def cp(p, n): d.extend(b"\x4a" + p.to_bytes(2, "big") + n.to_bytes(2, "big")); out.append(old[p:p + n])
    cp(0, len(old) // 3); lit(fill(50, 11)); cp(len(old) // 2, len(old) - len(old) // 2); lit(fill(len(old) // 2, 12)); cp(1, 7)
    if size == 2: lit(fill(150000, 13))
    d.append(0)
    put("delta", bytes(d))
    return old, new, dict(sig=sig, delta=bytes(d), patched=b"".join(out), bl=bl)
CMDS = {"sig": (["-b", "64", "-S", "16"], "sig", ["old"]), "delta": ([], "delta", ["sig", "new"]), "patch": ([], "patch", ["old", "delta"])}
def cmdline(cmd, bl, extra=()): return (["-b", str(bl), "-S", "16"] if cmd == "sig" else []) + list(extra) + [cmd] + CMDS[cmd][2]
def complete(cmd, data, ctx, old, new):
    if cmd == "sig": return data == ctx["sig"]
    if cmd == "patch": return data == ctx["patched"]
    out, reason, _ = mcref.execute(data, old)
    return reason is None and out == new
def normal(cmd, size, extra):
    old, new, ctx = setup(cmd, size)
    r = rdiff(cmdline(cmd, ctx["bl"], extra) + ["ref"]); succeeded(r, "plain %s" % cmd)
    ref = get("ref"); os.unlink(os.path.join(W.dir, "ref"))
    if not complete(cmd, ref, ctx, old, new): raise Bad("plain %s gives wrong output" % cmd)
    return old, new, ctx, ref
BUFS = [[], ["-I", "100", "-O", "100"], ["-O", "1"], ["-O", "5000", "-s"]]
def c_wlimit(cmd, size, bufs, dest, lo, hi):
    """File size limit at every byte position lo..hi of the output."""
    old, new, ctx, ref = normal(cmd, size, BUFS[bufs])
    n = 0
    pts = range(lo, min(hi, len(ref) + 2)) if size == 0 else sorted({p for b in (0, 1, 100, 511, 512, 4095, 4096, 4097, 5000, 8192, 12288, len(ref) - 4097, len(ref) - 1, len(ref), len(ref) + 1) for p in (b, b + 1) if 0 <= p <= len(ref) + 2})[lo:hi]
    for lim in pts:
        for f in ("o1", "o2"):
            p = os.path.join(W.dir, f)
            if os.path.exists(p): os.unlink(p)
        if dest == "file": r = rdiff(cmdline(cmd, ctx["bl"], BUFS[bufs]) + ["o1"], fsize=lim)
        elif dest == "force":
            put("o1", b"z" * (lim // 2)); r = rdiff(["-f"] + cmdline(cmd, ctx["bl"], BUFS[bufs]) + ["o1"], fsize=lim)
        else:
            with open(os.path.join(W.dir, "o1"), "wb") as f: r = rdiff(cmdline(cmd, ctx["bl"], BUFS[bufs]), stdout=f, fsize=lim)
        got = get("o1") if os.path.exists(os.path.join(W.dir, "o1")) else b""
        if r.rc == 0:
            if not complete(cmd, got, ctx, old, new): raise Bad("output limited to %d bytes: %d bytes written, incomplete, but exit status is 0 (%s)" % (lim, len(got), r))
        else: failed(r, "output limited to %d bytes" % lim)
        if lim > len(ref): succeeded(r, "nothing failed")
        n += 1
    return "size limits"
def c_full(cmd, size, bufs, dest):
    old, new, ctx, ref = normal(cmd, size, BUFS[bufs])
    a = cmdline(cmd, ctx["bl"], BUFS[bufs])
    if dest == "file": r = rdiff(["-f"] + a + ["/dev/full"])
    elif dest == "stdout":
        with open("/dev/full", "wb") as f: r = rdiff(a, stdout=f)
    elif dest == "closed": r = rdiff(a, stdout=subprocess.DEVNULL, close_out=True)
    elif dest in ("pipe", "pipe-sig"):
        rd, wr = os.pipe(); os.close(rd); r = rdiff(a, stdout=wr, sigpipe=dest == "pipe-sig"); os.close(wr)
    elif dest == "null":
        r = rdiff(["-f"] + a + ["/dev/null"]); succeeded(r, "writing to the null device"); return "null"
    failed(r, "nothing could be written (%s)" % dest)
    return "full"
def c_bigpipe(cmd, k, sigpipe):
    old, new, ctx, ref = normal(cmd, 2, [])
    rd, wr = os.pipe(); f = os.fdopen(rd, "rb", 0)
    pid = os.fork()
    if pid == 0:
        try:
            os.close(wr); left = k
            while left > 0:
                b = os.read(rd, min(left, 65536))
                if not b: break
                left -= len(b)
        finally: os._exit(0)
    f.close()
    r = rdiff(cmdline(cmd, ctx["bl"]), stdout=wr, sigpipe=sigpipe); os.close(wr); os.waitpid(pid, 0)
    if k + 70000 < len(ref): failed(r, "reader closed the pipe after %d of %d bytes" % (k, len(ref)))
    return "pipe closed"
def c_rreset(cmd, which, bufs, size, lo, hi):
    """Input arrives on a socket that is reset after n bytes."""
    old, new, ctx, ref = normal(cmd, size, BUFS[bufs])
    ins = CMDS[cmd][2]; data = get(ins[which]); names = list(ins); names[which] = "-"
    pts = range(lo, min(hi, len(data) + 1)) if size == 0 else sorted({p for b in (0, 1, 12, 100, 4095, 4096, 8192, len(data) - 1, len(data)) for p in (b, b + 1) if p <= len(data)})[lo:hi]
    for n in pts:
        a, b = socket.socketpair()
        a.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, 1 << 20)
        b.send(b"x"); a.sendall(data[:n]); a.close()
        if os.path.exists(os.path.join(W.dir, "o1")): os.unlink(os.path.join(W.dir, "o1"))
        r = rdiff((["-b", str(ctx["bl"]), "-S", "16"] if cmd == "sig" else []) + BUFS[bufs] + [cmd] + names + ["o1"], stdin=b); b.close()
        if r.rc == 0:
            # only a command that never needed the failing read may succeed
            if not complete(cmd, get("o1"), ctx, old, new): raise Bad("reading %s failed after %d of %d bytes but exit status is 0 with wrong output (%s)" % (ins[which], n, len(data), r))
            if n < len(data) or cmd != "patch": raise Bad("reading %s failed after %d of %d bytes but exit status is 0 (%s)" % (ins[which], n, len(data), r))
        else: failed(r, "reading %s failed after %d bytes" % (ins[which], n))
    return "read errors"
def c_fds(cmd, what):
    """Closed or unusable standard input."""
    old, new, ctx, ref = normal(cmd, 0, [])
    ins = CMDS[cmd][2]; names = list(ins); names[-1] = "-"
    d = os.open(W.dir, os.O_RDONLY) if what == "dir" else os.open(os.path.join(W.dir, "old"), os.O_WRONLY) if what == "wronly" else os.open("/proc/self/mem", os.O_RDONLY)
    r = rdiff(cmdline(cmd, ctx["bl"])[:-len(names)] + names + ["o1"], stdin=d); os.close(d)
    failed(r, "standard input (%s) cannot be read" % what)
    return "unreadable stdin"
# ------------------------------------------------------------------ C13: damaged inputs
def c_cut(kind, lo, hi, mut):
    old, new, ctx, ref = normal("delta" if kind == "sig" else "patch", 0, [])
    src = ctx["sig"] if kind == "sig" else ctx["delta"]
    vals = [None] if mut == "cut" else range(256) if mut == "all" else [0, 1, 0x40, 0x41, 0x44, 0x45, 0x54, 0x55, 0x7f, 0x80, 0xff]
    for n in range(lo, min(hi, len(src))):
        for v in vals:
            if v is None: data = src[:n]
            else:
                if src[n] == v: continue
                if kind == "sig" and n == 4 and v not in (0, 0x80, 0xff): continue        # block lengths over 16 MiB only cost memory
                data = src[:n] + bytes([v]) + src[n + 1:]
            put("in", data)
            if os.path.exists(os.path.join(W.dir, "o1")): os.unlink(os.path.join(W.dir, "o1"))
            why = "%s %s" % (kind, "cut to %d bytes" % n if v is None else "with byte %d changed to %#x" % (n, v))
            if kind == "sig":
                r = rdiff(["delta", "in", "new", "o1"]); bad = mcref.sig_ok(data)
                if bad: failed(r, why + " is invalid (%s)" % bad)
                else:
                    succeeded(r, why + " is still a valid signature")
                    out, reason, _ = mcref.execute(get("o1"), old)
                    if reason and reason != "copy" or out is not None and out != new and not (v is not None and n < 12): raise Bad("%s: delta made from it is %s" % (why, reason or "wrong"))
            else:
                r = rdiff(["patch", "old", "in", "o1"]); out, reason, _ = mcref.execute(data, old)
                if out is None: failed(r, why + " is malformed (%s)" % reason)
                elif reason: 
                    if r.rc == 0 and get("o1") != out: raise Bad(why + ": wrong output")
                else:
                    succeeded(r, why + " is still well-formed")
                    if get("o1") != out: raise Bad(why + ": wrong output")
    return "damaged " + kind
# ------------------------------------------------------------------ C13: system call faults
SYS = [("write", "ENOSPC"), ("write", "EIO"), ("close", "EIO"), ("close", "ENOSPC"), ("read", "EIO"), ("lseek", "EINVAL"), ("lseek", "EIO"), ("openat", "EMFILE"), ("openat", "EACCES"), ("fstat,newfstatat", "EIO"), ("mmap", "ENOMEM"), ("brk", "ENOMEM")]
def c_sys(cmd, size, bufs, dest, sc, err, lo, hi):
    if not W.strace: return "no strace"
    old, new, ctx, ref = normal(cmd, size, BUFS[bufs])
    for k in range(lo, hi):
        if os.path.exists(os.path.join(W.dir, "o1")): os.unlink(os.path.join(W.dir, "o1"))
        log = os.path.join(W.dir, "strace.log")
        pre = ["strace", "-o", log, "-e", "trace=" + sc, "-e", "inject=%s:error=%s:when=%d" % (sc, err, k)]
        a = cmdline(cmd, ctx["bl"], BUFS[bufs])
        if dest == "file": r = rdiff(a + ["o1"], pre=pre)
        else:
            with open(os.path.join(W.dir, "o1"), "wb") as f: r = rdiff(a, stdout=f, pre=pre)
        got = get("o1") if os.path.exists(os.path.join(W.dir, "o1")) else b""
        lg = open(log, errors="replace").read() if os.path.exists(log) else ""
        hit = "(INJECTED)" in lg
        if r.rc == 0:
            if not complete(cmd, got, ctx, old, new): raise Bad("%s call %d failing with %s: exit status 0 but the output is not complete (%s)" % (sc, k, err, r))
        elif not hit: raise Bad("no fault happened but it failed (%s)" % r)
        elif sc in ("mmap", "brk"): pass        # memory exhaustion, also inside the program loader: only success is judged
        elif r.rc < 0 and r.rc not in OKSIG: raise Bad("%s call %d failing with %s: killed by signal %d" % (sc, k, err, -r.rc))
        elif not r.err.strip() and not (sc == "write" and "write(2," in lg): raise Bad("%s call %d failing with %s: failed without a message (%s)" % (sc, k, err, r))
        if not hit: break
    return "system call faults"

def gen_faults(th):
    for cmd in CMDS:
        for b in range(len(BUFS)):
            for dest in ("file", "stdout", "force"):
                for lo in range(0, 1200, 60):
                    if th or (lo // 60 + b) % 2 == 0 or b == 0: yield ("wlimit", (cmd, 0, b, dest, lo, lo + 60))
                if b != 2:
                    for lo in range(0, 30, 6): yield ("wlimit", (cmd, 1, b, dest, lo, lo + 6))
            for size in (0, 1):
                for dest in ("file", "stdout", "closed", "pipe", "pipe-sig", "null"): yield ("full", (cmd, size, b, dest))
            for which in range(len(CMDS[cmd][2])):
                if cmd == "patch" and which == 0: continue
                for lo in range(0, 900, 60):
                    if th or b == 0 or (lo // 60 + b) % 3 == 0: yield ("rreset", (cmd, which, b, 0, lo, lo + 60))
                for lo in range(0, 20, 5): yield ("rreset", (cmd, which, b, 1, lo, lo + 5))
        for what in ("dir", "wronly", "mem"): yield ("fds", (cmd, what))
    for cmd in ("delta", "patch"):
        for k in (0, 1, 100, 4096, 65536, 70000, 100000):
            for s in (False, True): yield ("bigpipe", (cmd, k, s))
def gen_damage(th):
    for kind, n in (("sig", 220), ("delta", 420)):
        for lo in range(0, n, 20): yield ("cut", (kind, lo, lo + 20, "cut"))
        for lo in range(0, n, 4):
            if lo < 24 or th: yield ("cut", (kind, lo, lo + 4, "all"))
            elif kind == "delta" or lo < 60: yield ("cut", (kind, lo, lo + 4, "some"))
def gen_sys(th):
    for cmd in CMDS:
        for size in (0, 1):
            for b in ((0, 1) if not th else (0, 1, 3)):
                for dest in ("file", "stdout"):
                    for sc, err in SYS:
                        if size == 1 and sc in ("openat", "fstat,newfstatat", "mmap", "brk") and not th: continue
                        if sc == "lseek" and cmd != "patch": continue
                        for lo in range(1, 60 if b != 1 or th else 40, 6): yield ("sys", (cmd, size, b, dest, sc, err, lo, lo + 6))

# ------------------------------------------------------------------ C14
def snap(top=None):
    s = {}; top = top or W.dir
    for r, ds, fs in os.walk(top):
        for n in ds + fs:
            p = os.path.join(r, n); st = os.lstat(p)
            k = os.path.relpath(p, top)
            s[k] = (stat.S_IFMT(st.st_mode), stat.S_IMODE(st.st_mode), st.st_ino, st.st_mtime_ns if not stat.S_ISDIR(st.st_mode) else 0, st.st_size if not stat.S_ISDIR(st.st_mode) else 0,
                    os.readlink(p) if stat.S_ISLNK(st.st_mode) else open(p, "rb").read() if stat.S_ISREG(st.st_mode) else b"", st.st_uid)
    return s
def differ(a, b, allowed=()):
    out = []
    for k in sorted(set(a) | set(b)):
        if k in allowed: continue
        if k not in a: out.append("%s was created" % k)
        elif k not in b: out.append("%s was removed" % k)
        elif a[k] != b[k]: out.append("%s was changed" % k)
    return out
OUTSTATES = ["absent", "empty", "short", "equal", "long", "mode0", "mode0200", "mode0444", "mode0", "symlink", "symlink0", "dir", "emptydir", "hardlink", "same0", "same1", "parent0", "parentro", "nodir", "filedir", "fifo", "devnull", "devfull", "socket", "linkloop"]
def special_close():
    if getattr(W, "fifo", None) is not None: os.close(W.fifo); W.fifo = None
def fifo_data():
    """What is in the pipe (both ends of which we hold open)."""
    try: return os.read(W.fifo, 1 << 20)
    except BlockingIOError: return b""
def make_out(st, res, ins):
    """Creates the output path in state st; returns (path, names that are the output)."""
    o = "out"
    if st == "absent": return o, [o]
    if st == "empty": put(o, b"")
    elif st == "short": put(o, b"precious")
    elif st == "equal": put(o, res)
    elif st == "long": put(o, b"L" * (len(res) * 2 + 5000))
    elif st.startswith("mode"): put(o, b"P" * 3000, int(st[4:], 8))
    elif st == "symlink": put("target", b"T" * 2000); os.symlink("target", os.path.join(W.dir, o)); return o, [o, "target"]
    elif st == "symlink0": put("target", b"T" * 2000, 0); os.symlink("target", os.path.join(W.dir, o)); return o, [o, "target"]
    elif st == "dir": os.mkdir(os.path.join(W.dir, o)); put("out/f", b"in a directory")
    elif st == "emptydir": os.mkdir(os.path.join(W.dir, o))
    elif st == "hardlink": put(o, b"H" * 1000); os.link(os.path.join(W.dir, o), os.path.join(W.dir, "other")); return o, [o, "other"]
    elif st == "same0": return ins[0], [ins[0]]
    elif st == "same1": return ins[-1], [ins[-1]]
    elif st == "parent0": os.mkdir(os.path.join(W.dir, "d")); put("d/out", b"D" * 500); return "d/out", ["d/out"]
    elif st == "parentro": os.mkdir(os.path.join(W.dir, "d")); put("d/out", b"D" * 500); return "d/out", ["d/out"]
    elif st == "nodir": return "nodir/out", []
    elif st == "filedir": return "old/out", []
    elif st == "fifo": special_close(); os.mkfifo(os.path.join(W.dir, o)); W.fifo = os.open(os.path.join(W.dir, o), os.O_RDWR | os.O_NONBLOCK)
    elif st == "devnull": os.symlink("/dev/null", os.path.join(W.dir, o))
    elif st == "devfull": os.symlink("/dev/full", os.path.join(W.dir, o))
    elif st == "linkloop": os.symlink(o, os.path.join(W.dir, o))
    elif st == "socket":
        k = socket.socket(socket.AF_UNIX); c = os.open(".", os.O_RDONLY)
        try: os.chdir(W.dir); k.bind(o)
        finally: os.fchdir(c); os.close(c); k.close()
    return o, [o]
SPECIAL = ("fifo", "devnull", "devfull", "socket", "linkloop")
def special(st, force, r, what, ok):
    """An existing path that is not a regular file; ok(data) says if data is the complete output."""
    data = fifo_data() if st == "fifo" else b""
    if st == "fifo": special_close()
    if not force:
        failed(r, what + ": the output exists")
        if data: raise Bad(what + ": not forced, but %d bytes were written into the existing pipe" % len(data))
        return "refused"
    if st in ("devfull", "socket", "linkloop"): failed(r, what + ": output cannot be written")
    else:
        succeeded(r, what)
        if st == "fifo" and not ok(data): raise Bad(what + ": exit status 0 but %d bytes in the pipe are not the output" % len(data))
    return "special"
def c_paths(cmd, st, force, user, size, instate, style):
    old, new, ctx, ref = normal(cmd, size, [])
    ins = list(CMDS[cmd][2]); extra = BUFS[style]
    # damage to an input: (index, kind)
    broken = None
    if instate:
        i, kind = instate; broken = kind; p = os.path.join(W.dir, ins[i])
        if kind == "missing": os.unlink(p)
        elif kind == "mode0": os.chmod(p, 0)
        elif kind == "dangling": os.rename(p, p + ".x"); os.symlink("nowhere", p)
        elif kind == "nodir": ins[i] = "nodir/" + ins[i]
        elif kind == "readonly": os.chmod(p, 0o444); broken = None
    o, outs = make_out(st, ref, ins)
    existed = os.path.lexists(os.path.join(W.dir, o))
    if user is not None:
        for r, ds, fs in os.walk(W.dir):
            for n in ds + fs: os.chown(os.path.join(r, n), user, user, follow_symlinks=False)
        os.chown(W.dir, user, user)
    before = snap()
    if st == "parent0": os.chmod(os.path.join(W.dir, "d"), 0)
    if st == "parentro": os.chmod(os.path.join(W.dir, "d"), 0o555)
    r = rdiff((["-f"] if force else []) + cmdline(cmd, ctx["bl"], extra)[:-len(ins)] + ins + [o], user=user)
    if st.startswith("parent"): os.chmod(os.path.join(W.dir, "d"), 0o755)
    os.chown(W.dir, 0, 0)
    after = snap()
    for k in list(before):      # chmod above is ours
        if k == "d": before.pop(k); after.pop(k, None)
    what = "%s to %s output (force=%d, user=%s, input %s)" % (cmd, st, force, user, instate)
    # a file that could not be opened is "missing or unreadable"
    unreadable = broken and not (broken == "mode0" and user is None)
    if st in SPECIAL:
        d = differ(before, after, [o] if force else [])
        if d: raise Bad(what + ": " + "; ".join(d))
        if unreadable:
            failed(r, what + ": an input cannot be read")
            if st == "fifo" and fifo_data(): raise Bad(what + ": an input cannot be read, but the output was written to")
            special_close(); return "bad input"
        return special(st, force, r, what, lambda x: complete(cmd, x, ctx, old, new))
    if existed and not force:
        failed(r, what + ": the output exists")
        d = differ(before, after)
        if d: raise Bad(what + ": not forced, but %s" % "; ".join(d))
        return "refused"
    if unreadable:
        failed(r, what + ": an input cannot be read")
        d = differ(before, after)
        if d: raise Bad(what + ": input cannot be read, but %s" % "; ".join(d))
        return "bad input"
    if (st == "same0" or st == "same1") and force:      # the user named an input as the output
        d = differ(before, after, outs)
        if d: raise Bad(what + ": " + "; ".join(d))
        return "same"
    d = differ(before, after, outs)
    if d: raise Bad(what + ": %s" % "; ".join(d))
    if r.rc == 0:
        got = get(o)
        if not complete(cmd, got, ctx, old, new): raise Bad(what + ": exit status 0 but the output is not exactly the new output (%d bytes, expected %d)" % (len(got), len(ref)))
    else: failed(r, what)
    if st in ("dir", "emptydir", "nodir", "filedir"): failed(r, what + ": output cannot be opened")
    elif user is None or st in ("absent", "empty", "short", "equal", "long", "symlink", "hardlink", "mode0200"): succeeded(r, what)
    if r.rc != 0 and existed:
        d = differ(before, after)
        if d and st not in ("dir", "emptydir"): raise Bad(what + ": could not be replaced, but %s" % "; ".join(d))
    return "replaced" if existed else "created"
def c_open(mode, st, force, user):
    put("old", OLD)
    res = "text written by the helper"
    o, outs = make_out(st, res.encode(), ["old"])
    existed = os.path.lexists(os.path.join(W.dir, o))
    if user is not None:
        for r, ds, fs in os.walk(W.dir):
            for n in ds + fs: os.chown(os.path.join(r, n), user, user, follow_symlinks=False)
        os.chown(W.dir, user, user)
    before = snap()
    r = rdiff([o, mode, force, res], user=user, prog=W.openx)
    os.chown(W.dir, 0, 0)
    after = snap(); what = "rs_file_open(%s, %s, %d) as %s" % (st, mode, force, user)
    if st in SPECIAL:
        if mode[0] == "r": special_close(); return "read"
        d = differ(before, after, [o] if force else [])
        if d: raise Bad(what + ": " + "; ".join(d))
        if mode[1:].find("+") >= 0 and force: special_close(); return "special"
        return special(st, force, r, what, lambda x: x == res.encode())
    if mode[0] == "r":
        d = differ(before, after)
        if d: raise Bad(what + ": " + "; ".join(d))
        if not existed or st in ("nodir", "filedir"): failed(r, what)
        return "read"
    if existed and not force:
        failed(r, what + ": the path exists"); d = differ(before, after)
        if d: raise Bad(what + ": not forced, but %s" % "; ".join(d))
        return "refused"
    d = differ(before, after, outs)
    if d: raise Bad(what + ": " + "; ".join(d))
    if r.rc == 0:
        if get(o) != res.encode(): raise Bad(what + ": content is not exactly what was written")
    elif existed and differ(before, after): raise Bad(what + ": failed, but " + "; ".join(differ(before, after)))
    if user is None and st not in ("dir", "emptydir", "nodir", "filedir") and r.rc: raise Bad(what + ": failed (%s)" % r)
    return "open"
def c_stdio(cmd, force):
    """Standard output redirected over an existing file is the caller's doing; nothing else may change."""
    old, new, ctx, ref = normal(cmd, 0, [])
    before = snap()
    r = rdiff((["-f"] if force else []) + cmdline(cmd, ctx["bl"]) + ["-"]); succeeded(r, cmd)
    if not complete(cmd, r.out, ctx, old, new): raise Bad("%s to standard output is wrong" % cmd)
    d = differ(before, snap())
    if d: raise Bad("%s to standard output: %s" % (cmd, "; ".join(d)))
    return "stdout"
def gen_paths(th, can_user):
    states = list(dict.fromkeys(OUTSTATES))
    for cmd in CMDS:
        for st in states:
            for force in (0, 1):
                for user in ((None, NOBODY) if can_user else (None,)):
                    for size in (0, 1):
                        for style in (range(4) if th else (0, 1)):
                            yield ("paths", (cmd, st, force, user, size, None, style))
                        for i in range(len(CMDS[cmd][2])):
                            for kind in ("missing", "mode0", "dangling", "nodir", "readonly"):
                                if st.startswith("same") : continue
                                if size and not th: continue
                                yield ("paths", (cmd, st, force, user, size, (i, kind), 0))
        for force in (0, 1): yield ("stdio", (cmd, force))
    for mode in ("rb", "r", "wb", "w", "w+b", "wb+"):
        for st in states:
            if st.startswith("parent") or (st in SPECIAL and mode[0] == "r"): continue
            for force in (0, 1, 2, -1):
                for user in ((None, NOBODY) if can_user else (None,)): yield ("open", (mode, st, force, user))

# ------------------------------------------------------------------ C12: buffer size options; C18: --statistics
def c_bufs(cmd, size, I, O, io):
    old, new, ctx, ref = normal(cmd, size, [])
    b = (["-I", str(I)] if I is not None else []) + (["--output-size=%d" % O] if O is not None else []); a = cmdline(cmd, ctx["bl"], b); last = a[-1]
    if io == 0: r = rdiff(a + ["o1"])
    elif io == 1: r = rdiff(a[:-1], stdin=get(last))
    else:
        with open(os.path.join(W.dir, last), "rb") as f: r = rdiff(a[:-1] + ["-", "o1"], stdin=f)
    succeeded(r, "%s with buffers %s" % (cmd, b)); out = r.out if io == 1 else get("o1")
    if out != ref: raise Bad("%s with %s gives different output (%d bytes) than without (%d bytes)" % (cmd, " ".join(b), len(out), len(ref)))
    return "%s same" % cmd
def gen_bufs(th):
    v = [None, 1, 2, 3, 5, 7, 12, 13, 16, 20, 31, 64, 65, 100, 255, 256, 511, 512, 513, 1000, 1024, 4095, 4096, 4097, 16384, 65535, 65536, 65537, 100000, 1 << 20]
    w = v if th else [None, 1, 2, 3, 7, 13, 20, 64, 100, 513, 4096, 65536, 65537, 100000]
    for cmd in CMDS:
        for k, I in enumerate(v):
            for j, O in enumerate(w):
                for size in (0, 1, 2):
                    if size == 2 and min(I or 999, O or 999) < 100 and not th: continue
                    for io in (range(3) if th else ((k + j) % 3,)): yield ("bufs", (cmd, size, I, O, io))
STAT = dict(lit=rb"literal\[(\d+) cmds, (\d+) bytes, (\d+) cmdbytes\]", copy=rb"copy\[(\d+) cmds, (\d+) bytes, (\d+) cmdbytes, ", sig=rb"signature\[(\d+) blocks, (\d+) bytes per block\]")
def c_stats(cmd, size, I, O, opt):
    old, new, ctx, ref = normal(cmd, size, [])
    b = (["-I", str(I)] if I else []) + (["-O", str(O)] if O else [])
    r = rdiff(cmdline(cmd, ctx["bl"], b + [opt]) + ["o1"]); succeeded(r, cmd + " with statistics"); out = get("o1")
    if out != ref: raise Bad("%s %s changes the output" % (cmd, opt))
    d = ctx["delta"] if cmd == "patch" else out; lines = [l for l in r.err.splitlines() if re.search(rb"(signature|loadsig|delta|patch) statistics: ", l)]
    def has(line, kind, want):
        m = re.search(STAT[kind], line); got = tuple(map(int, m.groups())) if m else None
        if got != want and (got or any(want)): raise Bad("%s %s reports %s %s, real numbers are %s (%r)" % (cmd, opt, kind, got, want, line))
    if len(lines) != (2 if cmd == "delta" else 1): raise Bad("%s %s: %d statistics lines" % (cmd, opt, len(lines)))
    if cmd != "patch": has(lines[0], "sig", (-(-len(old) // ctx["bl"]), ctx["bl"]))
    if cmd != "sig":
        l, c = mcref.counts(d)
        has(lines[-1], "lit", l); has(lines[-1], "copy", c)
    return cmd + " statistics"
def gen_stats(th):
    for cmd in CMDS:
        for size in (0, 1, 2):
            for I in (None, 1, 7, 100, 5000, 65536, 100000):
                for O in (None, 1, 7, 100, 5000, 65536, 100000):
                    if size == 2 and min(I or 999, O or 999) < 100 and not th: continue
                    for opt in ("-s", "--statistics", "--stats"):
                        if th or opt == ["-s", "--statistics", "--stats"][((I or 0) + (O or 0)) % 3]: yield ("stats", (cmd, size, I, O, opt))

# ------------------------------------------------------------------ C25: memory of the program does not grow with the files
MB = 1 << 20
def c_mem(cmd, bl, I, O, shape, io):
    """48 MB of data under an address space limit of 20 MB and what the block length and the buffers need."""
    n = 48 * MB; rnd = random.Random(5); old = rnd.randbytes(2 * MB); w = W.dir
    if shape == 0: new = rnd.randbytes(n)
    elif shape == 1: new = old * (n // len(old))
    else:
        k = bl // 2 + 100; new = b"".join(old[i * bl:(i + 1) * bl] + rnd.randbytes(k) for i in range(len(old) // bl)); new = new * (n // len(new) + 1)
    b = (["-I", str(I)] if I else []) + (["-O", str(O)] if O else []); want = None
    lim = 20 * MB + 16 * (bl + 65536) + 6 * (I or 0) + 2 * (O or 0)
    if cmd == "sig": put("in", new); a = ["-b", str(bl), "-S", "8", "sig", "in"]
    elif cmd == "delta": put("sig", mcref.signature(0x72730147, bl, 8, old)) if bl > 20000 else rdiff_sig(bl, old); put("in", new); a = ["delta", "sig", "in"]
    else:
        d = bytearray(b"rs\x026")
        for i in range(0, n, 60000): x = new[i:i + 60000]; d += b"\x42" + len(x).to_bytes(2, "big") + x + b"\x4a\x00\x10\x13\x88"
        d.append(0); put("in", bytes(d)); put("old", old); a = ["patch", "old", "in"]
    if io == 0: r = rdiff(b + a + ["o1"], vmem=lim)
    else:
        with open(os.path.join(w, "in"), "rb") as f: p = subprocess.Popen(["cat"], stdin=f, stdout=subprocess.PIPE)
        r = rdiff(b + a[:-1] + ["-", "o1"], stdin=p.stdout, vmem=lim); p.stdout.close(); p.wait()
    succeeded(r, "%s of %d bytes with %d bytes of address space" % (cmd, n, lim))
    z = os.path.getsize(os.path.join(w, "o1"))
    if cmd == "patch" and z < n or cmd == "sig" and z != 12 + 12 * -(-len(new) // bl): raise Bad("output of %d bytes" % z)
    return cmd + " in bounded memory"
def rdiff_sig(bl, old):
    put("old", old); succeeded(rdiff(["-b", bl, "-S", "8", "sig", "old", "sig"]), "signature"); os.unlink(os.path.join(W.dir, "old"))
def gen_mem(th):
    for bl in (512, 65536, 300000):
        for cmd in CMDS:
            if cmd == "patch" and bl != 512: continue
            for I, O in ((0, 0), (0, 1000), (65537, 1000), (bl + 65535, 1000), (bl + 65535, 70000), (1000, 0), (1000000, 100)):
                for shape in ((0, 1, 2) if cmd == "delta" else (0,)):
                    for io in (0, 1):
                        if th or cmd != "delta" or (shape == 0 or bl + 65535 == I) and (io == 0 or I == 0): yield ("mem", (cmd, bl, I, O, shape, io))

FN = dict(mem=c_mem, bufs=c_bufs, stats=c_stats, opts=c_opts, usage=c_usage, help=c_help, wlimit=c_wlimit, full=c_full, bigpipe=c_bigpipe, rreset=c_rreset, fds=c_fds, cut=c_cut, sys=c_sys, paths=c_paths, open=c_open, stdio=c_stdio)
def cases(mode, th, can_user):
    if mode == "C13": gens = [gen_usage(th), gen_faults(th), gen_damage(th), gen_opts(th)]
    elif mode == "C12": gens = [gen_bufs(th)]
    elif mode == "C25": gens = [gen_mem(th)]
    elif mode == "C18": gens = [gen_stats(th)]
    elif mode == "C13-sys": gens = [gen_sys(th)]
    else: gens = [gen_paths(th, can_user)]
    out = []
    for g in gens: out += list(g)
    return out
def worker(args):
    i, c, rd, ox, base, st = args
    W.rdiff, W.openx, W.strace = rd, ox, st
    W.dir = os.path.join(base, "w%d" % os.getpid()); os.makedirs(W.dir, exist_ok=True); os.chmod(W.dir, 0o755); clean()
    n0 = W.spawns
    try: kind = FN[c[0]](*c[1]); v = None
    except Bad as e: kind = "bad"; v = str(e)
    except FileNotFoundError as e:
        if os.path.exists(W.rdiff): kind = "bad"; v = "output missing: %s" % e
        else: raise
    finally: clean()
    return i, kind, v, W.spawns - n0
def can_setuid():
    try:
        p = subprocess.run(["/bin/true"], user=NOBODY, group=NOBODY, extra_groups=[]); return p.returncode == 0
    except Exception: return False
def can_strace(base):
    try:
        r = subprocess.run(["strace", "-o", os.path.join(base, "s"), "-e", "trace=write", "-e", "inject=write:error=ENOSPC:when=1", "/bin/echo", "x"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=20)
        return r.returncode != 0 and "INJECTED" in open(os.path.join(base, "s")).read()
    except Exception: return False
def run_all(ctx):
    t0 = time.time(); th = ctx["tier"] == "thorough"; mode = ctx["part"]["mode"]
    base = tempfile.mkdtemp(prefix="rd-", dir=ctx["scratch"])
    for d in (ctx["scratch"], base): os.chmod(d, 0o755)
    rd = os.path.join(base, "rdiff"); shutil.copy(os.path.join(ctx["builddir"], "rdiff"), rd); os.chmod(rd, 0o755)
    ox = ctx["builder"].harness("openx", ctx["part"]["flavour"]); os.chmod(ox, 0o755)
    cu = can_setuid(); st = mode == "C13-sys" and can_strace(base)
    cs = cases(mode, th, cu); todo = [(i, c, rd, ox, base, st) for i, c in enumerate(cs)]
    if ctx["only"] is not None: todo = [todo[ctx["only"]]]
    res = dict(cases=0, total_cases=len(cs), evaluations=0, distinct=0, states=0, transitions=0, truncated=0, stopped=0, wall=0, samples=[], violations=[], infra=0, stderr="")
    if mode == "C13-sys" and not st: res.update(samples=["strace cannot inject faults here: part skipped"], cases=0, stopped=1); return res
    kinds = {}; old = signal.getsignal(signal.SIGINT)
    pool = mp.get_context("fork").Pool(min(8, os.cpu_count() or 8))
    try:
        for i, kind, v, n in pool.imap_unordered(worker, todo, chunksize=1 if len(todo) < 2000 else 4):
            res["cases"] += 1; res["evaluations"] += n; kinds[kind] = kinds.get(kind, 0) + 1
            if kind not in ("no strace",): res["distinct"] += 1
            if len(res["samples"]) < 4 and kinds[kind] == 1: res["samples"].append("case %d: %s%r -> %s" % (i, cs[i][0], cs[i][1], kind))
            if v:
                res["violations"].append(dict(case=i, msg=v, desc="%s%r" % cs[i])); break
            if time.time() - t0 > ctx["limit"]: res["stopped"] = 1; break
    finally:
        pool.terminate(); pool.join()
    res["samples"].append("outcomes: " + json.dumps(kinds))
    if not cu: res["samples"].append("could not switch to an unprivileged user: permission states only as root")
    res["wall"] = time.time() - t0
    return res
run = run_all
