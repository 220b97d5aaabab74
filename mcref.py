"""Independent Python references: MD4, weak sums, signature builder, delta interpreter."""
import hashlib, struct
MAGICS = {("md4", "rollsum"): 0x72730136, ("blake2", "rollsum"): 0x72730137, ("md4", "rabinkarp"): 0x72730146, ("blake2", "rabinkarp"): 0x72730147}
MAXS = {0x72730136: 16, 0x72730137: 32, 0x72730146: 16, 0x72730147: 32}
M32 = 0xffffffff
def md4(m):
    a0, b0, c0, d0 = 0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476
    n = len(m); m = m + b"\x80" + b"\0" * ((55 - n) % 64) + struct.pack("<Q", n * 8)
    rol = lambda x, s: ((x << s) | ((x & M32) >> (32 - s))) & M32
    for o in range(0, len(m), 64):
        X = struct.unpack("<16I", m[o:o + 64]); a, b, c, d = a0, b0, c0, d0
        for i in range(16):
            a = rol((a + ((b & c) | (~b & d)) + X[i]) & M32, (3, 7, 11, 19)[i & 3]); a, b, c, d = d, a, b, c
        for i in range(16):
            a = rol((a + ((b & c) | (b & d) | (c & d)) + X[(i >> 2) + 4 * (i & 3)] + 0x5a827999) & M32, (3, 5, 9, 13)[i & 3]); a, b, c, d = d, a, b, c
        for i in range(16):
            a = rol((a + (b ^ c ^ d) + X[(0, 8, 4, 12, 2, 10, 6, 14, 1, 9, 5, 13, 3, 11, 7, 15)[i]] + 0x6ed9eba1) & M32, (3, 9, 11, 15)[i & 3]); a, b, c, d = d, a, b, c
        a0, b0, c0, d0 = (a0 + a) & M32, (b0 + b) & M32, (c0 + c) & M32, (d0 + d) & M32
    return struct.pack("<4I", a0, b0, c0, d0)
assert md4(b"abc").hex() == "a448017aaf21d8525fc10ae87aa6729d"
def weak(magic, m):
    if magic & 0x40 == 0:
        s1 = s2 = 0
        for c in m: s1 += c + 31; s2 += s1
        return ((s2 & 0xffff) << 16) | (s1 & 0xffff)
    h = 1
    for c in m: h = (h * 0x08104225 + c) & M32
    return h
def strong(magic, m): return md4(m) if magic & 0xf == 6 else hashlib.blake2b(m, digest_size=32).digest()
_c = {}
def sums(magic, bl, data):
    k = (magic, bl, data)
    if k not in _c:
        if len(_c) > 4000: _c.clear()
        _c[k] = [(struct.pack(">I", weak(magic, data[i:i + bl])), strong(magic, data[i:i + bl])) for i in range(0, len(data), bl)]
    return _c[k]
def signature(magic, bl, sl, data):
    return struct.pack(">III", magic, bl, sl) + b"".join(w + s[:sl] for w, s in sums(magic, bl, data))
def sig_ok(s):
    """None if loadable, else why not."""
    if len(s) < 12: return "short header"
    mg, bl, sl = struct.unpack(">III", s[:12])
    if mg not in MAXS: return "magic"
    if bl < 1 or bl > 0x7fffffff: return "block length"
    if sl < 1 or sl > MAXS[mg]: return "strong length"
    if (len(s) - 12) % (4 + sl): return "cut entry"
    return None
def execute(d, old):
    """Interprets a delta: (output or None, reason or None, copies); output with a reason: complete but followed by more data."""
    if len(d) < 4 or d[:4] != b"rs\x026": return None, "magic", []
    i, out, cps = 4, [], []
    while True:
        if i >= len(d): return None, "no end command", cps
        c = d[i]; i += 1
        if c == 0: break
        if c <= 0x40: n = c
        elif c <= 0x44:
            w = 1 << (c - 0x41)
            if i + w > len(d): return None, "cut", cps
            n = int.from_bytes(d[i:i + w], "big"); i += w
        elif c <= 0x54:
            w1, w2 = 1 << ((c - 0x45) >> 2), 1 << ((c - 0x45) & 3)
            if i + w1 + w2 > len(d): return None, "cut", cps
            p = int.from_bytes(d[i:i + w1], "big"); i += w1; n = int.from_bytes(d[i:i + w2], "big"); i += w2
            if n == 0 or p + n > len(old): return None, "copy", cps
            out.append(old[p:p + n]); cps.append((p, n)); continue
        else: return None, "reserved", cps
        if n == 0: return None, "zero literal", cps
        if n > len(d) - i: return None, "cut literal", cps
        out.append(d[i:i + n]); i += n
    return b"".join(out), ("data after end" if i != len(d) else None), cps
def counts(d):
    """(commands, bytes, command bytes) of the literals and of the copies of a well-formed delta."""
    i, l, c = 4, [0, 0, 0], [0, 0, 0]
    while d[i]:
        k = d[i]; a = i; i += 1
        if k <= 0x40: n = k
        elif k <= 0x44: w = 1 << (k - 0x41); n = int.from_bytes(d[i:i + w], "big"); i += w
        else: w1, w2 = 1 << ((k - 0x45) >> 2), 1 << ((k - 0x45) & 3); n = int.from_bytes(d[i + w1:i + w1 + w2], "big"); i += w1 + w2
        x = l if k <= 0x44 else c; x[0] += 1; x[1] += n; x[2] += i - a
        if k <= 0x44: i += n
    return tuple(l), tuple(c)
