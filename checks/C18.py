import numpy as np
from vlib.lib import Lib
from vlib import model as M

PROP = "C18"
TECHNIQUE = "property-based testing: generated full-length streams against a reference missing-word count"
NOTE = ("Oracle: an independent set-based count of missing words over the words read from the stream (20-bit windows sliding one bit; "
        "2x10, 4x5, 10x2 and 2x12/24 bit letters) and the normal significance with the published mean and sigma. "
        "Streams include orderings in which every word occurs once, so that a single lost, duplicated or altered word moves the p-value.")
RULE = ("case = (test, stream kind and seed, generator width, samples, runs). Non-trivial: the reference p-value lies in (1e-12, 1-1e-12), i.e. "
        "a change of one word is visible. Classes by test and stream kind.")
CASES = dict(quick=260, thorough=6000)
TIMEOUT = 200
N20 = 1 << 20
TARGET = {4: (141909.0, 428.0), 5: (141909.3299550069, 290.4622634038), 6: (141909.6005321316, 294.6558723658),
          7: (141910.4026047629, 337.2901506904), 211: (307285.393182468, 528.341514924662)}
KINDS = ["rand", "distinct", "distinct", "holes", "plant", "repeat"]


def setup(ctx):
    ctx.lib = Lib(ctx.b()["lib"])


def gen(R, i, tier):
    big = i % 130 == 7 if tier == "quick" else i % 40 == 7
    t = 211 if big else R.choice([4, 4, 5, 5, 6, 6, 7])
    c = {"t": t, "k": R.choice(KINDS), "s": R.getrandbits(30), "width": 32, "ps": R.choice([1, 1, 1, 2]),
         "j": R.randint(0, 1400), "f": R.choice([.001, .01, .1, .5]), "full": R.random() < .5}
    if R.random() < .3:
        c["width"] = R.choice([31, 30, 24, 28, 20, 16, 12])
        c["k"] = R.choice(["rand", "plant", "repeat"])
    if t == 211:
        c["ps"] = 1
        if i % 260 == 137:
            c["width"], c["k"] = 24, "rand"
        if c["width"] < 24:
            c["k"] = "rand"
    c["pre"] = M.gen_pre(R, c["t"])
    return c


def base(c, n, rs, width):
    w = rs.randint(0, 2**32, n, dtype=np.uint64)
    if c["k"] == "plant":       # a fraction of the words replaced by a few values
        v = rs.randint(0, 2**32, 7, dtype=np.uint64)
        sel = rs.rand(n) < c["f"] * .05
        w[sel] = v[rs.randint(0, 7, int(sel.sum()))]
    elif c["k"] == "repeat":    # blocks of the stream repeated
        m = max(64, int(n * c["f"] * .05))
        a = rs.randint(0, n - m, 3)
        b = rs.randint(0, n - m, 3)
        for x, y in zip(a, b):
            w[y:y + m] = w[x:x + m].copy()
    if c["t"] == 7 and c["s"] % 3 == 0:         # constant blocks: their words occur 256 times
        k = 11 + 10 * rs.randint(1, 5000)
        for v, m in ((0, 80), (0xffffffff, 80), (0x55555555, 160)):
            w[k:k + m] = v
            k += m
    if width < 32:
        w = w >> np.uint64(32 - width) if c["s"] & 1 else w & np.uint64((1 << width) - 1)
    return w


def lfsr20(n, start):
    """bits of the m-sequence x^20+x^3+1: every nonzero 20-bit window once per period"""
    b = np.zeros(n + 32, np.uint8)
    b[:20] = [(start >> k) & 1 for k in range(20)]
    if not b[:20].any():
        b[0] = 1
    k = 20                                  # s[k] = s[k-20] ^ s[k-17], vectorised in blocks of 17
    while k < n:
        e = min(k + 17, n)
        b[k:e] = b[k - 20:e - 20] ^ b[k - 17:e - 17]
        k = e
    return b[:n]


def pack32(bits):
    n = len(bits) // 32
    return (bits[:n * 32].reshape(n, 32).astype(np.uint64) << np.arange(31, -1, -1, dtype=np.uint64)).sum(1, dtype=np.uint64)


def build(c):
    """word stream and number of samples; target number of missing words is near the mean for every kind"""
    rs = np.random.RandomState(c["s"])
    t, wd = c["t"], c["width"]
    if t == 211:
        n = 1 << 26
        if c["k"] == "rand" or wd < 32:
            return base(dict(c, k="rand"), n, rs, wd), n
        w = rs.randint(0, 2**32, n, dtype=np.uint64)
        if c["k"] in ("plant", "repeat", "distinct"):
            m = int(n * c["f"] * .001) + 100
            w[rs.randint(0, n - m):][:m] = w[:m].copy()
        else:
            w[:3000] = w[3000:6000].copy()
        return w, n
    ts = 1 << 21
    if c["k"] not in ("distinct", "holes"):
        n = {4: 262146, 5: ts, 6: 4 * (ts // 6 + 1), 7: 11 + 10 * ts // 32}[t]
        n = int(n * 32 / wd) + 64 if t == 4 else n
        extra = 1000 if c["ps"] == 1 else n
        return base(c, n + extra, rs, wd), ts
    mean = TARGET[t][0]
    dist = N20 - int(mean) - 700 + c["j"]        # number of distinct words to show
    wrap = c["s"] % 3 == 0                       # one word seen a multiple of 256 times
    if wrap and c["k"] == "distinct" and t != 4:
        dist += (ts - dist + 1) % 256
    if t == 4:
        if c["k"] == "distinct" and not c["full"]:
            bits = lfsr20(32 * 262146 // 8 + 64, c["s"] & 0xfffff | 1)[:32 * 262146 // 8]
            bits = np.concatenate([bits, np.zeros(32 * 262146 - len(bits), np.uint8)])
            return pack32(bits), dist                # every window different
        # prefix of the m-sequence, then zeros up to the full number of samples
        def full(d):
            bits = lfsr20(d + 8, c["s"] & 0xfffff | 1)
            z = np.zeros(32 * 262146, np.uint8)
            if c["k"] == "distinct":
                z[:len(bits)] = bits
            else:
                z[-len(bits) - 36:-36] = bits    # at the very end of the windows that are read
            return z
        z = full(dist)
        for _ in range(3 if wrap else 0):
            o = np.concatenate([[0], np.cumsum(z[8:8 + ts + 19])])
            dist += int((o[20:] == o[:-20]).sum()) % 256
            z = full(dist)
        return pack32(z), ts
    words = rs.permutation(N20)[:dist].astype(np.uint64)
    if c["k"] == "distinct" and not c["full"]:
        seq, ns = words, dist                    # every word exactly once
    else:
        extra = words[rs.randint(0, dist, ts - dist)] if c["k"] == "holes" else np.full(ts - dist, words[0], np.uint64)
        seq, ns = np.concatenate([words, extra]) if c["s"] & 2 else np.concatenate([extra, words]), ts
    return encode(t, seq, ns, rs), ns


def encode(t, seq, ns, rs):
    """a 32-bit word stream whose ns words are seq (the inverse of words_of)"""
    u = np.uint64
    if t == 5:
        if ns % 2:
            seq = np.append(seq, u(0))
        a, b = seq[0::2], seq[1::2]
        hi = lambda m: rs.randint(0, 4096, m).astype(u) << u(20)
        j = (a >> u(10)) | (b >> u(10)) << u(10) | hi(len(a))
        k = (a & u(1023)) | (b & u(1023)) << u(10) | hi(len(a))
        return np.stack([j, k], 1).ravel()
    if t == 6:
        seq = np.concatenate([seq, np.zeros(-ns % 6, u)]).reshape(-1, 6)
        out = []
        for d in (15, 10, 5, 0):
            w = rs.randint(0, 4, len(seq)).astype(u) << u(30)
            for p in range(6):
                w |= ((seq[:, p] >> u(d)) & u(31)) << u(5 * p)
            out.append(w)
        return np.stack(out, 1).ravel()
    if t == 7:      # overlapping letters inside a word cannot be chosen freely: 16 disjoint words per block of 32
        return None


def words_of(t, S, ns):
    """the documented words of the stream, as integers"""
    u = np.uint64
    W = S.width
    if t == 4:
        bits = S.chunk_bits(32, 262146)
        b = bits[8:8 + ns + 19].astype(u)
        v = np.zeros(ns, u)
        for k in range(20):
            v = v << u(1) | b[k:k + ns]
        return v
    if t == 5:
        p = S.take(2 * ((ns + 1) // 2)).reshape(-1, 2)
        a = (p[:, 0] & u(1023)) << u(10) | p[:, 1] & u(1023)
        b = (p[:, 0] >> u(10) & u(1023)) << u(10) | p[:, 1] >> u(10) & u(1023)
        return np.stack([a, b], 1).ravel()[:ns]
    if t == 6:
        p = S.take(4 * ((ns + 5) // 6)).reshape(-1, 4)
        cols = []
        for s in range(0, 30, 5):
            l = (p >> u(s)) & u(31)
            cols.append(((l[:, 0] * u(32) + l[:, 1]) * u(32) + l[:, 2]) * u(32) + l[:, 3])
        return np.stack(cols, 1).ravel()[:ns]
    if t == 7:
        S.take(11)
        p = S.take(10 * ((ns + 31) // 32)).reshape(-1, 10)
        cols = []
        for s in range(32):
            l = M.window(p, 2, s % W, W)
            v = np.zeros(len(p), u)
            for k in range(10):
                v = v * u(4) + l[:, k]
            cols.append(v)
        return np.stack(cols, 1).ravel()[:ns]


def missing(v, n):
    seen = np.zeros(n, bool)
    seen[v.astype(np.int64)] = True
    return n - int(seen.sum())


def run(c, ctx):
    L = ctx.lib
    t = c["t"]
    if t == 7 and c["k"] in ("distinct", "holes"):
        c = dict(c, k="plant")
    words, ns = build(c)
    M.do_pre(L, c.get("pre"))
    L.use(words, c["width"])
    r = L.run_test(t, ns, c["ps"], 0, 1)
    y, sg = TARGET[t]
    u = np.uint64
    S = M.Stream(words, c["width"])
    if t == 211:
        if c["width"] < 24:
            want, used = [[.5], [.5]], 0
        else:
            p = S.take(1 << 26)
            x1 = missing(p & u(0xffffff), 1 << 24)
            p = p.reshape(-1, 2)
            seen = np.zeros(1 << 24, bool)
            for s in (0, 12):
                seen[((p[:, 0] >> u(s) & u(4095)) << u(12) | p[:, 1] >> u(s) & u(4095)).astype(np.int64)] = True
            x2 = (1 << 24) - int(seen.sum())
            want, used = [[M.normal_p(x1, y, sg)], [M.normal_p(x2, y, sg)]], S.pos
    else:
        want = [[M.normal_p(missing(words_of(t, S, ns), N20), y, sg) for _ in range(c["ps"])]]
        used = S.pos
    f = M.compare(r["pv"], want, "test %d, %d samples" % (t, ns))
    if not f and r["consumed"] != used:
        f = "test %d drew %d generator outputs, the documented sampling uses %d" % (t, r["consumed"], used)
    w = np.ravel(want)
    return f, ("%d-%s" % (t, c["k"])) if ((w > 1e-12) & (w < 1 - 1e-12)).any() else None


def shrink(c):
    if c.get("pre"):
        yield dict(c, pre=[])
        yield dict(c, pre=c["pre"][:1])
    for k, v in (("ps", 1), ("width", 32), ("k", "rand")):
        if c[k] != v:
            yield dict(c, **{k: v})
