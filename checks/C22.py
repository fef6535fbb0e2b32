import math
import os
import numpy as np
from vlib.lib import Lib
from vlib import model as M
from vlib import streams
from vlib.cli import dh

PROP = "C22"
TECHNIQUE = "property-based testing: generated bit streams of every bias, period and width against bit-level reference statistics"
NOTE = ("Oracle: the whole bit sequence is laid out in numpy; ones, cyclic runs and overlapping cyclic pattern counts for m = 1..16 are counted on it and "
        "put into the SP800-22 formulas. Streams carry small controlled biases (so that the p-values stay informative), planted patterns at word and "
        "half-word boundaries, one-word and odd lengths, and generators of 8 to 32 bits.")
RULE = ("case = (test, stream kind, width, samples, runs). Non-trivial: a reference p-value in (1e-9, 1-1e-9). Classes by test and stream kind.")
CASES = dict(quick=4000, thorough=20000)
TIMEOUT = 420
U = np.uint64
KINDS = ["rand", "rand", "tilt", "edge", "edge", "half", "mark", "short", "deg"]


def setup(ctx):
    ctx.lib = Lib(ctx.b()["lib"])


def gen(R, i, tier):
    t = R.choice([100, 101, 102, 102])
    k = R.choice(KINDS)
    c = {"t": t, "k": k, "s": R.getrandbits(30), "width": R.choice([32, 32, 32, 31, 31, 30, 29, 28, 27, 25, 24, 23, 17, 16, 15, 9, 8]),
         "ps": R.choice([1, 1, 2, 3]), "f": R.choice([0.001, 0.003, 0.01, 0.05]),
         "ts": R.choice([1, 2, 3, 5, 10, 33, 100, 257, 1000, 1000, 3000, 10000, R.randint(1, 5000)])}
    if t == 102:
        c["ts"] = R.choice([8, 40, 100, 333, 1000, 2048, 2049, 4000, R.randint(8, 6000)])
        if tier != "quick" and R.random() < .05:
            c["ts"] = 100000
    elif R.random() < .05:
        c["ts"] = 100000
    if i in (3, 5) or tier != "quick" and i in (7, 11):
        # more bits than 32-bit (for runs, where this takes a minute: signed 32-bit) counts hold: through the program on a rewinding file
        big = R.choice([2**27 - 1, 2**27, 2**27 + 1, 2**27 + R.randint(2, 10**6), 2**27 + 2**26])
        return {"t": 100 if i != 11 else 101, "k": "huge", "s": c["s"], "ts": big if i != 11 else 2**26 + R.randint(0, 10**5), "z": R.choice([-1.5, -.5, .3, 1, 2])}
    if k == "deg":
        c["st"] = streams.gen(R, n=R.choice([100, 1000]))
    c["pre"] = M.gen_pre(R, c["t"])
    return c


def words(c):
    rs = np.random.RandomState(c["s"])
    w, n = c["width"], c["ts"] * c["ps"]
    if c["t"] == 102:
        n = -(-32 * n // w)
    n += rs.randint(0, 5)
    k = c["k"]
    if k == "deg":
        return streams.make(c["st"], w).astype(U)
    v = rs.randint(0, 2**32, n, dtype=np.uint64) >> U(32 - w)
    if k == "short" and n > 2:
        v = v[:rs.randint(max(1, n // 3), n)]       # cyclic stream shorter than the test
        n = len(v)
    sel = rs.rand(n) < c["f"]
    if k == "tilt":                                 # a few words with all or no bits
        v[sel] = U(2**w - 1) if c["s"] & 1 else U(0)
    elif k == "edge":                               # first/last bit of each word depends on its neighbour
        a = v[sel]
        nb = np.roll(v, -1)[sel]
        if c["s"] & 2:
            v[sel] = (a & ~U(1)) | ((nb >> U(w - 1)) & U(1)) ^ U(c["s"] & 1)
        else:
            v[sel] = (a & U(2**(w - 1) - 1)) | ((((np.roll(v, 1)[sel]) & U(1)) ^ U(c["s"] & 1)) << U(w - 1))
    elif k == "half":
        h = w // 2
        v[sel] = (v[sel] & ~U(1 << h)) | (((v[sel] >> U(h - 1)) & U(1)) ^ U(c["s"] & 1)) << U(h)
    elif k == "mark":                               # a planted pattern at a random place
        p = U(rs.randint(0, 2**min(w, 16)))
        v[sel] = p << U(rs.randint(0, max(1, w - 15)))
        v &= U(2**w - 1)
    return v


def serial(bits):
    n = len(bits)
    ext = np.concatenate([bits, bits[:16]]).astype(np.int64)
    if n < 16:
        ext = np.tile(bits, 20)[:n + 16].astype(np.int64)
    psi = [0.0]
    val = np.zeros(n, np.int64)
    f1 = None
    for m in range(1, 17):
        val = val * 2 + ext[m - 1:m - 1 + n]
        fr = np.bincount(val, minlength=2**m).astype(float)
        if m == 1:
            f1 = fr
        psi.append(float((fr * fr).sum()) * 2.0**m / n - n)
    out = [M.normal_p(0.0, 2 * f1[0] - n, math.sqrt(n))]
    nt = [1]
    for m in range(2, 17):
        d1 = psi[m] - psi[m - 1]
        d2 = psi[m] - 2 * psi[m - 1] + psi[m - 2]
        out.append(M.chi2_q(max(d1, 0.0), 2.0**(m - 1)))
        nt.append(m)
        if m > 2:
            out.append(M.chi2_q(max(d2, 0.0), 2.0**(m - 2)))
            nt.append(m)
    return out, nt


def huge(c, ctx):
    rs = np.random.RandomState(c["s"])
    ts, n = c["ts"], 1 << 16
    v = rs.randint(0, 2**32, n, dtype=np.uint64).astype(np.uint32)
    # balance the file, so that what all the rewinds add up to stays informative
    want = 16 * n + int(round(c["z"] * math.sqrt(32.0 * ts) / 2 / (ts / n)))
    bits = np.unpackbits(v.view(np.uint8))
    d = want - int(bits.sum())
    idx = np.nonzero(bits == (0 if d > 0 else 1))[0]
    bits[idx[:abs(d)]] ^= 1
    v = np.packbits(bits).view(np.uint32)
    path = os.path.join(ctx.scratch, "huge%d.bin" % os.getpid())
    v.tofile(path)
    r = dh(ctx, ["-d", c["t"], "-g", 201, "-f", path, "-t", ts, "-p", 1, "-k", 1, "-D", "pvalues"], timeout=380)
    os.unlink(path)
    if r.timeout:
        return None, None
    try:
        got = float(r.out.split()[-1])
    except (ValueError, IndexError):
        return "test %d with %d samples printed %r" % (c["t"], ts, (r.out + r.err)[-200:]), "x"
    q, m = divmod(ts, n)
    b = np.unpackbits(v.astype(">u4").view(np.uint8))          # most significant first
    h = b[:32 * m]
    ones = q * int(b.sum()) + int(h.sum())
    nb = 32 * ts
    if c["t"] == 100:
        e = M.normal_p(2.0 * ones - nb, 0.0, math.sqrt(nb))
    else:
        x = q * int((b[1:] != b[:-1]).sum()) + (q - 1) * int(b[0] != b[-1])
        last = b[-1]
        if m:
            x += int(h[0] != b[-1]) + int((h[1:] != h[:-1]).sum())
            last = h[-1]
        x += int(last != b[0])
        o = ones / nb
        e = M.normal_p(x, 2.0 * nb * o * (1 - o), 2.0 * math.sqrt(nb) * o * (1 - o))
    if abs(got - e) > 2e-8:
        return "test %d with %d samples (%d bits) returned p = %.8f, expected %.8f" % (c["t"], ts, nb, got, e), "x"
    return None, "huge-%d" % c["t"]


def run(c, ctx):
    if c["k"] == "huge":
        return huge(c, ctx)
    L = ctx.lib
    t, ts, ps, w = c["t"], c["ts"], c["ps"], c["width"]
    ws = words(c)
    M.do_pre(L, c.get("pre"))
    L.use(ws, w)
    r = L.run_test(t, ts, ps, 0, 1)
    S = M.Stream(ws, w)
    want = []
    nt = [{100: 1, 101: 2}.get(t)]
    tol, rel = 1e-11, 1e-6
    for p in range(ps):
        if t == 100:
            b = S.bits_msb(S.take(ts))
            want.append([M.normal_p(2.0 * b.sum(dtype=np.int64) - len(b), 0.0, math.sqrt(len(b)))])
        elif t == 101:
            # the words form one number, the first drawn being the most significant
            b = S.bits_msb(S.take(ts)).astype(np.int64)
            n = len(b)
            x = int((b != np.roll(b, 1)).sum())
            o = b.sum() / n
            sig = 2.0 * math.sqrt(n) * o * (1 - o)
            want.append([M.normal_p(x, 2.0 * n * o * (1 - o), sig) if sig > 0 else 0.0])
        else:
            o, nt = serial(S.chunk_bits(32, ts))
            want.append(o)
            tol = 1e-8
    want = np.array(want).T
    f = M.compare(r["pv"], want, "test %d, %d samples of %d bits" % (t, ts, w), tol=tol, rel=rel)
    if not f and r["consumed"] != S.pos:
        f = "test %d drew %d generator outputs, its samples take %d" % (t, r["consumed"], S.pos)
    if not f and [int(x) for x in r["ntuple"]] != nt:
        f = "test %d reports ntuples %s instead of %s" % (t, list(r["ntuple"]), nt)
    return f, "%d-%s" % (t, c["k"]) if ((want > 1e-9) & (want < 1 - 1e-9)).any() else None


def shrink(c):
    if c["k"] == "huge":
        return
    if c.get("pre"):
        yield dict(c, pre=[])
        yield dict(c, pre=c["pre"][:1])
    for k, v in (("ps", 1), ("width", 32), ("k", "rand")):
        if c[k] != v:
            yield dict(c, **{k: v})
    for v in (c["ts"] // 2, c["ts"] - 1):
        if v >= (8 if c["t"] == 102 else 1):
            yield dict(c, ts=v)
