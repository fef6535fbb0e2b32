import itertools
import math
import ctypes
import numpy as np
from scipy import stats
from vlib.lib import Lib
from vlib import model as M

PROP = "C23"
TECHNIQUE = "property-based testing: generated streams, ntuples and widths against reference statistics computed from the drawn bits and deviates"
NOTE = ("Oracle: gap-free n-bit patterns, 64 per sample, one binomial histogram per pattern and the pattern drawn by the generator itself (bit distribution); "
        "ranks of disjoint k-tuples of distinct words (permutations); every (lag+1)-th deviate (lagged sums); the deviates themselves through the library's KS "
        "functions, which C01 decides (KS self test). Ties between the words of one permutation are not generated: their order is not specified.")
RULE = ("case = (test, ntuple, stream kind, width, samples, runs). Non-trivial: a reference p-value in (1e-9, 1-1e-9). Classes by test and ntuple.")
CASES = dict(quick=3500, thorough=20000)
TIMEOUT = 120
U = np.uint64


def setup(ctx):
    ctx.lib = Lib(ctx.b()["lib"])


def gen(R, i, tier):
    t = R.choice([200, 200, 202, 203, 203, 204])
    c = {"t": t, "s": R.getrandbits(30), "width": R.choice([32, 32, 32, 31, 30, 24, 16]), "ps": R.choice([1, 1, 2, 3]),
         "f": R.choice([0.001, 0.01, 0.05]), "k": R.choice(["rand", "rand", "mod"]), "kst": 0, "unit": False}
    if t == 200:
        c["n"] = R.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12])
        c["width"] = R.choice([32, 32, 31, 30, 29, 27, 24, 23, 17, 16, 13])
        c["ts"] = R.choice([30, 100, 400, 1000, 3000]) if c["n"] < 9 else R.choice([1000, 2000])
        if R.random() < (.04 if tier == "quick" else .1):
            c["n"], c["ts"] = R.choice([13, 14]), R.choice([1000, 8000]) if tier != "quick" else R.choice([500, 1000])
            c["width"] = R.choice([32, 31, 24])
    elif t == 202:
        c["n"] = R.choice([0, 1, 2, 2, 3, 3, 4, 4, 5, 6, 7, 8 if tier != "quick" and R.random() < .03 else 6])
        np_ = math.factorial(c["n"] if c["n"] > 1 else 5)
        c["ts"] = R.choice([5 * np_, 6 * np_ + 1, 20 * np_, 100 * np_]) if np_ < 1000 else R.choice([5 * np_, 6 * np_])
        c["width"] = R.choice([32, 32, 31, 24])
    elif t == 203:
        c["n"] = R.choice([0, 0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 31, 32, 33, 63, 64, 100, R.randint(0, 300)])
        c["ts"] = R.choice([1, 2, 10, 100, 1000, 1000, 10000, R.randint(1, 3000)])
        c["unit"] = R.random() < .15
    else:
        c["n"] = 0
        c["ts"] = R.choice([1, 2, 10, 50, 200, 1000, 1000, 5000, 6000, R.randint(1, 3000)])
        c["kst"] = R.choice([0, 0, 0, 3])
        if c["kst"] == 3:
            c["ts"] = max(10, c["ts"])
        c["unit"] = R.random() < .15
        c["k"] = R.choice(["rand", "mod", "zeros"])
    c["pre"] = M.gen_pre(R, c["t"])
    return c


def words(c):
    rs = np.random.RandomState(c["s"])
    t, w, ts, ps, n = c["t"], c["width"], c["ts"], c["ps"], c["n"]
    if t == 200:
        nb = 64 * n * ts * ps
        m = nb // w + ps * 3 + 8
        v = rs.randint(0, 2**32, m, dtype=np.uint64) >> U(32 - w)
        if c["k"] == "mod":
            sel = rs.rand(m) < c["f"]
            v[sel] = v[rs.randint(0, m)]
        if c["s"] & 4:
            v = v[:max(3, m - rs.randint(0, m // 4 + 1))]
        return v
    if t == 202:
        k = n if n > 1 else 5
        g = ts * ps
        v = rs.randint(0, 2**32, (g, k), dtype=np.uint64) >> U(32 - w)
        if c["k"] == "mod":         # one ordering preferred
            order = rs.permutation(k)
            sel = np.nonzero(rs.rand(g) < c["f"] * .5)[0]
            v[sel] = np.sort(v[sel], 1)[:, order]
        if c["s"] & 8:              # neighbours differing in the last unit
            sel = np.nonzero(rs.rand(g) < .2)[0]
            v[sel] = rs.randint(0, 2**min(w - 1, 30), (len(sel), 1), dtype=np.uint64) + np.argsort(rs.rand(len(sel), k), 1).astype(U)
        bad = np.array([j for j in range(g) if len(set(v[j].tolist())) < k], int) if w < 31 or g < 3000 else \
            np.nonzero((np.diff(np.sort(v, 1), axis=1) == 0).any(1))[0]
        for j in bad:
            v[j] = rs.choice(1 << 15, k, replace=False)
        return v.ravel()
    if t == 203:
        m = ts * ps * (n + 1)
        v = rs.randint(0, 2**32, m, dtype=np.uint64) >> U(32 - w)
        if c["k"] == "mod":
            j = np.arange(n if c["s"] & 1 else rs.randint(0, n + 1), m, n + 1)     # used or skipped outputs shifted
            d = U(int(c["f"] * 2**w))
            v[j] = np.minimum(v[j] + d, U(2**w - 1))
        return v
    m = ts * ps + 50
    v = rs.randint(0, 2**32, m, dtype=np.uint64) >> U(32 - w)
    if c["k"] == "mod":
        v = (v.astype(float) / 2**w) ** (1 + rs.randn() * .1 / math.sqrt(1 + ts / 100.))
        v = np.clip(v * 2**w, 1, 2**w - 1).astype(U)
    if c["k"] == "zeros":
        v[rs.randint(0, m, rs.randint(1, 20))] = 0
        v[rs.randint(0, m)] = U(2**w - 1)
        v[0] = 0 if c["s"] & 1 else v[0]
    return v


def bitdist(S, n, ts):
    v = S.chunks(n, 64 * ts).reshape(ts, 64).astype(np.int64)
    size = 1 << n
    rng = (1 << S.width) - 1
    scale = rng // size
    while True:
        ri = S.get() // scale
        if ri < size:
            break
    cnt = (v == ri).sum(1)
    x = np.bincount(cnt, minlength=65).astype(float)
    y = ts * stats.binom.pmf(np.arange(65), 64, 1.0 / size)
    return x, y


def run(c, ctx):
    L = ctx.lib
    t, ts, ps, w, n = c["t"], c["ts"], c["ps"], c["width"], c["n"]
    ws = words(c)
    M.do_pre(L, c.get("pre"))
    L.use(ws, w)
    scale = 1.0 / (1 << w)
    if c["unit"] and w == 32:
        L.l.vf_set_unit_scale()
        scale = 1.0 / 4294967295.0
    if t == 204:
        L.glob("ks_test", ctypes.c_int).value = c["kst"]
    r = L.run_test(t, ts, ps, n, 1)
    S = M.Stream(ws, w)
    want = []
    nt = n
    tol = 1e-10
    for p in range(ps):
        if t == 200:
            x, y = bitdist(S, n, ts)
            big = y >= 20.0
            if abs(y - 20.0).min() < 1e-6 or abs(y[~big].sum() - 20) < 1e-6 or not big.any():
                return None, None
            k = int(big.sum())
            tail = y[~big].sum() >= 20.0
            if k + tail < 2:
                want.append(r["pv"][0, p])          # a single cell: no statistic
                continue
            want.append(M.pearson(x, y, 20.0))
            tol = 1e-9
        elif t == 202:
            k = n if n > 1 else 5
            nt = k
            v = S.take(k * ts).reshape(ts, k).astype(np.int64)
            o = np.argsort(v, 1, kind="stable")
            code = np.zeros(ts, np.int64)
            for q in range(k):
                code = code * k + o[:, q]
            _, cnt = np.unique(code, return_counts=True)
            f = math.factorial(k)
            x = np.zeros(f)
            x[:len(cnt)] = cnt
            want.append(M.pearson(x, np.full(f, ts / float(f)), 5.0))
        elif t == 203:
            v = S.take(ts * (n + 1)).reshape(ts, n + 1)[:, n].astype(float) * scale
            want.append(M.normal_p(float(v.sum()), ts * .5, math.sqrt(ts / 12.0)))
            tol = 1e-9
        else:
            v = []
            while len(v) < ts:
                x = S.get()
                if x:
                    v.append(x * scale)
            a = np.array(v)
            want.append((L.l.kstest_kuiper if c["kst"] >= 3 else L.l.kstest)(a.ctypes.data, ts))
            nt = None
    want = np.array(want)
    f = M.compare(r["pv"], want, "test %d, ntuple %d, %d samples of %d bits" % (t, n, ts, w), tol=tol)
    if not f and r["consumed"] != S.pos:
        f = "test %d drew %d generator outputs, its samples take %d" % (t, r["consumed"], S.pos)
    if not f and nt is not None and int(r["ntuple"][0]) != nt:
        f = "test %d reports ntuple %d instead of %d" % (t, r["ntuple"][0], nt)
    return f, "%d-n%d" % (t, n if n < 13 else 99) if ((want > 1e-9) & (want < 1 - 1e-9)).any() else None


def shrink(c):
    if c.get("pre"):
        yield dict(c, pre=[])
        yield dict(c, pre=c["pre"][:1])
    for k, v in (("ps", 1), ("width", 32), ("k", "rand"), ("unit", False)):
        if c[k] != v:
            yield dict(c, **{k: v})
    if c["t"] in (203, 204) and c["ts"] > 1:
        yield dict(c, ts=c["ts"] // 2)
    if c["t"] == 203 and c["n"] > 0:
        yield dict(c, n=c["n"] // 2)
        yield dict(c, n=c["n"] - 1)
