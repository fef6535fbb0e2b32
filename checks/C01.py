import math
import numpy as np
from scipy.special import kolmogorov
from scipy.stats import kstwo
from scipy.stats._ksstats import _kolmogn_DMTW
from vlib.lib import Lib, source_ints
from vlib import build as vb

PROP = "C01"
TECHNIQUE = "property-based testing: generated p-value lists against an independent KS distribution, plus order metamorphism"
NOTE = ("Compared with scipy's exact two-sided KS distribution; tolerance is the documented accuracy of each KS mode. "
        "Trusts scipy.")
RULE = ("case = (KS mode, p-value list built from a shape recipe); every list is evaluated in 3 orders. Non-trivial: n>=2 and "
        "the reference p-value is strictly between 1e-12 and 1-1e-12 (class 'mid'), or an exact boundary list (ties, 0/1, n=1).")
CASES = dict(quick=8000, thorough=120000)
TIMEOUT = 120


def setup(ctx):
    ctx.lib = Lib(ctx.b()["lib"])
    global DICT
    DICT = source_ints(vb.REPO, ["libdieharder/kstest.c", "libdieharder/std_test.c"], 1, 30000)


DICT = []
SHAPES = ["uniform", "perfect", "jitter", "beta", "ties", "const", "onedev", "edges", "half", "gapmid", "target"]


def gen(R, i, tier):
    mode = R.choice([0, 0, 0, 0, 1, 2, 3])
    u = R.random()
    if u < 0.08:
        n = 1
    elif u < 0.45:
        n = R.randint(2, 20)
    elif u < 0.70:
        n = R.randint(21, 300)
    elif u < 0.80:
        n = R.choice([98, 99, 100, 101, 102, 999, 1000, 1001])
    elif u < 0.87:
        n = R.choice([4990, 4997, 4998, 4999, 5000, 5001, 5002, 6000, 10000, 10399, 10400, 10401])
    elif u < 0.94 and DICT:
        n = R.choice(DICT)
    else:
        n = int(math.exp(R.uniform(math.log(300), math.log(20000))))
    return {"mode": mode, "n": n, "shape": R.choice(SHAPES), "s": R.randint(0, 2**31), "a": R.random(),
            "rep": R.choice([1, 2, 3])}


def build_list(c):
    rs = np.random.RandomState(c["s"] % (2**32))
    n, a = c["n"], c["a"]
    i = np.arange(1, n + 1)
    sh = c["shape"]
    if sh == "uniform":
        p = rs.random_sample(n)
    elif sh == "perfect":
        p = i / (n + 1.0)
    elif sh == "jitter":
        p = i / (n + 1.0) + (rs.random_sample(n) - .5) * a * 2 / math.sqrt(n)
    elif sh == "beta":
        k = 1 + (a - .5) * 3 / math.sqrt(n)
        p = rs.random_sample(n) ** max(k, .05)
    elif sh == "ties":
        p = np.round(rs.random_sample(n) * (1 + int(a * 20))) / (1 + int(a * 20))
    elif sh == "const":
        p = np.full(n, [0.0, 1.0, 0.5, a][c["s"] % 4])
    elif sh == "onedev":
        p = i / (n + 1.0)
        k = c["s"] % n
        p[k] = a
    elif sh == "edges":
        p = rs.random_sample(n)
        p[rs.random_sample(n) < a * 3 / math.sqrt(n)] = c["s"] % 2
    elif sh == "half":
        p = rs.random_sample(n) * (1 - a * 2 / math.sqrt(n)) + (c["s"] % 2) * a * 2 / math.sqrt(n)
    elif sh == "gapmid":
        p = rs.random_sample(n)
        p = np.where(np.abs(p - .5) < a / math.sqrt(n), p - np.sign(p - .5) * a / math.sqrt(n), p)
    else:
        # a list whose largest deviation is prescribed: spans all significance levels
        d = (0.2 + 2.6 * a) / math.sqrt(n)
        p = i / (n + 1.0)
        j = c["s"] % n
        if c["s"] % 2:
            p = np.where(i - 1 >= j, p, np.minimum(p, p)) + 0
            p[j:] = np.maximum(p[j:], min(1.0, p[j] + d))
        else:
            p[:j + 1] = np.minimum(p[:j + 1], max(0.0, p[j] - d))
    return np.clip(p, 0, 1)


def ref_ks(p, mode):
    """independent evaluation; returns (value, abs tol, rel tol)"""
    n = len(p)
    q = np.sort(p)
    d = float(np.max(np.abs(q - np.arange(1, n + 1) / (n + 1.0))))
    s = d * d * n
    if d <= 0:
        ex = 1.0
    elif s < 4 and n * d < 160 and n <= 12000:
        ex = float(_kolmogn_DMTW(n, d, cdf=False))   # exact (Durbin matrix, scipy's own implementation)
    else:
        ex = float(kstwo.sf(d, n))                   # 5+ digits, relative in the right tail
    return d, s, ex


def kuiper_ref(p):
    n = len(p)
    q = np.sort(p)
    v = q - np.arange(n) / float(n)
    V = max(0.0, v.max()) + max(0.0, -v.min())
    x = (math.sqrt(n) + .155 + .24 / math.sqrt(n)) * V
    if x < 0.25:
        return x, None
    j = np.arange(1, 200.0)
    e = np.exp(-2 * j * j * x * x)
    Q = 2 * np.sum((4 * j * j * x * x - 1) * e)
    P = 8 * x / (3 * math.sqrt(n)) * np.sum(j * j * (4 * j * j * x * x - 3) * e)
    return x, min(1.0, max(0.0, float(Q - P)))


def run(c, ctx):
    L = ctx.lib
    mode, n = c["mode"], c["n"]
    p = build_list(c)
    d, s, ex = ref_ks(p, mode)
    # cost control of the exact matrix algorithm (documented as slow): same mode family, cheaper n
    if mode in (1, 2) or (mode == 0 and n <= 4999):
        approx = mode != 2 and (s > 7.24 or (s > 3.76 and n > 99))
        if not approx and n * d > 150:
            return None, None
    if mode == 3:
        x, rk = kuiper_ref(p)
    L.glob("ks_test").value = mode
    orders = [p.copy(), np.sort(p)[::-1].copy(), np.random.RandomState(c["s"] + 1 & 0xffffffff).permutation(p)]
    vals = []
    for o in orders[:c["rep"]] if n > 2000 else orders:
        before = np.sort(o)
        a = np.ascontiguousarray(o, dtype=np.float64)
        guard = np.concatenate([[7.25], a, [9.5]])
        view = guard[1:-1]
        fn = L.l.kstest_kuiper if mode == 3 else L.l.kstest
        vals.append(fn(view.ctypes.data, n))
        if guard[0] != 7.25 or guard[-1] != 9.5 or not np.array_equal(np.sort(view), before):
            return "p-value list changed as a multiset (or neighbours overwritten): n=%d" % n, "x"
    if len(set(vals)) > 1 and max(vals) - min(vals) > 1e-12:
        return "aggregate depends on order: %r (n=%d mode=%d)" % (vals, n, mode), "x"
    v = vals[0]
    if n == 1:
        if v != p[0]:
            return "n=1: aggregate %r != the single p-value %r" % (v, p[0]), "x"
        return None, "n1"
    if mode == 3:
        if not 0 <= v <= 1:
            return "Kuiper aggregate %r outside [0,1] (n=%d x=%g)" % (v, n, x), "x"
        if rk is None:
            return None, "kuiper-tiny"
        if abs(v - rk) > 1e-9 + 1e-6 * abs(rk):
            return "kuiper: got %r, reference %r (n=%d x=%g)" % (v, rk, n, x), "x"
        return None, "kuiper"
    if not (-1e-9 <= v <= 1 + 1e-9):
        return "aggregate p-value %r outside [0,1] (n=%d, dmax=%g, mode %d)" % (v, n, d, mode), "x"
    if mode == 0 and n > 4999:
        # large-n mode: the limiting distribution with Stephens' correction (or anything more exact)
        asy = float(kolmogorov((math.sqrt(n) + .12 + .11 / math.sqrt(n)) * d))
        tol = 1e-5
        if abs(v - asy) <= 1e-9:
            ex = v
        lab = "asymptotic"
    elif mode != 2 and (s > 7.24 or (s > 3.76 and n > 99)):
        # no worse than the published approximation of this mode (absolute error below 1e-6; anything between it and the exact value is accepted)
        f = 2.0 * math.exp(-(2.000071 + .331 / math.sqrt(n) + 1.409 / n) * s)
        tol = 1e-15 + 1e-3 * ex
        if min(f, ex) <= v <= max(f, ex) or abs(v - f) <= 1e-6 * f:
            ex = v
        lab = "righttail"
    else:
        tol = 1e-9
        lab = "exact"
    if abs(v - ex) > tol:
        return "aggregate %r but two-sided KS significance is %r (n=%d dmax=%r mode=%d)" % (v, ex, n, d, mode), "x"
    if 1e-12 < ex < 1 - 1e-12:
        return None, lab + "-mid"
    return None, lab + "-extreme"


def shrink(c):
    for k in ("n",):
        for y in (1, 2, c[k] // 2, c[k] - 1):
            if 1 <= y < c[k]:
                yield dict(c, **{k: y})
    for sh in ("const", "perfect"):
        if c["shape"] != sh:
            yield dict(c, shape=sh)
    for m in (0,):
        if c["mode"] != m:
            yield dict(c, mode=m)
