import math
import numpy as np
from scipy.special import gammaincc, gammaln, ndtr
from vlib.lib import Lib

PROP = "C02"
TECHNIQUE = "property-based testing: generated count vectors against an independent evaluation (scipy gammaincc/ndtr)"
NOTE = "Differential against scipy; agreement to 1e-9 relative/absolute. Trusts scipy's incomplete gamma."
RULE = ("case = batch of 12 evaluator calls with generated vectors (sizes 2..300, expectations straddling the cutoff, zero cells, "
        "cells exactly at the cutoff). Non-trivial: some call has a reference p strictly inside (1e-12, 1-1e-12).")
CASES = dict(quick=8000, thorough=120000)
TIMEOUT = 30


def setup(ctx):
    ctx.lib = Lib(ctx.b()["lib"])


FN = ["vtest"] * 5 + ["xtest", "pearson", "poisson", "geometric", "binomial", "gtest", "2d", "vtest_ndof", "binpdf"]


def gen(R, i, tier):
    return {"calls": [[R.choice(FN), R.randint(0, 2**31), R.choice([2, 3, 4, 5, 8, R.randint(2, 30), R.randint(2, 300)]),
                       R.choice([5.0, 5.0, 5.0, 10.0, 20.0, 0.0, 1.0, 30.0, R.uniform(0, 50)]),
                       R.choice(["smooth", "tailright", "tailleft", "holes", "exact", "alltail", "onetail", "wide"])]
                      for _ in range(12)]}


def vecs(rs, n, cutoff, shape):
    c = max(cutoff, 1.0)
    if shape == "smooth":
        y = c * (0.2 + 5 * rs.random_sample(n))
    elif shape == "tailright":
        y = 40 * c * np.exp(-np.arange(n) * (0.1 + rs.random_sample()))
    elif shape == "tailleft":
        y = (40 * c * np.exp(-np.arange(n) * (0.1 + rs.random_sample())))[::-1].copy()
    elif shape == "holes":
        y = c * 5 * rs.random_sample(n)
        y[rs.random_sample(n) < .3] = c * rs.random_sample() * .9 + 1e-6
    elif shape == "exact":
        y = np.where(rs.random_sample(n) < .5, cutoff, cutoff + rs.randint(-3, 4, n))
        y = np.where(y <= 0, 1.0, y)
    elif shape == "alltail":
        y = c * .5 * rs.random_sample(n) + 1e-3
        y[rs.randint(n)] = c * 3
        y[rs.randint(n)] = c * 2
    elif shape == "onetail":
        y = c * (1.5 + rs.random_sample(n))
        y[rs.randint(n)] = c * rs.random_sample() * .99 + 1e-9
    else:
        y = 10 ** (rs.random_sample(n) * 6 - 2)
    x = y + np.sqrt(y) * rs.standard_normal(n) * rs.choice([0.3, 1, 1, 1.5, 4])
    x = np.round(np.maximum(x, 0))
    x[rs.random_sample(n) < .03] = 0
    return x, y


def close(a, b, tol=1e-8):
    return abs(a - b) <= tol * max(abs(b), 1e-4) or (a != a and b != b)


def vref(x, y, cutoff):
    big = y >= cutoff
    chi = float(np.sum((x[big] - y[big]) ** 2 / y[big]))
    cells = int(big.sum())
    if (~big).any():
        ty, tx = 0.0, 0.0
        first = True
        for k in np.nonzero(~big)[0]:
            ty = y[k] if first else ty + y[k]
            tx = x[k] if first else tx + x[k]
            first = False
        if abs(ty - cutoff) < 1e-9 * max(1, cutoff) and ty != cutoff:
            return None
        if ty >= cutoff:
            chi += (tx - ty) ** 2 / ty
            cells += 1
    return chi, cells - 1


def run(c, ctx):
    L = ctx.lib.l
    mid = 0
    ev = 0
    lab = {}
    for fn, seed, n, cutoff, shape in c["calls"]:
        rs = np.random.RandomState(seed)
        x, y = vecs(rs, n, cutoff, shape)
        x, y = np.ascontiguousarray(x), np.ascontiguousarray(y)
        nd = np.zeros(1, np.uint32)
        cs = np.zeros(1)
        ref = None
        if fn in ("vtest", "vtest_ndof"):
            r = vref(x, y, cutoff)
            if r is None or r[1] < 1:
                continue
            chi, dof = r
            force = int(rs.randint(1, 200)) if fn == "vtest_ndof" else 0
            got = L.vf_vtest(n, cutoff, x.ctypes.data, y.ctypes.data, nd.ctypes.data, force, cs.ctypes.data)
            if force:
                dof = force
            if int(nd[0]) != dof:
                return "%s: %d degrees of freedom, expected %d (n=%d cutoff=%g shape=%s seed=%d)" % (fn, nd[0], dof, n, cutoff, shape, seed), "x"
            if not close(cs[0], chi):
                return "%s: chisq %r expected %r (n=%d cutoff=%g shape=%s seed=%d)" % (fn, cs[0], chi, n, cutoff, shape, seed), "x"
            ref = gammaincc(dof / 2., chi / 2.)
        elif fn == "xtest":
            yv, sg = rs.uniform(-1e6, 1e6), 10 ** rs.uniform(-3, 5)
            xv = yv + sg * rs.standard_normal() * rs.choice([.5, 1, 3, 8, 0])
            got = L.vf_xtest(xv, yv, sg, 1)
            ref = ndtr((yv - xv) / sg)
        elif fn == "pearson":
            got = L.chisq_pearson(x.ctypes.data, y.ctypes.data, n)
            ref = gammaincc((n - 1) / 2., float(np.sum((x - y) ** 2 / y)) / 2.)
        elif fn in ("poisson", "geometric"):
            ns = int(rs.randint(10, 100000))
            n2 = min(n, 40)
            if fn == "poisson":
                lam = rs.uniform(.2, 20)
                k = np.arange(n2)
                pdf = np.exp(k * math.log(lam) - lam - gammaln(k + 1))
            else:
                pr = rs.uniform(.05, .95)
                pdf = pr * (1 - pr) ** np.arange(n2)
                lam = pr
            pdf = np.maximum(pdf, 1e-300)
            o = rs.poisson(np.minimum(ns * pdf, 1e8)).astype(np.uint32)
            e = ns * pdf
            chi = float(np.sum((o - e) ** 2 / e))
            got = (L.chisq_poisson if fn == "poisson" else L.chisq_geometric)(o.ctypes.data, lam, n2, ns)
            ref = gammaincc((n2 - 1) / 2., chi / 2.)
        elif fn == "binomial":
            kmax = min(n, 60)
            pr = rs.uniform(.1, .9)
            ns = int(rs.randint(1000, 200000))
            o = np.bincount(rs.binomial(kmax, pr, ns), minlength=kmax + 1).astype(float)
            o[rs.randint(kmax + 1)] = 10.0
            k = np.arange(kmax + 1)
            pdf = np.exp(gammaln(kmax + 1) - gammaln(k + 1) - gammaln(kmax - k + 1) + k * math.log(pr) + (kmax - k) * math.log(1 - pr))
            use = o > 10.0
            if use.sum() < 2:
                continue
            e = ns * pdf
            chi = float(np.sum((o[use] - e[use]) ** 2 / e[use]))
            got = L.chisq_binomial(o.ctypes.data, pr, kmax, ns)
            ref = gammaincc((int(use.sum()) - 1) / 2., chi / 2.)
        elif fn == "gtest":
            kmax = max(2, n)
            N = int(rs.randint(kmax, 1000 * kmax))
            w = rs.dirichlet(np.ones(kmax) * rs.choice([1, 50, 1e4]))
            o = rs.multinomial(N, w).astype(np.uint32)
            e = N / kmax
            nz = o > 0
            g = float(np.sum(2.0 * o[nz] * np.log(o[nz] / e)))
            g /= 1 + (kmax + 1) / (6.0 * N) + (kmax * kmax) / (6.0 * N * N)
            got = L.chisq_uint_uniform_gtest(o.ctypes.data, N, kmax)
            ref = gammaincc((kmax - 1) / 2., abs(g) / 2.)
        elif fn == "2d":
            r_, c_ = 2 + n % 6, 2 + (seed % 7)
            o = rs.poisson(rs.uniform(3, 60) * np.ones((r_, c_))).astype(np.uint32) + 1
            N = int(o.sum())
            e = np.outer(o.sum(1), o.sum(0)) / N
            chi = float(np.sum((o - e) ** 2 / e))
            o = np.ascontiguousarray(o.ravel())
            got = L.chisq2d(o.ctypes.data, r_, c_, N)
            ref = gammaincc((r_ - 1) * (c_ - 1) / 2., chi / 2.)
        else:
            nn = int(rs.randint(1, 60))
            k = int(rs.randint(0, nn + 1))
            pr = rs.uniform(.01, .99)
            got = L.binomial(nn, k, pr)
            ref = math.exp(gammaln(nn + 1) - gammaln(k + 1) - gammaln(nn - k + 1) + k * math.log(pr) + (nn - k) * math.log(1 - pr))
        ev += 1
        ref = float(ref)
        if not close(got, ref):
            return "%s: got p=%r, definition gives %r (n=%d cutoff=%g shape=%s seed=%d)" % (fn, got, ref, n, cutoff, shape, seed), "x"
        if 1e-12 < ref < 1 - 1e-12:
            mid += 1
            lab[fn] = lab.get(fn, 0) + 1
    return None, "mid" if mid else None, {"evals": ev, "labels": lab}


def shrink(c):
    n = len(c["calls"])
    if n > 1:
        for k in range(n):
            yield {"calls": [c["calls"][k]]}
    else:
        f, s, m, cu, sh = c["calls"][0]
        for y in (2, 3, m // 2, m - 1):
            if 2 <= y < m:
                yield {"calls": [[f, s, y, cu, sh]]}
        if cu != 5.0:
            yield {"calls": [[f, s, m, 5.0, sh]]}
        for s2 in (0, 1, 2, 3):
            if s2 < s:
                yield {"calls": [[f, s2, m, cu, sh]]}
