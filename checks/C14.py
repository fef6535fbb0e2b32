import math
import os
import ctypes as C
import numpy as np
from vlib import streams
from vlib.lib import Lib, in_child
from vlib.cli import dh, T

PROP = "C14"
TECHNIQUE = "property testing: verdicts of generated runs against the threshold rule, thresholds placed around the exact aggregate p-values"
NOTE = ("Oracle: the exact aggregates come from the library on the same stream; the rule (FAILED / WEAK / PASSED, strict comparison, two-sided) is "
        "evaluated in the check. Thresholds are drawn at, just above and just below p and 1-p, as well as defaults, 0 and arbitrary values.")
RULE = ("case = (stream or generator+seed, test, sample counts, KS mode, list of threshold settings relative to the computed p-values). "
        "Non-trivial: a verdict was compared; classes = the sets of verdicts seen in the case.")
CASES = dict(quick=3500, thorough=40000)
TIMEOUT = 90
TESTS = [(2, 0, 30), (3, 0, 60), (8, 0, 300), (9, 0, 300), (13, 0, 60), (14, 0, 60), (15, 0, 400), (16, 0, 200), (17, 0, 2000), (100, 0, 40), (100, 0, 5),
         (101, 0, 60), (102, 0, 300), (200, 3, 30), (202, 3, 50), (203, 1, 50), (205, 0, 50), (206, 0, 60), (207, 0, 60), (209, 0, 300)]
DW, DX = 0.005, 0.000001


def setup(ctx):
    ctx.lib = Lib(ctx.b()["lib"])


def thr(R):
    """(mode, k, f): mode lo/hi = relative to p / 1-p of row k, abs = literal"""
    m = R.choice(["lo", "lo", "hi", "hi", "abs", "default"])
    if m in ("lo", "hi"):
        return [m, R.randint(0, 40), R.choice(["eq", "up", "dn", 0.5, 2.0, 0.999, 1.001])]
    if m == "abs":
        return [m, 0, R.choice([0.0, 0.5, 1.0, 0.3, 0.05, 0.01, 1e-3, 1e-5, 1e-7, 1e-12, R.random() * 0.5, R.random(), 10 ** -R.uniform(0, 9)])]
    return [m, 0, 0]


def gen(R, i, tier):
    t = R.choice(TESTS)
    # (the tests 16, 17 and 200 do not terminate on some constant streams: known finding of C27)
    src = "gen" if t[0] in (16, 17, 200) else R.choice(["gen", "gen", "stream"])
    return {"src": src, "st": streams.gen(R, n=R.choice([200, 1000, 5000])) if src == "stream" else None, "g": R.choice([14, 208, 205, 206, 41, 16]),
            "S": R.randint(1, 2**31), "test": t[0], "nt": t[1], "ts": t[2] + R.randint(0, t[2]), "ps": R.choice([1, 1, 2, R.randint(1, 8), 20]),
            "k": R.choice([0, 0, 1, 2, 3] if t[0] in (2, 3, 100, 101, 102) else [0, 3] if t[0] != 206 else [0]), "thr": [[thr(R), thr(R)] for _ in range(R.randint(1, 3))]}


def value(t, ks):
    m, k, f = t
    if m == "default":
        return None
    if m == "abs":
        return f
    p = float(ks[k % len(ks)])
    x = p if m == "lo" else 1.0 - p
    if m == "lo":
        v = {"eq": x, "up": math.nextafter(x, 2), "dn": math.nextafter(x, -1)}.get(f) if isinstance(f, str) else x * f
    else:
        v = {"eq": x if p >= .5 else x * 1.01, "up": x + 1e-9 + x * 1e-7, "dn": x - 1e-9 - x * 1e-7}.get(f) if isinstance(f, str) else x * f
        if f in (0.5, 2.0, 0.999, 1.001) and abs(v - x) < 1e-12:
            v = x + 1e-9
    return max(v, 0.0)


def verdict(p, w, x):
    m = min(p, 1 - p)
    return "FAILED" if m < x else "WEAK" if m < w else "PASSED"


def run(c, ctx):
    L = ctx.lib
    d = os.path.join(ctx.scratch, "w%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    a = ["-d", c["test"], "-t", c["ts"], "-p", c["ps"], "-k", c["k"]]
    if c["nt"]:
        a += ["-n", c["nt"]]
    if c["src"] == "stream":
        w = streams.make(c["st"])
        w = np.resize(w, max(16, len(w))).astype("<u4")
        fn = os.path.join(d, "s.bin")
        w.tofile(fn)
        a += ["-g", 201, "-f", fn]
    else:
        a += ["-g", c["g"], "-S", c["S"]]

    def lib():
        if c["src"] == "stream":
            L.use(w, 32)
            L.l.vf_set_unit_scale()
        else:
            L.use_gen(c["g"], c["S"])
        L.glob("ks_test", C.c_int).value = c["k"]
        return [float(x) for x in L.run_test(c["test"], c["ts"], c["ps"], c["nt"], std=True)["ks"]]
    ks = in_child(lib)
    if ks is None or any(not (0 <= p <= 1) for p in ks):
        return None, None
    seen, n = set(), 0
    for tw, tx in c["thr"]:
        W, X = value(tw, ks), value(tx, ks)
        b = list(a)
        if W is not None:
            b += ["-W", repr(W)]
        if X is not None:
            b += ["-X", repr(X)]
        W, X = DW if W is None else W, DX if X is None else X
        r = dh(ctx, b + ["-D", "test_name", "-D", "assessment", "-c", "|", "-D", "no_whitespace"], cwd=d)
        if r.timeout or r.rc != 0:
            return "run failed: rc %s %s" % (r.rc, r.err[:200]), "x"
        got = [l.split("|")[-1].strip() for l in r.out.splitlines() if "|" in l]
        if len(got) != len(ks):
            return "%d rows for %d results: %r" % (len(got), len(ks), r.out[:300]), "x"
        for j, p in enumerate(ks):
            e = verdict(p, W, X)
            n += 1
            if any(abs((1 - p) - t) < 1e-13 and not (p >= .5 and 1 - p == t) for t in (W, X)):
                continue
            if got[j] != e:
                return "result %d has p=%r, weak %r, fail %r: verdict %s, expected %s  [%s]" % (j, p, W, X, got[j], e, " ".join(map(str, b))), "x"
            seen.add(e[0])
    return None, "".join(sorted(seen)) + ("-multi" if len(ks) > 1 else ""), {"evals": n}


def shrink(c):
    if len(c["thr"]) > 1:
        for t in c["thr"]:
            yield dict(c, thr=[t])
    for k, v in (("ps", 1), ("k", 0), ("S", 1), ("g", 14)):
        if c[k] != v:
            yield dict(c, **{k: v})
    if c["src"] == "stream":
        yield dict(c, src="gen", st=None)
