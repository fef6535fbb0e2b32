import os
import ctypes as C
import numpy as np
from vlib import streams
from vlib.lib import Lib, in_child, dp
from vlib.cli import dh, rows, ROWFLAGS, T

PROP = "C15"
TECHNIQUE = "model-based property testing: predicted rounds (sample counts, aggregates, raw consumption) of generated runs against the program's report"
NOTE = ("Oracle: a model of the sampling loop (requested or standard counts, multiplier, cutoff, step 100, stop rules) fed with the p-values of "
        "consecutive executions obtained one by one from the library; for file input also the number of words the run reports to have used.")
RULE = ("case = (source, test, tsamples or standard, psamples or standard with multiplier, mode 0/1/2, cutoff, thresholds, KS mode). Non-trivial: the "
        "run's rows were compared with the model; classes by mode, number of rounds and stop reason.")
CASES = dict(quick=1800, thorough=40000)
TIMEOUT = 120
# test -> (ntuples, tsamples range, words used per execution as a function of (ts, nt) or None)
TESTS = {100: ([0], (1, 60), lambda t, n: t), 101: ([0], (2, 40), lambda t, n: t), 2: ([0], (5, 12), lambda t, n: 32 * t), 14: ([0], (20, 60), None),
         13: ([0], (10, 40), None), 16: ([0], (20, 60), None), 15: ([0], (50, 150), lambda t, n: t), 205: ([0], (20, 60), lambda t, n: 3 * t),
         202: ([2, 3, 4], (10, 40), lambda t, n: t * n), 203: ([0, 1, 3], (5, 40), lambda t, n: t * (n + 1)), 204: ([0], (10, 40), lambda t, n: t),
         9: ([0], (10, 40), None), 3: ([0], (10, 40), None), 17: ([0], (100, 200), None), 209: ([12], (300, 500), lambda t, n: t)}
STD_OK = [100, 204, 100, 204, 202]          # cheap enough for the standard number of test samples


def setup(ctx):
    ctx.lib = Lib(ctx.b()["lib"])


def gen(R, i, tier):
    t = R.choice(list(TESTS))
    nts, rng, use = TESTS[t]
    Y = R.choice([0, 0, 1, 1, 2, 2])
    c = {"test": t, "nt": R.choice(nts), "ts": R.randint(*rng), "Y": Y, "k": 0, "m": None, "P": None, "W": None, "X": None,
         "S": R.randint(1, 2**31), "g": R.choice([14, 206, 208, 205]), "src": "gen", "st": None}
    c["ps"] = R.choice([1, 2, 5, R.randint(1, 30), R.randint(1, 250), 99, 100, 101])
    if R.random() < .3:
        c["ps"] = R.choice([0, None])
        c["m"] = R.choice([None, 0.5, 0.1, 0.001, 0, 2, 1.5, 0.333, R.randint(0, 300) / 100])
    elif R.random() < .2:
        c["m"] = R.choice([0.5, 3])
    if R.random() < .15:
        c["test"], c["nt"] = R.choice(STD_OK), 0
        c["ts"] = R.choice([0, None])
        c["ps"], c["m"] = R.choice([(1, None), (0, 0.03), (None, 0.01), (3, None), (2, 5)])
        c["Y"] = 0
    if R.random() < .02:                # thousands of p-samples
        c.update(test=100, nt=0, ts=R.randint(10, 200), Y=0)
        Y = 0
        c["ps"], c["m"] = R.choice([(None, R.randint(11, 60)), (0, 25.5), (None, 10.24), (R.randint(1000, 6000), None)])
    if Y:
        c["P"] = R.choice([1, 50, 99, 100, 101, 150, 200, 201, 250, R.randint(1, 400), R.randint(100, 700)])
        c["W"] = R.choice([None, 0.5, 0.4, 0.3, 0.2, 0.1, R.random() / 2, 0.05])
        c["X"] = R.choice([None, None, 0, 0, 1e-3, 0.05, 0.1, R.random() / 4])
    elif R.random() < .3:
        c["P"] = R.choice([1, 10, 100, R.randint(1, 300)])
    if use and c["ts"] and R.random() < .4:
        c["src"] = "file"
        c["st"] = streams.gen(R, n=R.choice([2000, 20000]), kinds=["rand", "rand", "rand", "bias", "few", "ctr", "lcg", "bias0"])
    if R.random() < .2 and t in (100, 101, 202) and c["ts"]:
        c["k"] = R.choice([1, 2, 3])
    return c


def run(c, ctx):
    L = ctx.lib
    d = os.path.join(ctx.scratch, "w%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    a = ["-d", c["test"]]
    for f in ("ts", "ps", "m", "P", "W", "X"):
        if c[f] is not None:
            a += ["-" + {"ts": "t", "ps": "p"}.get(f, f), c[f]]
    if c["Y"]:
        a += ["-Y", c["Y"]]
    if c["nt"]:
        a += ["-n", c["nt"]]
    if c["k"]:
        a += ["-k", c["k"]]
    use = TESTS[c["test"]][2]
    if c["src"] == "file":
        w = streams.make(c["st"])
        w = np.resize(w, max(16, len(w))).astype("<u4")
        fn = os.path.join(d, "s.bin")
        w.tofile(fn)
        a += ["-g", 201, "-f", fn]
    else:
        a += ["-g", c["g"], "-S", c["S"]]
    ts = c["ts"] or L.l.vf_tstd(c["test"])
    n0 = c["ps"] or max(1, int(L.l.vf_pstd(c["test"]) * (1.0 if c["m"] is None else float(c["m"]))))
    P = 100000 if c["P"] is None else c["P"]
    W, X = 0.005 if c["W"] is None else c["W"], 1e-6 if c["X"] is None else c["X"]
    n0 = min(n0, P)
    nmax = n0 if c["Y"] == 0 else max(n0, P)

    def lib():
        if c["src"] == "file":
            L.use(w, 32)
            L.l.vf_set_unit_scale()
        else:
            L.use_gen(c["g"], c["S"])
        L.glob("ks_test", C.c_int).value = c["k"]
        pv = L.run_test(c["test"], ts, nmax, c["nt"])["pv"]
        n, out = n0, []
        while True:
            ks = []
            for row in pv:
                x = np.ascontiguousarray(row[:n].copy())
                ks.append((L.l.kstest_kuiper if c["k"] >= 3 else L.l.kstest)(dp(x), n))
            s = min([0.5] + [0.5 - abs(p - 0.5) for p in ks])
            why = None
            if c["Y"] == 0:
                why = "single"
            elif s < X:
                why = "failed"
            elif c["Y"] == 1 and s >= W:
                why = "resolved"
            elif n >= P:
                why = "cutoff"
            out.append((n, ks))
            if why:
                return out, why
            n = min(n + 100, P)
    e = in_child(lib)
    if e is None:
        return None, None
    exp, why = e
    if not c.get("strict") and any(all(p == 0.0 for p in ks) for _, ks in exp[:-1]):
        return None, None       # listed finding: an aggregate of exactly 0 is taken for a first call
    r = dh(ctx, a + ["-D", ROWFLAGS + T["file_rng_stat"], "-c", "|"], cwd=d, timeout=5 if c.get("strict") else 40)
    desc = " [%s]" % " ".join(map(str, a))
    if r.timeout:
        return "run did not end; the model predicts %d rounds" % len(exp) + desc, "x"
    if r.rc != 0:
        return "run failed: rc %s %s" % (r.rc, r.err[:200]) + desc, "x"
    got = rows(r.out)
    want = [(n, "%.8f" % p) for n, ks in exp for p in ks]
    if [(g[3], g[4]) for g in got] != want:
        k = next((k for k in range(min(len(got), len(want))) if (got[k][3], got[k][4]) != want[k]), min(len(got), len(want)))
        return "row %d: reported %s, expected %s (rows %d/%d)" % (k, got[k:k + 1], want[k:k + 1], len(got), len(want)) + desc, "x"
    if any(g[2] != ts for g in got):
        return "tsamples reported %s, requested %d" % (sorted({g[2] for g in got}), ts) + desc, "x"
    if c["src"] == "file":
        used = [int(l.split(" rands")[0].split()[-1]) for l in r.out.splitlines() if l.startswith("# The") and " rands" in l and "used" in l]
        e = [n * use(ts, c["nt"]) for n, _ in exp]
        if c["test"] in (203, 202, 100, 101, 2, 15) and used != e:
            return "words used %s, expected %s" % (used, e) + desc, "x"
    return None, "Y%d-%s-%s" % (c["Y"], why, "1" if len(exp) == 1 else "2" if len(exp) == 2 else "many"), {"evals": len(want)}


def shrink(c):
    for k, v in (("k", 0), ("m", None), ("W", None), ("X", None), ("P", None), ("S", 1), ("g", 14)):
        if c[k] != v and not (k == "P" and c["Y"]):
            yield dict(c, **{k: v})
    if c["src"] == "file":
        yield dict(c, src="gen", st=None)
    if c["test"] != 100 and c["ts"]:
        yield dict(c, test=100, nt=0)
    if c["ts"] and c["ts"] > 5:
        yield dict(c, ts=5)
    if c["ps"] and c["ps"] > 1:
        yield dict(c, ps=c["ps"] // 2)


def known_still_fails(k, ctx):
    import sys
    from vlib.core import run_forked
    f, _, _ = run_forked(sys.modules[__name__], k["case"], ctx, TIMEOUT)
    return bool(f)
