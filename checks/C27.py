import os
import re
import subprocess
import numpy as np
from vlib import streams

PROP = "C27"
TECHNIQUE = "fuzzing of every registered test with degenerate, periodic, biased and random streams under AddressSanitizer"
NOTE = ("Oracle: AddressSanitizer, death by signal, a time limit, every p-value and aggregate in [0,1], and equal p-values from the sanitizer and "
        "the plain build (a difference shows use of uninitialised memory). Generators narrower than 24 bits and fewer than 10 test samples are "
        "outside the claim.")
RULE = ("case = (test, ntuple, sample counts, overlap, generator width 24..32, deviate scaling, stream description). Streams on which the test's own "
        "rejection sampling can never accept a value are the listed known findings and are not drawn. Non-trivial: every case; classes by test.")
CASES = dict(quick=2800, thorough=40000)
VARIANTS = ["asan", "plain"]
TIMEOUT = 280
QUICK_CAP = 400
TESTS = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 100, 101, 102, 200, 200, 201, 202, 202, 203, 204, 205, 206, 207, 207, 208, 209, 210, 211]
HEAVY = {4, 5, 6, 7, 10, 11, 12, 211}
ZERO_REJ = {11, 12, 17, 201, 204}
TOP_REJ = {16, 200}


def gen(R, i, tier):
    t = TESTS[i % len(TESTS)]
    if t in HEAVY and R.random() < .5:
        t = R.choice([x for x in TESTS if x not in HEAVY])
    if t == 211 and R.random() < .7:
        t = 207
    nt = {200: R.randint(1, 12), 201: R.randint(2, 5), 202: R.choice([2, 3, 4, 5, 6, 7, 0]), 203: R.choice([0, 1, 2, 31, 32, R.randint(0, 40)]),
          206: R.choice([0, 0, 8, 16, 64, 256]), 102: R.choice([0, 0, 8, 16]), 209: R.choice([0, 0, 5, 12, 15]), 208: 0, 207: 0}.get(t, 0)
    ts = R.choice([10, 11, 12, 13, 15, 16, 20, 31, 50, 64, 99, 100, 101, R.randint(10, 3000), R.randint(10, 300), 1000, 10000 if R.random() < .3 else 500])
    if t == 203:
        ts = min(ts, 1000)
    if t == 206:
        ts = min(ts, 2000)
    if t == 4 and R.random() < .15:
        ts = R.choice([2**21, 8388640, 8388641, 8388608 + 33, R.randint(8388000, 9000000), 10**7])      # around and beyond its standard stretch of bits
    w = R.choice([32, 32, 32, 32, 31, 30, 24, R.randint(24, 32)])
    return {"t": t, "nt": nt, "ts": ts, "ps": R.choice([1, 1, 2, 3]), "ov": R.choice([0, 1]), "w": w, "unit": R.random() < .3, "st": streams.gen(R, kinds=streams.KINDS + ["mono"] * (10 if t == 15 else 1))}


def drv(ctx, variant, wf, c, timeout):
    a = [ctx.b(variant)["drv"], wf, c["w"], 1 if c["unit"] and c["w"] == 32 else 0, c["t"], c["ts"], c["ps"], c["nt"], c["ov"], 1]
    p = subprocess.Popen([str(x) for x in a], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         env={"ASAN_OPTIONS": "detect_leaks=0:exitcode=99", "PATH": "/usr/bin:/bin"})
    try:
        o, e = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return None, "", ""
    return p.returncode, o.decode(), e.decode("latin1")


def run(c, ctx):
    d = os.path.join(ctx.scratch, "w%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    w = streams.make(c["st"], c["w"])
    mask = (1 << c["w"]) - 1
    if c["t"] in ZERO_REJ and not w.any():
        return None, None
    if c["t"] in TOP_REJ and int(w.min()) > mask - 8192:
        return None, None
    f = os.path.join(d, "w")
    w.tofile(f)
    got = []
    for v in ("asan", "plain"):
        rc, o, e = drv(ctx, v, f, c, 110)
        if rc is None:
            return "%s build: test %d did not end within 110 s" % (v, c["t"]), "x"
        if rc != 0:
            m = re.search(r"SUMMARY.*|gsl:.*", e)
            return "%s build: test %d died, rc %d: %s" % (v, c["t"], rc, m.group(0) if m else e[:500]), "x"
        ps = []
        for l in o.splitlines():
            a = l.split()
            if a[0] in "pk" and len(a) > 2:
                x = float(a[3] if a[0] == "p" else a[2])
                if not 0 <= x <= 1:
                    return "%s build: test %d %s %s = %r is not in [0,1]" % (v, c["t"], "p-value" if a[0] == "p" else "aggregate", a[1], x), "x"
                ps.append(x)
        if not ps:
            return "no p-values", "x"
        got.append(ps)
    if len(got[0]) != len(got[1]) or any(abs(a - b) > 1e-7 for a, b in zip(*got)):
        return "test %d gives different p-values in two builds of the same source (uninitialised data): %s %s" % (c["t"], got[0][:4], got[1][:4]), "x"
    return None, "t%d" % c["t"], {"evals": len(got[0])}


def known_still_fails(k, ctx):
    f = os.path.join(ctx.scratch, "known")
    c = k["case"]
    streams.make(c["st"], 32).tofile(f)
    return drv(ctx, "plain", f, c, 2)[0] is None


def shrink(c):
    for k, v in (("w", 32), ("unit", False), ("ps", 1), ("ov", 1), ("ts", 10)):
        if c[k] != v:
            yield dict(c, **{k: v})
    if c["ts"] > 11:
        yield dict(c, ts=max(10, c["ts"] // 2))
    for s in streams.shrink(c["st"]):
        yield dict(c, st=s)
