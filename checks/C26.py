import ctypes as C
import os
import re
import numpy as np
from vlib import streams
from vlib.lib import Lib
from vlib.cli import dh, T

PROP = "C26"
TECHNIQUE = "property testing: printed histograms parsed back and compared with an independent count of generated p-value lists"
NOTE = ("Oracle: counts of the ten bins [k/10,(k+1)/10), 1.0 in the last, computed in the check; the printed bars (with the scale read from the printed axis) "
        "must be floor(count/scale) rows high, gap-free, and the scale large enough for the fullest bin. Lists are given directly to the two histogram "
        "routines, and end to end the histogram of every statistic of generated runs is compared with the p-values listed for it. Values closer than 1e-9 "
        "(1e-7 end to end) to an inner bin edge are not generated (not judged).")
RULE = ("case = list of 0..4000 p-values with chosen shape (uniform, single bin, extremes, edges 0/0.5/1, skewed) or a run with several statistics. "
        "Non-trivial: at least one p-value binned; classes by shape and scale.")
CASES = dict(quick=6000, thorough=120000)
TIMEOUT = 60
RUNS = [(100, 0, 40), (101, 0, 60), (16, 0, 100), (15, 0, 300), (102, 0, 300), (14, 0, 60), (203, 2, 40), (202, 3, 50), (209, 0, 300), (207, 0, 60), (205, 0, 50)]


def setup(ctx):
    ctx.lib = Lib(ctx.b()["lib"])
    for n in ("output_histogram", "histogram"):
        if hasattr(ctx.lib.l, n):
            getattr(ctx.lib.l, n).argtypes = [C.c_void_p, C.c_char_p, C.c_int, C.c_double, C.c_double, C.c_int, C.c_char_p]
            getattr(ctx.lib.l, n).restype = C.c_int


def gen(R, i, tier):
    if R.random() < .12:
        t = R.choice(RUNS)
        return {"k": "run", "test": t[0], "nt": t[1], "ts": t[2], "ps": R.choice([1, 5, 20, 60, R.randint(1, 150), 150]), "S": R.randint(1, 2**31),
                "g": R.choice([14, 206, 208, 41]), "sep": R.choice("|,;"), "Y": R.choice([0, 0, 0, 2])}
    return {"k": "list", "fn": R.choice(["output_histogram", "output_histogram", "histogram"]), "n": R.choice([1, 2, R.randint(1, 30), R.randint(1, 300), 100, R.randint(1, 4000)]),
            "shape": R.choice(["uni", "one", "ext", "edge", "skew", "two", "fill"]), "s": R.getrandbits(30), "b": R.randint(0, 9), "b2": R.randint(0, 9), "gp": R.choice(["n", "n", "0", "other"])}


def plist(c):
    rs = np.random.RandomState(c["s"])
    n, sh = c["n"], c["shape"]
    u = rs.rand(n)
    if sh == "one":
        p = (c["b"] + u) / 10
    elif sh == "two":
        p = (np.where(rs.rand(n) < .5, c["b"], c["b2"]) + u) / 10
    elif sh == "ext":
        p = np.where(rs.rand(n) < .5, rs.choice([0.0, 1.0, 1e-300, 1 - 2.0**-53, 1e-8], n), u)
    elif sh == "edge":
        p = np.clip((rs.randint(0, 11, n) + rs.choice([-1, 1], n) * 10.0 ** -rs.uniform(2, 7, n)) / 10, 0, 1)
        p = np.where(rs.rand(n) < .2, 0.5, p)
    elif sh == "skew":
        p = u ** (1 + c["b"])
    elif sh == "fill":
        p = np.sort(np.concatenate([np.full(k, (k % 10 + .5) / 10) for k in range(1, 12)])[:n])
    else:
        p = u
    f = p * 10
    near = (np.abs(f - np.round(f)) < 1e-8) & (np.round(f) != 0) & (np.round(f) != 10) & (p != 0.5)
    return np.where(near, p + 3e-8, p)


def count(p):
    b = [0] * 10
    for x in p:
        b[min(9, int(x * 10)) if x < 1 else 9] += 1
    return b


def parse(lines):
    """lines of one histogram -> (scale, heights) or an error text"""
    rows_ = [l for l in lines if re.match(r"#\s*\d*\|[ *|]*$", l) and l.count("|") == 11]
    if len(rows_) != 20:
        return "histogram has %d bar rows" % len(rows_)
    scales, bars = set(), []
    for j, l in enumerate(rows_):
        i = 20 - j
        f = l[1:].split("|")
        if f[0].strip():
            v = int(f[0])
            if v % i:
                return "axis label %d at row %d" % (v, i)
            scales.add(v // i)
        bars.append([x.strip() for x in f[1:11]])
    if len(scales) != 1:
        return "axis is not linear: %s" % scales
    h = []
    for k in range(10):
        col = [b[k] for b in bars]
        if any(x not in ("", "****") for x in col):
            return "bad bar cell %r" % col
        n = sum(1 for x in col if x)
        if any(bool(col[j]) != (20 - j <= n) for j in range(20)):
            return "bar of bin %d has gaps" % k
        h.append(n)
    return scales.pop(), h


def judge(p, lines):
    r = parse(lines)
    if isinstance(r, str):
        return r
    sc, h = r
    b = count(p)
    e = [x // sc for x in b]
    if max(b) > 20 * sc:
        return "scale %d cannot show the fullest bin (%d)" % (sc, max(b))
    if e != h:
        return "bars %s at scale %d, expected %s for bin counts %s" % (h, sc, e, b)
    return None


def run(c, ctx):
    L = ctx.lib
    if c["k"] == "list":
        if not hasattr(L.l, c["fn"]):
            return None, None
        p = plist(c)
        a = np.ascontiguousarray(p)
        L.glob("psamples").value = {"n": len(p), "0": 0, "other": 1 + c["s"] % 3000}[c["gp"]]
        path = os.path.join(ctx.scratch, "h%d" % os.getpid())
        fd = os.open(path, os.O_CREAT | os.O_RDWR | os.O_TRUNC, 0o600)
        os.dup2(fd, 1)
        getattr(L.l, c["fn"])(a.ctypes.data, b"#label\n", len(p), 0.0, 1.0, 10, b"p-values")
        C.CDLL(None).fflush(None)
        out = open(path).read()
        os.unlink(path)
        m = judge(p, out.split("\n"))
        if m:
            return m + " (%s, %d values, shape %s)" % (c["fn"], len(p), c["shape"]), "x"
        if not np.array_equal(a, p):
            return "the p-value list was modified", "x"
        return None, c["shape"] + ("-small" if len(p) < 20 else "")
    a = ["-d", c["test"], "-t", c["ts"], "-p", c["ps"], "-g", c["g"], "-S", c["S"], "-D", T["histogram"] + T["psample_values"] + T["test_name"] + T["pvalues"], "-c", c["sep"]]
    if c["nt"]:
        a += ["-n", c["nt"]]
    if c["Y"]:
        a += ["-Y", c["Y"], "-P", 250, "-X", 1e-12]
    r = dh(ctx, a)
    if r.timeout or r.rc != 0:
        return "run failed: rc %s %s" % (r.rc, r.err[:200]), "x"
    lines = r.out.split("\n")
    starts = [i for i, l in enumerate(lines) if "Histogram of" in l]
    if not starts:
        return "no histogram shown", "x"
    for q, s in enumerate(starts):
        blk = lines[s:starts[q + 1] if q + 1 < len(starts) else len(lines)]
        v = next((i for i, l in enumerate(blk) if "Values of" in l), None)
        if v is None:
            return "no p-value list after histogram %d" % q, "x"
        p = [float(m.group(1)) for l in blk[v:] for m in [re.match(r"^\D?\s*([01]\.\d{8})\s*\D?$", l.strip(" "))] if m]
        p = [x for x in p]
        if c["Y"] == 0 and len(p) != c["ps"]:
            return "%d p-values listed, %d sampled" % (len(p), c["ps"]), "x"
        if any(abs(x * 10 - round(x * 10)) < 1e-6 and 0 < round(x * 10) < 10 for x in p):
            continue
        m = judge(p, blk[:v])
        if m:
            return "histogram %d: %s [%s]" % (q, m, " ".join(map(str, a))), "x"
    return None, "run" + ("-multi" if len(starts) > 1 else ""), {"evals": len(starts)}


def shrink(c):
    if c["k"] == "list":
        for n in (1, 2, c["n"] // 2, c["n"] - 1):
            if 1 <= n < c["n"]:
                yield dict(c, n=n)
        if c["shape"] != "one":
            yield dict(c, shape="one")
    else:
        if c["test"] != 100:
            yield dict(c, test=100, nt=0, ts=40)
        if c["ps"] > 1:
            yield dict(c, ps=c["ps"] // 2)
        if c["Y"]:
            yield dict(c, Y=0)
