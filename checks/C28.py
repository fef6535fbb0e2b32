import os
import re
import struct
from vlib.lib import Lib
from vlib.cli import dh

PROP = "C28"
TECHNIQUE = "metamorphic property testing: generated runs with every verbosity setting against the same run without it, half of them under AddressSanitizer"
NOTE = ("Oracle: the result rows (or the written file, or the listing) of the same command without -v; a run with -v may only add text. "
        "Settings are drawn from 0..60 and some larger ones; negative settings are undocumented table dumps and outside the claim.")
RULE = ("case = (verbosity, test, ntuple, samples, KS mode, source: generator, several generators XORed, raw file, text file; or output mode, or a listing). "
        "Non-trivial: the verbose run printed more than the other one. Classes by test or kind.")
CASES = dict(quick=1800, thorough=20000)
VARIANTS = ["plain", "asan"]
TIMEOUT = 320
TESTS = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 100, 101, 102, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210]
# the verbosity settings that concern each test itself, and the general ones
OWN = {0: 2, 1: 3, 2: 4, 3: 5, 4: 6, 5: 7, 6: 8, 7: 9, 8: 10, 9: 11, 10: 12, 11: 13, 12: 14, 13: 15, 14: 16, 15: 17, 16: 18, 17: 19, 100: 30, 101: 31, 102: 32,
       200: 23, 201: 25, 202: 26, 203: 27, 204: 24, 205: 2, 206: 16, 207: 41, 208: 41, 209: 41, 210: 2}
GENERAL = [1, 1, 1, 34, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51]
ROW = re.compile(r"(\w+)\|\s*(\d+)\|\s*(\d+)\|\s*(\d+)\|\s*([0-9.]+)\|\s*(PASSED|WEAK|FAILED)")
# sample counts at which one p-value is neither 0 nor 1
SMALL = {0: (20, 24), 2: (14, 20), 3: (20, 60), 4: (2097152, 2097152), 5: (2097152, 2097152), 6: (2097152, 2097152), 7: (2097152, 2097152), 8: (120000, 256000),
         9: (120000, 256000), 10: (10, 10), 11: (3000, 8000), 12: (10, 10), 13: (100, 200), 17: (3000, 9000), 102: (8, 14), 200: (100, 400), 202: (200, 400),
         101: (10, 30), 205: (2500, 4000), 210: (10, 20), 207: (10, 60)}


def setup(ctx):
    ctx.lib = Lib(ctx.b()["lib"])


def gen(R, i, tier):
    t = TESTS[i % len(TESTS)]
    lo, hi = SMALL.get(t, (10, 200))
    c = {"kind": "run" if R.random() < .93 else R.choice(["out", "list", "genlist", "info"]), "t": t,
         "v": R.choice([OWN[t], OWN[t], R.choice(GENERAL), R.randint(0, 60), R.choice([100, 1000, 123456])]), "ts": R.randint(lo, hi), "ps": R.choice([1, 2, 3]),
         "n": {200: R.randint(1, 5), 201: R.randint(2, 5), 202: R.randint(2, 4), 203: R.randint(0, 9), 206: R.choice([0, 16, 64])}.get(t, 0),
         "k": R.choice([0, 0, 1, 2, 3]), "S": R.randint(1, 2**31), "src": R.choice(["gen"] * 5 + ["raw", "text", "xor"]),
         "g": R.choice([205, 206, 14, 13, 208, 209, 204, 203, 403, 41]), "asan": R.random() < .5, "O": R.randint(0, 2), "first": R.random() < .5}
    if c["src"] != "gen" and R.random() < .6:
        c["v"] = R.choice([46, 47, 1, 50, 37, 38])
    elif R.random() < .25:          # the settings of the shared routines this test goes through
        c["v"] = R.choice([39, 42, 43, 44, 49, 40, 41] + ([45] * 3 if t in (2, 3) else []))
    if t == 12 and c["v"] in (1, 14):
        c["v"] = 39         # those two settings list all eight million pairs of points
    if t == 11 and R.random() < .5:
        c["ts"] = R.randint(10, 100)
    if t == 200 and c["ts"] < 250:
        c["n"] = max(c["n"], 3)
    if 4 <= t <= 9:
        c["ps"] = 1
        loud = c["v"] in (1, OWN[t]) and t in (4, 9) and R.random() < (.97 if t == 4 else .85) or c["v"] in (1, 39) and c["g"] not in (205, 206, 14, 208, 209)
        if loud or c["src"] != "gen" or R.random() < .1:       # tens of megabytes of text otherwise
            c["ts"], c["ps"] = R.randint(10, 3000), R.choice([1, 2, 3])
    if t == 4 and c["v"] in (1, 6) and c["ts"] > 3000:
        c["asan"] = False
    if t == 0 and c["v"] in (1, 39):
        c["ps"] = 1
        c["asan"] = c["asan"] and R.random() < .5
    if c["kind"] != "run":
        c["ts"] = R.randint(10, 3000)
    if t == 206:
        c["ts"] = min(c["ts"], 60)
        c["k"] = c["k"] % 2         # the exact KS of its fifteen thousand values can take minutes
    if t in (10, 12) and R.random() < .7 or 4 <= t <= 9 and c["ts"] > 3000 and R.random() < .6:
        c["asan"] = False
    return c


def source(c, ctx):
    d = ctx.scratch
    if c["src"] == "raw":
        p = os.path.join(d, "r%d" % os.getpid())
        with open(p, "wb") as f:
            x = c["S"]
            for _ in range(5003):
                x = (x * 6364136223846793005 + 1442695040888963407) & (2**64 - 1)
                f.write(struct.pack("<I", x >> 32))
        return ["-g", 201, "-f", p], p
    if c["src"] == "text":
        p = os.path.join(d, "t%d" % os.getpid())
        with open(p, "w") as f:
            f.write("# text\ntype: d\ncount: 1501\nnumbit: 32\n")
            x = c["S"]
            for _ in range(1501):
                x = (x * 6364136223846793005 + 1442695040888963407) & (2**64 - 1)
                f.write("%d\n" % (x >> 32))
        return ["-g", 202, "-f", p], p
    if c["src"] == "xor":
        return ["-g", 207, "-g", c["g"], "-g", 208 if c["g"] != 208 else 14, "-S", c["S"]], None
    return ["-g", c["g"], "-S", c["S"]], None


def sure(r, what):
    if r.timeout:
        return what + " did not end"
    if r.rc is not None and (r.rc < 0 or "AddressSanitizer" in r.err):
        return "%s crashed (exit %s): %s" % (what, r.rc, r.err[-400:])
    return None


def run(c, ctx):
    var = "asan" if c["asan"] else "plain"
    v = ["-v", c["v"]]
    if c["kind"] == "run":
        s, path = source(c, ctx)
        args = s + ["-d", c["t"], "-t", c["ts"], "-p", c["ps"], "-n", c["n"], "-k", c["k"]]
        try:
            a = dh(ctx, args, timeout=100)
            b = dh(ctx, (v + args) if c["first"] else (args + v), variant=var, timeout=200)
        finally:
            if path:
                os.unlink(path)
        f = sure(a, "the run") or sure(b, "the run with -v %d" % c["v"])
        ra, rb = ROW.findall(a.out), ROW.findall(b.out)
        if not f and ra != rb:
            f = "-v %d changes the results of test %d: %r becomes %r" % (c["v"], c["t"], ra[:3], rb[:3])
        if not f and not ra:
            return "no result row: " + a.err[-300:], "x"
        return f, "t%d" % c["t"] if len(b.out) > len(a.out) + 40 else None
    if c["kind"] == "out":
        pa, pb = (os.path.join(ctx.scratch, "%s%d" % (x, os.getpid())) for x in "ab")
        got = []
        for p, extra in ((pa, []), (pb, v)):
            r = dh(ctx, ["-o", "-f", p, "-g", c["g"], "-S", c["S"], "-t", c["ts"], "-O", c["O"]] + extra, variant=var)
            f = sure(r, "output mode")
            if f:
                return f, "x"
            got.append(open(p, "rb").read())
            os.unlink(p)
        return (None if got[0] == got[1] else "-v %d changes the written file (format %d)" % (c["v"], c["O"])), "out"
    args = {"list": ["-l"], "genlist": ["-g", "-1"], "info": ["-d", c["t"], "-h"]}[c["kind"]]
    a, b = dh(ctx, args), dh(ctx, v + args, variant=var)
    f = sure(a, "listing") or sure(b, "listing")
    if not f and a.out.strip() not in b.out:
        f = "-v %d changes the output of %s" % (c["v"], " ".join(map(str, args)))
    return f, c["kind"]


def shrink(c):
    for k, x in (("asan", False), ("ps", 1), ("src", "gen"), ("k", 0), ("ts", 10), ("g", 205), ("S", 1), ("first", False), ("v", 1)):
        if c[k] != x and not (k == "v" and c["t"] == 12):
            yield dict(c, **{k: x})
