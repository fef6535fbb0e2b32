import os
import numpy as np
from vlib import appseq
from vlib.lib import Lib, in_child
from vlib.cli import dh, ROWFLAGS, T

PROP = "C25"
TECHNIQUE = "model-based property testing: the whole battery under generated options against a schedule model and the individually run tests"
NOTE = ("Oracle: the documented schedule (every registered test ascending; bit distribution n=1..12, minimum distance 2..5, permutations 2..5, lagged sums "
        "0..32, a requested ntuple instead of the range) and, row by row, the library result of that test alone on a fresh (per-test restart) or "
        "continuing generator. Most cases run the program's own battery loop with reduced standard sample counts; at least one runs the real executable "
        "with -a and the standard counts.")
RULE = ("case = (generator or file, seed, strategy, multiplier, ignored -t/-p, optional ntuple, reduced standard counts). Non-trivial: a complete battery "
        "compared; classes by strategy, source and real/reduced.")
CASES = dict(quick=160, thorough=1500)
TIMEOUT = 400
GENS = [14, 13, 205, 206, 208, 209, 22, 16, 41, 6, 56, 403, 402, 204]


def setup(ctx):
    ctx.lib = Lib(ctx.b()["lib"])


def gen(R, i, tier):
    real = i == 0 or (tier == "thorough" and i % 100 == 0)
    c = {"real": real, "g": R.choice(GENS), "S": R.randint(1, 2**31), "s": R.choice([0, 1, 1, 2]), "m": R.choice([None, None, 0.5, 1.5, 0.001, 2]),
         "t": R.choice([None, None, 10, 500]), "p": R.choice([None, None, 1, 7]), "n": R.choice([None] * 6 + [1, 2, 3, 5, 6, 7]), "file": R.random() < .15,
         "cs": R.getrandbits(30), "drop": [x for x in (4, 5, 6, 7, 10, 11, 12) if R.random() < .5], "tsx": R.choice([1, 1, 2]), "hist": R.random() < .1, "psx": R.choice([1, 1, 1, 2, 3])}
    if real:
        c.update(g=14, s=1, n=None, file=False, m=0.0001, drop=[], t=None, p=None)
    return c


def schedule(c, L, std):
    out = []
    for t in range(1000):
        if L.l.vf_nkps(t) < 0 or std.get(t, (1, 1))[0] == 0:
            continue
        n = c["n"]
        if t == 200:
            r = [n] if n else range(1, 13)
        elif t == 201:
            r = [n if 2 <= n <= 5 else 5] if n else range(2, 6)
        elif t == 202:
            r = [n if n >= 2 else 5] if n else range(2, 6)
        elif t == 203:
            r = [n] if n else range(0, 33)
        else:
            r = [n or 0]
        out += [(t, x) for x in r]
    return out


def parse(out):
    r = []
    for l in out.splitlines():
        f = [x.strip() for x in l.split("|")]
        if len(f) == 5 and f[1].isdigit() and f[2].isdigit():
            r.append(tuple(f))
    return r


def run(c, ctx):
    L = ctx.lib
    d = os.path.join(ctx.scratch, "w%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    a = ["-a", "-s", c["s"], "-D", ROWFLAGS + (T["histogram"] if c["hist"] else 0), "-c", "|", "-S", c["S"]]
    if c["file"]:
        fn = os.path.join(d, "s.bin")
        w = np.random.RandomState(c["cs"]).randint(0, 2**32, 400000, dtype=np.uint64).astype("<u4")
        w.tofile(fn)
        a += ["-g", 201, "-f", fn]
    else:
        a += ["-g", c["g"]]
    for k in "mtpn":
        if c[k] is not None:
            a += ["-" + k, c[k]]
    m = 1.0 if c["m"] is None else c["m"]
    if c["real"]:
        std = {}
        r = dh(ctx, a, cwd=d, timeout=300)
        if r.timeout or r.rc != 0:
            return "battery failed: rc %s timeout %s %s" % (r.rc, r.timeout, r.err[:300]), "x"
        out = r.out
    else:
        if not appseq.available(L):
            return None, None
        std = {t: (ts * (c["tsx"] if t not in appseq.SLOW else 1), ps * (c["psx"] if t not in appseq.SLOW else 1)) for t, (ts, ps) in appseq.STD.items()}
        for t in c["drop"]:
            std[t] = (0, 0)
        if c["n"]:
            std[207] = std[208] = std[206] = (0, 0)      # ntuples other than the default are not supported there
            if c["n"] > 5:
                std[202] = (0, 0)
        out = appseq.run(L, d, a, None, std)
        if out is None:
            return "battery died [%s]" % " ".join(map(str, a)), "x"
    got = parse(out)
    sched = schedule(c, L, std)

    def fresh():
        if c["file"]:
            L.use(w, 32)
            L.l.vf_set_unit_scale()
        else:
            L.use_gen(c["g"], c["S"])

    def one(t, nt):
        ts, ps = std.get(t) or (L.l.vf_tstd(t), L.l.vf_pstd(t))
        ps = max(1, int(ps * m))
        r = L.run_test(t, ts, ps, nt, std=True)
        nm = L.l.vf_sname(t).decode()
        return [(nm, str(r["ntuple"][j]), str(r["tsamples"][j]), str(ps), "%.8f" % r["ks"][j]) for j in range(len(r["ks"]))]
    if c["s"] == 0:
        def lib():
            fresh()
            return [x for t, nt in sched for x in one(t, nt)]
        exp = in_child(lib)
    else:
        exp = []
        for t, nt in sched:
            def lib():
                fresh()
                return one(t, nt)
            e = in_child(lib)
            exp = None if e is None or exp is None else exp + e
    if exp is None:
        return None, None
    if got != exp:
        j = next((j for j in range(min(len(got), len(exp))) if got[j] != exp[j]), min(len(got), len(exp)))
        return "battery row %d is %s, expected %s (%d/%d rows) [%s]" % (j, got[j:j + 1], exp[j:j + 1], len(got), len(exp), " ".join(map(str, a))), "x"
    return None, ("real" if c["real"] else "reduced") + "-s%d" % c["s"] + ("-file" if c["file"] else "") + ("-n" if c["n"] else ""), {"evals": len(exp)}


def shrink(c):
    for k, v in (("n", None), ("m", None), ("t", None), ("p", None), ("file", False), ("hist", False), ("S", 1), ("g", 14), ("tsx", 1), ("psx", 1), ("drop", [4, 5, 6, 7, 10, 11, 12])):
        if c[k] != v and not c["real"]:
            yield dict(c, **{k: v})
