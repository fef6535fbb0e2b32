import os
import numpy as np
from vlib import appseq
from vlib.lib import Lib, in_child
from vlib.cli import dh, rows, ROWFLAGS, T

PROP = "C17"
TECHNIQUE = "metamorphic and stateful property testing: repeated runs under varied environment, and generated histories of tests under each reseeding strategy"
NOTE = ("Oracles: equality of result rows between runs that differ only in environment, working directory, option order, display flags and heap "
        "contents (MALLOC_PERTURB_); equality with a rerun using the reported seed; for histories of several tests the library run on one continuing "
        "(strategy 0) or freshly seeded (other strategies) generator. Histories run the program's own option parsing, generator choice and test loop.")
RULE = ("case kinds: env (two runs), strat (s=0 vs s=1 vs s=2 for a single test), noseed (random seed reported and replayed), seq (2-6 tests in one process, "
        "strategy 0/1/2, seed given or random, built-in generator or raw file). All non-trivial; classes by kind and strategy.")
CASES = dict(quick=2600, thorough=60000)
TIMEOUT = 120
CHEAP = [t for t in appseq.STD if t not in appseq.SLOW and t != 210]
GENS = [14, 13, 205, 206, 208, 209, 204, 203, 22, 6, 12, 16, 20, 41, 52, 56, 400, 401, 402, 403, 404, 405, 0, 23, 39, 43, 60]
NARROW = [16, 41, 0, 12, 20, 23, 39]
NTS = {200: [1, 2, 3, 4, 5, 6, 7, 8], 201: [2, 3, 4, 5], 202: [2, 3, 4, 5], 203: [0, 1, 2, 5, 9]}
NO31 = (17,)
WS = ROWFLAGS


def setup(ctx):
    ctx.lib = Lib(ctx.b()["lib"])


def pick(R):
    t = R.choice(CHEAP + [4, 7, 12, 210, 201, 200, 202, 203])
    if t in (4, 7, 12, 210) and R.random() < .7:
        t = R.choice(CHEAP)
    return [t, R.choice(NTS.get(t, [0]))]


def gen(R, i, tier):
    k = R.choice(["env", "env", "env", "strat", "noseed", "seq", "seq", "seq"])
    c = {"k": k, "g": R.choice(GENS), "S": R.choice([R.randint(1, 2**32 - 1), R.randint(1, 2**31 - 1), R.randint(1, 1000)]), "cs": R.getrandbits(30)}
    if k == "seq":
        seq = []
        for _ in range(R.randint(2, 6)):
            p = pick(R)
            if p[0] not in [q[0] for q in seq]:
                seq.append(p)
        if R.random() < .3:
            seq = [q for q in seq if q[0] != 200] + [[200, n] for n in range(1, R.randint(3, 8))]
        c["seq"], c["s"] = seq, R.choice([0, 1, 1, 2])
        c["seed"] = R.choice(["given", "given", "random"])
        c["file"] = R.random() < .2
        c["rate"] = R.random() < .2
    else:
        c["t"] = pick(R)
        c["s"] = R.choice([0, 0, 1])
        c["ps"] = R.choice([1, 2, 3])
        c["tsx"] = R.choice([1, 1, 2])
    if c["g"] in NARROW:
        c["g"] = R.choice([14, c["g"]])
    return c


def args_for(c, t, nt):
    ts = appseq.STD[t][0] * c["tsx"]
    a = [["-d", t], ["-t", ts], ["-p", c["ps"] if t not in appseq.SLOW else 1], ["-s", c["s"]], ["-g", c["g"]], ["-D", WS], ["-c", "|"]]
    if nt:
        a.append(["-n", nt])
    return a


def flat(a):
    return [str(x) for p in a for x in p]


def seedline(out, s):
    """seed shown in the generator line (s=0) or in the result rows (s!=0)"""
    if s == 0:
        for l in out.splitlines():
            f = l.split("|")
            if len(f) == 3 and f[2] == "" and f[1].isdigit():
                return int(f[1])
    else:
        for l in out.splitlines():
            f = l.split("|")
            if len(f) == 6 and f[5].strip().isdigit():
                return int(f[5])
    return None


def rows2(out):
    """rows with an optional sixth (seed) column"""
    r = []
    for l in out.splitlines():
        f = [x.strip() for x in l.split("|")]
        if len(f) in (5, 6) and f[1].isdigit() and f[2].isdigit():
            r.append((tuple(f[:5]), int(f[5]) if len(f) == 6 and f[5].isdigit() else None))
    return r


def run(c, ctx):
    L = ctx.lib
    k = c["k"]
    d = os.path.join(ctx.scratch, "w%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    if k != "seq":
        import random
        R = random.Random(c["cs"])
        t, nt = c["t"]
        base = args_for(c, t, nt)
        if k == "env":
            a1 = base + [["-S", c["S"]]]
            r1 = dh(ctx, flat(a1), cwd=d)
            a2 = list(a1)
            R.shuffle(a2)
            extra = R.sample([["-D", "header"], ["-D", "show_rng"], ["-D", "rate"], ["-D", "histogram"], ["-D", "description"], ["-D", "assessment"],
                              ["-D", "line_header"], ["-W", "0.2"], ["-X", "0.1"], ["-i", "5"]], R.randint(0, 4))
            a2 += extra
            if any(e == ["-D", "line_header"] for e in extra):
                pass
            d2 = os.path.join(d, "x" * R.randint(1, 40))
            os.makedirs(d2, exist_ok=True)
            env = {"MALLOC_PERTURB_": str(R.randint(1, 255)), "TZ": R.choice(["UTC", "America/New_York", "Asia/Tokyo"]), "JUNK": "y" * R.randint(0, 5000),
                   "LC_ALL": R.choice(["C", "POSIX", "C.UTF-8"]), "HOME": R.choice(["/", d])}
            r2 = dh(ctx, flat(a2), cwd=d2, env=env, stdin=b"12345" * R.randint(0, 9))
            g1, g2 = [x[0] for x in rows2(r1.out)], [x[0] for x in rows2(r2.out)]
            if r1.rc != r2.rc or r1.timeout != r2.timeout or g1 != g2:
                return "same run, different environment: rc %s/%s rows %s / %s  [%s] [%s] env %s" % (
                    r1.rc, r2.rc, g1[:4], g2[:4], " ".join(flat(a1)), " ".join(flat(a2)), {q: v[:20] for q, v in env.items()}), "x"
            return None, "env"
        if k == "strat":
            out = []
            for s in (0, 1, 2):
                r = dh(ctx, flat([p for p in base if p[0] != "-s"]) + ["-s", s, "-S", c["S"]], cwd=d)
                out.append((r.rc, rows(r.out)))
            if not (out[0] == out[1] == out[2]):
                return "a single test from seed %d depends on the strategy: %s [%s]" % (c["S"], [o[1][:2] for o in out], " ".join(flat(base))), "x"
            return None, "strat"
        # noseed
        b2 = [p for p in base if p[0] != "-D"] + [["-D", WS + T["seed"] + T["show_rng"]]]
        seeds = []
        for _ in range(2):
            r1 = dh(ctx, flat(b2), cwd=d)
            sd = seedline(r1.out, c["s"])
            if r1.rc != 0:
                return None, None
            if sd is None:
                return "no seed reported: %r" % r1.out[:300], "x"
            seeds.append(sd)
        if seeds[0] == seeds[1]:
            return "two runs without a seed both used seed %d" % seeds[0], "x"
        if not 0 < sd < 2**32:
            return "random seed %d" % sd, "x"
        r2 = dh(ctx, flat(b2) + ["-S", sd], cwd=d)
        if r1.out != r2.out:
            return "rerun with the reported seed %d differs:\n%s\n%s" % (sd, r1.out, r2.out), "x"
        return None, "noseed-s%d" % c["s"]
    # ---- histories
    if not appseq.available(L):
        return None, None
    a = ["-s", c["s"], "-D", WS + T["seed"] + (T["rate"] if c["rate"] and not c["file"] else 0), "-c", "|"]
    if c["file"]:
        fn = os.path.join(d, "s.bin")
        w = np.random.RandomState(c["cs"]).randint(0, 2**32, 200000, dtype=np.uint64).astype("<u4")
        w.tofile(fn)
        a += ["-g", 201, "-f", fn]
    else:
        a += ["-g", c["g"]]
    if c["seed"] == "given":
        a += ["-S", c["S"]]
    elif c["s"] == 0 and not c["file"]:
        a = a[:3] + [WS + T["seed"] + T["show_rng"]] + a[4:]
    a.append("-a")
    out = appseq.run(L, d, a, c["seq"], appseq.STD)
    if out is None:
        return "history died [%s] %s" % (" ".join(map(str, a)), c["seq"]), "x"
    got = rows2(out)
    seed = c["S"] if c["seed"] == "given" else None
    if seed is None and c["s"] == 0 and not c["file"]:
        seed = seedline(out, 0)
        if seed is None:
            return "no seed reported: %r" % out[:300], "x"

    def fresh(sd):
        if c["file"]:
            L.use(w, 32)
            L.l.vf_set_unit_scale()
        else:
            L.use_gen(c["g"], sd)

    def one(t, nt):
        ts, ps = appseq.STD[t]
        r = L.run_test(t, ts, ps, nt, std=True)
        return [(str(r["ntuple"][j]), str(r["tsamples"][j]), str(ps), "%.8f" % r["ks"][j]) for j in range(len(r["ks"]))]

    exp = []
    pos = 0
    if c["s"] == 0:
        def lib():
            fresh(seed)
            return [one(t, nt) for t, nt in c["seq"]]
        exp = in_child(lib)
        if exp is None:
            return None, None
        seeds = None
    else:
        seen = []
        for t, nt in c["seq"]:
            nk = L.l.vf_nkps(t)
            sd = seed
            if sd is None:
                if pos >= len(got):
                    return "too few rows: %r" % out[:300], "x"
                sd = got[pos][1]
                if sd is None:
                    return "no seed in the result rows: %r" % out[:300], "x"
                seen.append(sd)

            def lib():
                fresh(sd)
                return one(t, nt)
            e = in_child(lib)
            if e is None:
                return None, None
            exp.append(e)
            for j in range(pos, min(pos + nk, len(got))):
                if got[j][1] != sd:
                    return "row %d shows seed %s, the test was seeded with %s" % (j, got[j][1], sd), "x"
            pos += nk
        if len(seen) > 1 and len(set(seen)) != len(seen):
            return "random reseeding repeated a seed: %s" % seen, "x"
    want = [x for e in exp for x in e]
    have = [r[0][1:] for r in got]
    if have != want:
        j = next((j for j in range(min(len(have), len(want))) if have[j] != want[j]), min(len(have), len(want)))
        return "history %s strategy %d: row %d is %s, expected %s [%s]" % (c["seq"], c["s"], j, have[j:j + 1], want[j:j + 1], " ".join(map(str, a))), "x"
    return None, "seq-s%d%s%s" % (c["s"], "-file" if c["file"] else "", "-random" if c["seed"] == "random" else ""), {"evals": len(want)}


def shrink(c):
    if c["k"] == "seq":
        if len(c["seq"]) > 1:
            for j in range(len(c["seq"])):
                yield dict(c, seq=c["seq"][:j] + c["seq"][j + 1:])
        if c["file"]:
            yield dict(c, file=False)
        if c["rate"]:
            yield dict(c, rate=False)
        if c["seed"] != "given":
            yield dict(c, seed="given")
    for k, v in (("S", 1), ("g", 14), ("ps", 1), ("tsx", 1)):
        if k in c and c[k] != v:
            yield dict(c, **{k: v})
    if "t" in c and c["t"] != [100, 0]:
        yield dict(c, t=[100, 0])
