import os
import numpy as np
from vlib.lib import Lib, in_child
from vlib.cli import dh, T

PROP = "C13"
TECHNIQUE = "model-based property testing: a line-by-line model of the whole report over generated display flags, separators and runs"
NOTE = ("Oracle: an independent layout model (which sections and columns appear, in which order) filled with values computed by running the "
        "same test on the same generator and seed through the library; whitespace padding is not compared.")
RULE = ("case = (flag subset spelled as names and/or numbers, separator, strategy, seed given or random, generator or raw file, test, ntuple, "
        "sample counts). Non-trivial: at least one section or column selected; classes by number of p-values and special sections.")
CASES = dict(quick=4000, thorough=80000)
TIMEOUT = 60
TESTS = [(0, 0, 30), (1, 0, 2000), (2, 0, 60), (3, 0, 60), (8, 0, 300), (9, 0, 300), (13, 0, 60), (14, 0, 60), (15, 0, 400), (16, 0, 200), (17, 0, 2000),
         (100, 0, 60), (101, 0, 60), (102, 0, 300), (200, 2, 30), (200, 5, 30), (201, 2, 50), (201, 3, 50), (202, 3, 50), (202, 5, 100), (203, 0, 50),
         (203, 4, 50), (204, 0, 30), (205, 0, 50), (206, 0, 60), (207, 0, 60), (208, 0, 60), (209, 0, 300), (209, 12, 600)]
GENS = [14, 13, 205, 206, 208, 41, 0, 22, 60, 16, 402, 401, 403, 27]
DEFAULT = ["header", "show_rng", "line_header", "test_name", "ntuple", "tsamples", "psamples", "pvalues", "assessment", "rate", "seed"]
NAMES = list(T)
NUM = [T[n] for n in NAMES]


def setup(ctx):
    ctx.lib = Lib(ctx.b()["lib"])


def gen(R, i, tier):
    mode = R.choice(["names", "names", "sum", "mix", "defplus", "none", "def"])
    k = R.choice([1, 2, 3, R.randint(1, 18), R.randint(4, 18), 18])
    fl = R.sample(NAMES, k)
    strat = R.choice([0, 0, 1, 2])
    S = R.choice([R.randint(1, 2**31), R.randint(1, 2**32 - 1), 1, R.randint(1, 10**6), None])
    sep = R.choice([None, None] + list("|,;:!@~^_/ \t.#0aE-"))
    src = R.choice(["gen", "gen", "gen", "file"])
    if S is None:
        # the random seed has to be readable from the report
        sep = R.choice([None, "|", ",", ";", "!"])
        src = "gen"
        fl = [f for f in fl if f != "psample_values"]
        for f in ("seed",) + (() if strat else ("show_rng",)):
            if f not in fl:
                fl.append(f)
    if mode == "defplus":
        fl = [f for f in fl if f not in DEFAULT]
    D = []
    if mode == "names":
        D = fl
    elif mode == "sum":
        D = [str(sum(T[f] for f in fl))]
    elif mode == "mix":
        D = [f if R.random() < .5 else str(T[f]) for f in fl]
    elif mode == "defplus":
        D = [R.choice(["0", "default"])] + [f if R.random() < .5 else str(T[f]) for f in fl]
        if len(D) == 1:
            D = ["0"]
        fl = DEFAULT + fl
    else:
        fl = list(DEFAULT)
        D = [] if mode == "none" else [R.choice(["0", "default"])]
    t = R.choice(TESTS)
    c = {"D": D, "flags": fl, "sep": sep, "test": t[0], "nt": t[1],
         "ts": R.choice([t[2], t[2] + R.randint(0, t[2])]), "ps": R.choice([1, 2, 3, R.randint(1, 12), 12]), "s": strat,
         "S": S, "g": R.choice(GENS), "src": src,
         "cs": R.getrandbits(30), "byname": R.random() < .2, "rep": 1}
    if c["test"] == 100 and R.random() < .15:      # wide numbers in the count columns
        if R.random() < .4:
            c.update(ts=R.choice([10**7 + R.randint(0, 9), 2**24 + R.randint(0, 10**6)]), ps=1, src="gen", g=R.choice([13, 14, 22]))
        else:
            c.update(ts=R.randint(100, 300), ps=R.choice([100, 101, 128, 256, 257, R.randint(100, 400)]))
    if c["test"] in (1, 8, 17) and c["ps"] > 3:
        c["ps"] = 3
    return c


def squash(s):
    return "".join(s.split())


def model(c, lib, ks, pv, nt, ts, seed, fname, lines, ctx):
    """walk over the output lines; returns an error text or None"""
    F = set(c["flags"])
    sep = c["sep"] or "|"
    out = "\n".join(lines)
    pos = [0]

    def take():
        if pos[0] >= len(lines):
            raise ValueError("output ends early")
        pos[0] += 1
        return lines[pos[0] - 1]

    def cmp(line, fields, trail, what):
        e = sep.join(fields) + (sep if trail and fields else "")
        if squash(line) != squash(e):
            raise ValueError("%s is %r, expected %r" % (what, line, e))
        if sep not in "".join(fields) and not sep.isspace() and line.count(sep) != e.count(sep):
            raise ValueError("%s has wrong number of separators: %r" % (what, line))
        if sep == "\t" and line.count(sep) != e.count(sep):
            raise ValueError("%s has wrong number of separators: %r" % (what, line))
        if "no_whitespace" in F and what == "result row" and not sep.isspace():
            if [x.strip() for x in line.split(sep)] and line != e and line.replace(" ", "") != e:
                raise ValueError("%s is %r" % (what, line))

    def bar():
        l = take()
        if not l.startswith("#==="):
            raise ValueError("expected a rule line, got %r" % l)

    def headings():
        if "header" in F:
            bar()
        f = ["0"] if "prefix" in F else []
        for k, v in (("test_name", "test_name"), ("show_num", "num"), ("ntuple", "ntup"), ("tsamples", "tsamples"), ("psamples", "psamples"),
                     ("pvalues", "p-value"), ("assessment", "Assessment")):
            if k in F:
                f.append(v)
        if "seed" in F and c["s"]:
            f.append("Seed")
        cmp(take(), f, False, "heading line")
        if "header" in F:
            bar()
    try:
        if "header" in F:
            bar()
            if "dieharder version" not in take():
                raise ValueError("no version header")
            bar()
        if "show_rng" in F:
            sd = "seed" in F and c["s"] == 0 and not fname
            if "line_header" in F:
                f = (["0"] if "prefix" in F else []) + ["rng_name"] + (["num"] if "show_num" in F else []) + (["filename"] if fname else []) + (
                    ["rands/second"] if "rate" in F else []) + (["Seed"] if sd else [])
                cmp(take(), f, True, "generator heading")
            l = take()
            f = (["1"] if "prefix" in F else []) + [lib["rname"]] + ([str(lib["rnum"])] if "show_num" in F else []) + ([fname] if fname else [])
            if "rate" in F:
                # the only value that cannot be predicted: a positive number in %e form
                import re
                pre, post = squash(sep.join(f) + sep), squash(sep + (str(seed) + sep if sd else ""))
                q = squash(l)
                if not (q.startswith(pre) and q.endswith(post)):
                    raise ValueError("generator line is %r, expected %r RATE %r" % (l, pre, post))
                mid = q[len(pre):len(q) - len(post) if post else None]
                if not re.fullmatch(r"\d\.\d\de[+-]\d\d+|inf", mid):
                    raise ValueError("rate shown as %r" % mid)
            else:
                cmp(l, f + ([str(seed)] if sd else []), True, "generator line")
        if "line_header" in F and "histogram" not in F:
            headings()
        if fname and "file_rng_stat" in F:
            if not take().startswith("# The"):
                raise ValueError("no usage line")
            if pos[0] < len(lines) and lines[pos[0]].startswith("# The file") and "rewound 0" in lines[pos[0]]:
                take()
        if "description" in F:
            d = lib["desc"]
            rest = "\n".join(lines[pos[0]:])
            if not rest.startswith(d):
                raise ValueError("description missing: %r" % rest[:100])
            pos[0] += d.count("\n")
            if not d.endswith("\n"):
                lines[pos[0]] = lines[pos[0]][len(d.split("\n")[-1]):]
        for j in range(len(ks)):
            if "histogram" in F:
                bar()
                if "Histogram" not in take():
                    raise ValueError("histogram missing")
                bar()
                for _ in range(23):
                    if not take().startswith("#"):
                        raise ValueError("histogram damaged")
                bar()
                if "line_header" in F:
                    headings()
            p = "%10.8f" % ks[j]
            f = ["2"] if "prefix" in F else []
            if "test_name" in F:
                f.append(lib["sname"] if "no_whitespace" in F else lib["sname"][:20])
            if "show_num" in F:
                f.append(str(c["test"]))
            if "ntuple" in F:
                f.append(str(nt[j]))
            if "tsamples" in F:
                f.append(str(ts))
            if "psamples" in F:
                f.append(str(c["ps"]))
            if "pvalues" in F:
                f.append(p)
            if "assessment" in F:
                x = min(ks[j], 1 - ks[j])
                f.append("FAILED" if x < 1e-6 else "WEAK" if x < 0.005 else "PASSED")
            if "seed" in F and c["s"]:
                f.append(str(seed))
            cmp(take(), f, False, "result row")
            if "psample_values" in F:
                bar()
                if "Values" not in take():
                    raise ValueError("p-value list heading missing")
                bar()
                got = []
                for _ in range(c["ps"]):
                    l = take()
                    l2 = squash(l)
                    got.append(squash(l2[len(squash(sep)):len(l2) - len(squash(sep))]))
                if sorted(got) != sorted("%10.8f" % x for x in pv[j]):
                    raise ValueError("listed p-values %s, computed %s" % (got[:5], sorted(pv[j])[:5]))
                bar()
                if take() != "":
                    raise ValueError("unexpected text after the p-value list")
        if pos[0] != len(lines) - 1 or lines[-1] != "":
            raise ValueError("extra output %r" % lines[pos[0]:pos[0] + 2])
    except ValueError as e:
        return str(e)
    return None


def run(c, ctx):
    L = ctx.lib
    g = c["g"]
    d = os.path.join(ctx.scratch, "w%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    fname = None
    a = []
    for x in c["D"]:
        a += ["-D", x]
    if c["sep"] is not None:
        a += ["-c", c["sep"]]
    a += ["-d", L.l.vf_sname(c["test"]).decode() if c["byname"] else c["test"], "-t", c["ts"], "-p", c["ps"], "-s", c["s"]]
    if c["nt"]:
        a += ["-n", c["nt"]]
    if c["S"]:
        a += ["-S", c["S"]]
    if c["src"] == "file":
        g = 201
        fname = os.path.join(d, "raw.bin")
        w = np.random.RandomState(c["cs"]).randint(0, 2**32, 300000, dtype=np.uint64).astype("<u4")
        w.tofile(fname)
        a += ["-f", fname]
    a += ["-g", g]
    r = dh(ctx, a, cwd=d)
    if r.timeout or r.rc != 0:
        return "run failed: rc %s %s" % (r.rc, r.err[:300]), "x"
    lines = r.out.split("\n")
    F = set(c["flags"])
    seed = c["S"]
    if seed is None:
        # the seed drawn by the program is read from the place where the report must show it
        sp = c["sep"] or "|"
        if fname or "seed" not in F or (c["s"] == 0 and "show_rng" not in F) or (c["s"] and "psample_values" in F):
            return None, None
        if c["s"] == 0:
            cand = [l.split(sp)[-2] for l in lines if l.endswith(sp) and len(l.split(sp)) >= 3 and L.l.vf_rng_name(g).decode() in l]
        else:
            cand = [l.split(sp)[-1] for l in lines if l][-1:]
        if not cand or not cand[0].strip().isdigit():
            return "the random seed is not shown: %r  [%s]" % (r.out[-300:], " ".join(map(str, a))), "x"
        seed = int(cand[0])

    def lib():
        if fname:
            L.use(w, 32)
            L.l.vf_set_unit_scale()
        else:
            L.use_gen(g, seed)
        return L.run_test(c["test"], c["ts"], c["ps"], c["nt"], std=True)
    e = in_child(lib)
    if e is None:
        return "test died in the library", "x"
    info = {"rname": L.l.vf_rng_name(g).decode(), "rnum": g, "sname": L.l.vf_sname(c["test"]).decode(), "desc": L.l.vf_desc(c["test"]).decode("latin1")}
    m = model(c, info, e["ks"], e["pv"], e["ntuple"], int(e["tsamples"][0]), seed, fname, lines, ctx)
    if m:
        return "%s  [%s]" % (m, " ".join(map(str, a))), "x"
    lab = "file" if fname else "gen"
    if len(e["ks"]) > 1:
        lab += "-multi"
    if F & {"histogram", "psample_values", "description"}:
        lab += "-sections"
    return None, lab


def shrink(c):
    if len(c["D"]) > 1 and c["D"][0] not in ("0", "default"):
        for k in range(len(c["D"])):
            x = c["D"][k]
            nm = x if x in T else NAMES[NUM.index(int(x))] if x.isdigit() and int(x) in NUM else None
            if nm:
                yield dict(c, D=c["D"][:k] + c["D"][k + 1:], flags=[f for f in c["flags"] if f != nm])
    for k, v in (("src", "gen"), ("test", 100), ("nt", 0), ("sep", None), ("byname", False), ("ps", 1), ("S", 1), ("g", 14), ("s", 0)):
        if c[k] != v:
            yield dict(c, **{k: v})
    if c["ts"] > 4 and c["test"] == 100:
        yield dict(c, ts=4)
