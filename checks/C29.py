import os
import re
import struct
from vlib.lib import Lib
from vlib.cli import dh, T

PROP = "C29"
TECHNIQUE = "metamorphic property testing over generated command lines (reordered, respelled, repeated, defaults spelled out) and of information requests"
NOTE = ("Oracle: the report, or the written stream, of one canonical spelling of the same command line; for information requests the output of the bare "
        "request, the table of test titles and output flags of this version, and the absence of result rows and written files. Reports are compared "
        "without the version header and rate column. Options whose order is meaningful (-v, -V, repeated -g/-S, -D default) keep their relative order.")
RULE = ("case kinds: order (an option set in two generated orders and spellings, some options repeated with an overridden value first, documented "
        "defaults added), info (an information request among options of a run). Non-trivial: the two command lines differ. Classes by kind.")
CASES = dict(quick=5000, thorough=60000)
TIMEOUT = 90
RUNS = [(0, 0, 30), (1, 0, 600), (2, 0, 20), (3, 0, 60), (8, 0, 200000), (9, 0, 200000), (13, 0, 200), (14, 0, 60), (15, 0, 400), (16, 0, 200), (17, 0, 6000),
        (100, 0, 60), (101, 0, 60), (102, 0, 300), (200, 3, 500), (201, 2, 50), (202, 3, 400), (203, 4, 50), (204, 0, 30), (205, 0, 5000), (206, 0, 60),
        (207, 0, 60), (208, 0, 60), (209, 12, 300)]
# a title only that test's synopsis carries in its first lines
TITLE = {0: 'Diehard "Birthdays" test', 1: "OPERM5|5-Permutations", 2: "32x32 Binary Rank", 3: "6x8 Binary Rank", 4: "Bitstream", 5: "OPSO", 6: "OQSO", 7: "DNA Test",
         8: r"Count the 1s \(stream\)", 9: r"Count the 1s Test \(byte\)", 10: "Parking Lot", 11: "2d Circle", 12: "3d Sphere", 13: "Squeeze", 14: "Sums Test",
         15: "Runs Test", 16: "Craps", 17: "(GCD|Greatest Common Divisor)", 100: "Monobit", 101: "STS Runs", 102: "Serial", 200: "Bit Distribution",
         201: "MINIMUM DISTANCE", 202: "Permutations", 203: "Lagged Sum", 204: "Kolmogorov-Smirnov", 205: "Byte Distribution", 206: "DCT", 207: "Fill Tree Test",
         208: "Fill Tree 2", 209: "Monobit 2", 210: 'Birthdays', 211: "OPSO"}
FLAGS = [(0, "default")] + [(v, k) for k, v in T.items()]
ROWISH = re.compile(r"\|\s*(PASSED|WEAK|FAILED)|^\w+\|\s*\d+\|", re.M)


def setup(ctx):
    ctx.lib = Lib(ctx.b()["lib"])
    ctx.n = 0


def gen(R, i, tier):
    t, n, ts = R.choice(RUNS)
    o = [["d", t], ["t", R.randint(max(10, ts // 2), ts)], ["p", R.randint(1, 4)]]
    if n:
        o.append(["n", n])
    src = R.choice(["one", "one", "one", "xor", "file", "default"])
    if src == "one":
        o += [["g", R.choice([205, 206, 14, 13, 208, 41, 402, 22])], ["S", R.randint(1, 2**32 - 1)]]
    elif src == "default":
        o += [["S", R.randint(1, 2**31)]]
    elif src == "xor":
        o += [["g", 207]] + [["g", g] for g in R.sample([205, 206, 14, 13, 208, 41], R.randint(1, 3))]
        o += [["S", R.randint(1, 2**31)] for _ in range(R.randint(1, 3))]
    else:
        o += [["g", 201], ["f", "@raw"]]
    if R.random() < .5:
        o.append(["k", R.choice([0, 1, 3]) if t == 206 else R.randint(0, 3)])      # the exact KS of 206's fifteen thousand values takes minutes
    if R.random() < .3:
        o.append(["s", R.choice([0, 1, 2])])
    if R.random() < .3:
        o += [["W", R.choice([0.05, 0.2, 0.4])], ["X", R.choice([0.0001, 0.001, 0.01])]]     # not 0: that is the listed endless-restart finding of C15
    if R.random() < .4 and t in (2, 100, 101, 202, 203, 204, 14, 15):
        o += [["Y", R.choice([1, 2])], ["P", R.choice([50, 150])], ["t", o[1][1]]]
    if R.random() < .3:
        o.append(["c", R.choice([",", ";", ":", " "])])
    if R.random() < .3:
        o.append(["L", R.choice([0, 1])])
    if R.random() < .2:
        o.append(["m", R.choice([0.5, 1, 2])])
    c = {"o": o, "seed": R.randint(0, 2**30), "file": R.randint(1, 2**31), "src": src}
    r = R.random()
    if r < .12:
        c["kind"] = "info"
        c["what"] = R.choice(["h", "V", "l", "F", "dh", "dh", "dh", "ah", "bad", "stray", "none", "glist", "badval"])
        c["test"] = R.choice(list(TITLE))
        c["bad"] = R.choice(["-j", "-q", "-Q", "-e", "-b", "-E", "-r", "-u", "-A", "-?", "-1", "--help", "--version", "-xx=j" if 0 else "-w"])
        c["stray"] = R.choice(["foo", "15", "-", "all", "diehard_runs", "x y"])
        return c
    c["kind"] = "order"
    c["out"] = R.random() < .2
    c["rep"] = R.random() < .5
    c["defs"] = R.sample([["k", 0], ["L", 1], ["m", 1], ["n", 0], ["W", .005], ["X", "0.000001"], ["P", 100000], ["Y", 0], ["s", 0], ["c", "|"], ["g", 13], ["O", 1],
                          ["L", "1"], ["W", "5e-3"], ["X", "1e-6"]], R.randint(0, 5)) if R.random() < .6 else []
    fl = R.sample([k for k in T if k not in ("header", "rate", "file_rng_stat", "seed" if src == "file" else "")], R.randint(1, 8))
    if R.random() < .7:
        fl += [f for f in ("test_name", "pvalues", "psamples", "tsamples", "assessment") if f not in fl]
    c["D"] = [[f, R.choice(["name", "num"])] for f in fl]
    c["O"] = R.choice([0, 1, 2])
    return c


OVER = {"t": 77, "p": 9, "n": 1, "k": 3, "Y": 2, "s": 5, "L": 0, "W": 0.3, "X": 0.2, "P": 7, "c": "!", "m": 3, "d": 101, "f": "/nonexistent/file", "O": 0}


def spell(R, opts):
    """one argv for the option list: shuffled (options of the same letter keep their order), values attached or separate"""
    idx = list(range(len(opts)))
    R.shuffle(idx)
    byl = {}
    for o in opts:
        byl.setdefault(o[0], []).append(o)
    argv = []
    for j in idx:
        o = byl[opts[j][0]].pop(0)
        if len(o) == 1:
            argv.append("-" + o[0])
        elif R.random() < .5 and str(o[1]) != "":
            argv.append("-%s%s" % (o[0], o[1]))
        else:
            argv += ["-" + o[0], str(o[1])]
    return argv


def run(c, ctx):
    import random
    R = random.Random(c["seed"])
    d = os.path.join(ctx.scratch, "c%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    raw = os.path.join(d, "raw")
    x, b = c["file"], []
    for _ in range(20011 if c["src"] == "file" else 1):
        x = (x * 6364136223846793005 + 1442695040888963407) & (2**64 - 1)
        b.append(x >> 32)
    with open(raw, "wb") as f:
        f.write(struct.pack("<%dI" % len(b), *b))
    opts = [[o[0], raw if o[1] == "@raw" else o[1]] for o in c["o"]]
    if c["kind"] == "info":
        return info(c, ctx, R, d, opts), c["what"]
    if c["out"] and c["src"] != "file":
        opts = [o for o in opts if o[0] not in "dkcWXYPLmp"] + [["o"], ["O", c["O"]], ["f", "@out"]]
    else:
        opts += [["D", f if s == "name" else T[f]] for f, s in c["D"]]
    have = {o[0] for o in opts}
    more = list(opts)
    isout = ["o"] in opts
    for k, v in c["defs"]:
        if k not in have and k not in {o[0] for o in more if o not in opts} and not (k == "O" and not isout) and not (k == "g" and c["src"] != "default"):
            more.append([k, v])
    if c["rep"]:
        for o in list(more):
            # give the option once more, before its real value
            if o[0] in OVER and o in opts and R.random() < .4 and not (o[0] == "f" and isout):
                more.insert(more.index(o), [o[0], OVER[o[0]]])
    outs = []
    for k, (ol, sp) in enumerate(((opts, False), (more, True))):
        out = os.path.join(d, "out%d" % k)
        ol = [[o[0], out] if o == ["f", "@out"] else o for o in ol]
        argv = spell(R, ol) if sp else [a for o in ol for a in (["-" + o[0]] + [str(v) for v in o[1:]])]
        r = dh(ctx, argv, timeout=40)
        if r.timeout or r.rc != 0:
            return "exit %s for %r: %s" % (r.rc, argv, r.err[-300:]), "x"
        outs.append((argv, open(out, "rb").read() if isout else r.out, r.out))
        if os.path.exists(out):
            os.unlink(out)
    if outs[0][1] != outs[1][1]:
        a, b = outs[0][1], outs[1][1]
        if isout:
            return "the file written by %r differs from that of %r" % (outs[1][0], outs[0][0]), "x"
        k = [j for j, (p, q) in enumerate(zip(a.splitlines() + [""], b.splitlines() + [""])) if p != q]
        j = k[0] if k else -1
        return "%r gives %r where %r gives %r" % (outs[0][0], a.splitlines()[j] if a else a, outs[1][0], b.splitlines()[j] if b else b), "x"
    return None, ("out" if isout else "order") if outs[0][0] != outs[1][0] and outs[0][1].strip() else None


def info(c, ctx, R, d, opts):
    w = c["what"]
    out = os.path.join(d, "must-not-exist")
    extra = [o for o in opts if o[0] != "d" or w not in ("dh", "h")]
    if any(o[0] == "f" for o in extra):
        extra = [o for o in extra if o[0] not in "fg"]
    if R.random() < .4 and w != "ah":
        extra = extra + [["o"], ["f", out]]
    extra = R.sample(extra, R.randint(0, len(extra)))
    if ["o"] in extra and not any(o[0] == "f" for o in extra):
        extra.append(["f", out])
    req = {"h": [["h"]], "V": [["V"]], "l": [["l"]], "F": [["F"]], "dh": [["d", c["test"]], ["h"]], "ah": [["a"], ["h"]], "bad": [], "stray": [], "none": [],
           "glist": [["g", -1]], "badval": []}[w]
    if w == "glist":
        extra = [o for o in extra if o[0] != "g"]
    bare = [a for o in req for a in ["-" + o[0]] + [str(v) for v in o[1:]]]
    argv = spell(R, extra + req)
    if w == "bad":
        argv, bare = argv + [c["bad"]], [c["bad"]]
    elif w == "stray":
        argv, bare = argv + [c["stray"]], [c["stray"]]
    elif w == "badval":
        argv, bare = argv + [R.choice(["-t", "-d", "-g", "-p", "-S", "-n", "-D"])], ["-t"]
    elif w == "none":
        argv = bare = []
    a, b = dh(ctx, argv, cwd=d), dh(ctx, bare, cwd=d)
    for r, v in ((a, argv), (b, bare)):
        if r.timeout or r.rc is None or r.rc < 0 or (r.rc != 0 and w != "none"):
            return "exit %s for %r" % (r.rc, v)
        if ROWISH.search(r.out):
            return "%r printed a result row" % (v,)
    if os.path.exists(out) or sorted(os.listdir(d)) != ["raw"]:
        return "%r wrote a file" % (argv,)
    if a.out != b.out:
        return "%r prints something else than %r" % (argv, bare)
    o = a.out
    if w in ("h", "bad", "stray", "none", "badval"):
        if "Usage:" not in o or "[-d dieharder test number]" not in o:
            return "%r does not print the usage message" % (argv,)
        if w in ("bad", "badval") and not a.err.strip():
            return "%r is not reported as an error" % (argv,)
    elif w == "V":
        if not re.search(r"\d+\.\d+\.\d+", o) or "Usage" in o:
            return "-V does not print the version: %r" % o[:200]
    elif w == "F":
        got = [(int(x), y) for x, y in re.findall(r"^\s*(\d+)\s+(\w+)\s*$", o, re.M)]
        if got != FLAGS:
            return "-F lists %r" % (got,)
    elif w == "l":
        got = [int(x) for x in re.findall(r"^\s+-d (\d+)\s", o, re.M)]
        if got != sorted(TITLE):
            return "-l lists %r" % (got,)
    elif w == "glist":
        if "mt19937" not in o or "AES_OFB" not in o:
            return "-g -1 does not list the generators"
    elif w == "dh":
        head = "\n".join([ln for ln in o.splitlines() if ln.strip(" #=\n")][:2])
        if not re.search(TITLE[c["test"]], head):
            return "-d %d -h describes another test: %r" % (c["test"], head)
    elif w == "ah":
        pos = 0
        for t in sorted(TITLE):
            r = dh(ctx, ["-d", t, "-h"])
            k = o.find(r.out, pos)
            if k < 0 or not r.out:
                return "-a -h misses the synopsis of test %d" % t
            pos = k + len(r.out)
        if o[pos:].strip():
            return "-a -h prints more than the synopses"
    return None


def shrink(c):
    if c["kind"] == "order":
        for k, v in (("rep", False), ("defs", []), ("out", False)):
            if c[k] and c[k] != v:
                yield dict(c, **{k: v})
        for j in range(len(c["defs"])):
            yield dict(c, defs=c["defs"][:j] + c["defs"][j + 1:])
        for j in range(len(c["D"])):
            if len(c["D"]) > 1:
                yield dict(c, D=c["D"][:j] + c["D"][j + 1:])
    for j, o in enumerate(c["o"]):
        if o[0] not in "dtgfS":
            yield dict(c, o=c["o"][:j] + c["o"][j + 1:])
