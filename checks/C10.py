import ctypes as C
import os
import re
import numpy as np
from vlib.lib import Lib, in_child
from vlib.cli import dh, rows, ROWFLAGS, T

PROP = "C10"
TECHNIQUE = "model-based property testing: generated headers, types and value spellings against an independent parser model"
NOTE = ("Oracle: the generated value list itself (the file is a rendering of it), read cyclically up to the declared count; compared word "
        "by word through the library with counters, and through the executable's result rows and reports.")
RULE = ("case = (type, values, spelling choices, header order, comments, unknown keys, separators, count at most the number of lines, draw "
        "history or test run, or a file shorter than its count). Non-trivial: at least one value compared; classes by type and rewind.")
CASES = dict(quick=5000, thorough=80000)
TIMEOUT = 60
TYPES = list("diuoxXb") * 2 + list("eEfFg")
TESTS = [(100, 0), (101, 0), (200, 2), (202, 3), (203, 1), (209, 0), (206, 0)]


def setup(ctx):
    ctx.lib = Lib(ctx.b()["lib"])


def gen(R, i, tier):
    ty = TYPES[i % len(TYPES)]
    nb = R.choice([32, 32, R.randint(1, 32), 8, 16, 31, 1])
    n = R.choice([1, 2, 3, R.randint(1, 20), R.randint(1, 200), R.randint(1, 3000) if R.random() < .2 else 10])
    c = {"type": ty, "numbit": nb, "n": n, "cs": R.getrandbits(32), "dist": R.choice(["u32", "u32", "small", "edge", "bits"]),
         "spell": R.choice(["plain", "plain", "pad", "zeros", "neg", "tab", "prefix", "crlf", "trail"]),
         "order": R.sample(["type", "count", "numbit"], 3), "sep": R.choice([": ", ": ", ":", " ", "\t", ":\t ", " : ", ",", "  :  "]),
         "comments": [[R.randint(0, 3), R.choice(["#", "# text", "#=====", "# type: x", "#count: 3", "#" + "c" * R.randint(0, 900)])]
                      for _ in range(R.choice([0, 0, 1, 2, 5]))],
         "unknown": [[R.randint(0, 2), R.choice(["generator: mt", "foo bar", "seed: 7", "NUMBIT: 3", "Type: f", "kount: 1", "x,y", "coun: 1", "color: 3", "numb: 8", "number: 2", "typ: f", "ty: b", "mytype: o",
                                                          "%s: %d" % (R.choice(["coun", "numbi", "typ", "comment", "nbits"])[:R.randint(2, 5)], R.randint(1, 9))])]
                     for _ in range(R.choice([0, 0, 1, 2]))],
         "count": R.choice(["all", "all", "less", "less", "one"]), "lastnl": R.random() < .85,
         "kind": R.choice(["lib", "lib", "lib", "cli", "short"])}
    if c["kind"] == "lib":
        c["ops"] = [[R.choice("iiid"), R.choice([1, 2, n, n + 1, R.randint(1, 2 * n + 2)])] if R.random() < .8 else ["s", R.choice([0, 1, 5])]
                    for _ in range(R.randint(1, 8))] + [["i", R.randint(1, n + 2)]]
        if R.random() < .006:          # more values than a 16-bit count can hold
            n = c["n"] = R.randint(65536, 90000)
            c["ops"] = [["i", R.randint(1, n)], ["i", n], ["i", R.randint(1, 99)]]
    elif c["kind"] == "cli":
        c["test"], c["nt"] = R.choice(TESTS)
        c["ts"] = R.choice([R.randint(4, 50), R.randint(4, 300), n + 3])
        c["ps"] = R.choice([1, 2, 3])
        c["s"] = R.choice([0, 1])
    else:
        c["missing"] = R.choice([1, 1, 2, R.randint(1, 50)])
    return c


def build(c):
    rs = np.random.RandomState(c["cs"])
    n, ty, nb = c["n"], c["type"], c["numbit"]
    v = rs.randint(0, 1 << 32, n, dtype=np.uint64)
    if c["dist"] == "small":
        v = rs.randint(0, 300, n).astype(np.uint64)
    elif c["dist"] == "edge":
        v = np.array([0, 1, 2, 7, 8, 9, 10, 15, 16, 255, 256, 65535, 2**31 - 1, 2**31, 2**31 + 1, 2**32 - 2, 2**32 - 1, 4000000000], np.uint64)[
            rs.randint(0, 18, n)]
    elif c["dist"] == "bits":
        v = (np.uint64(1) << rs.randint(0, 32, n).astype(np.uint64))
    v = [int(x) for x in v]
    sp, lines = c["spell"], []
    exp, tol = [], 0
    for k, x in enumerate(v):
        if ty in "diu":
            s, e = str(x), x
            if sp == "neg" and x >= 2**31:
                s = str(x - 2**32)
            elif sp == "zeros":
                s = "000" + s
            elif sp == "prefix":
                s = "+" + s
        elif ty == "o":
            s, e = "%o" % x, x
            if sp in ("zeros", "prefix"):
                s = "0" + s
        elif ty in "xX":
            s, e = ("%x" if rs.randint(2) else "%X") % x, x
            if sp == "prefix":
                s = ("0x" if rs.randint(2) else "0X") + s
            elif sp == "zeros":
                s = s.zfill(8)
        elif ty == "b":
            e = x & ((1 << nb) - 1)
            s = bin(e)[2:].zfill(nb)
            if sp == "trail":
                s += "01"[rs.randint(2)] * rs.randint(0, 9)
        else:
            f = [x / 2**32, rs.random_sample(), float(rs.randint(0, 2)), x / 1e10, 2.0 ** -rs.randint(1, 40)][rs.randint(5)]
            s = [("%.10f" % f), ("%.17g" % f), ("%e" % f), ("%.12E" % f)][rs.randint(4)]
            e = int(float(s) * 4294967295)
            e = max(0, min(e, 2**32 - 1))
            tol = 1
        if sp == "pad" and ty != "b":
            s = " " * rs.randint(0, 12) + s
        elif sp == "tab" and ty != "b":
            s = "\t" + s + "\t"
        elif sp == "trail" and ty != "b":
            s += "  "
        lines.append(s)
        exp.append(e)
    cnt = {"all": n, "less": max(1, n - int(rs.randint(0, n))), "one": 1}[c["count"]]
    if c["kind"] == "short":
        cnt = n + c["missing"]
    H = {"type": ty, "count": cnt, "numbit": nb}
    head = []
    for k in range(4):
        for pos, t in c["comments"]:
            if pos == k:
                head.append(t)
        if k < 3:
            for pos, t in c["unknown"]:
                if pos == k:
                    head.append(t)
            head.append("%s%s%s" % (c["order"][k], c["sep"], H[c["order"][k]]))
    # comments placed after the third key would be data lines: keep them in front of it
    tail = [t for pos, t in c["comments"] if pos == 3]
    if tail:
        head = tail + head[:-len(tail)]
    nl = "\r\n" if sp == "crlf" else "\n"
    txt = nl.join(head + lines) + (nl if c["lastnl"] else "")
    return txt, exp, cnt, tol


def run(c, ctx):
    txt, exp, cnt, tol = build(c)
    d = os.path.join(ctx.scratch, "w%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "in.txt")
    with open(p, "wb") as f:
        f.write(txt.encode())
    L, g = ctx.lib, ctx.lib.l
    cyc = np.array(exp[:cnt] if c["kind"] != "short" else exp, np.uint64)
    if c["kind"] == "short":
        need = cnt
        r = dh(ctx, ["-g", 202, "-f", p, "-d", 100, "-t", need, "-p", 1, "-D", ROWFLAGS, "-c", "|"])
        if rows(r.out):
            return "file with %d values but count %d gave a result %s for %d draws" % (len(exp), cnt, rows(r.out), need), "x"
        if r.rc is None or r.rc < 0 or not r.err.strip():
            return "file shorter than its count: no message (rc %s)" % r.rc, "x"
        r = dh(ctx, ["-g", 202, "-f", p, "-d", 100, "-t", len(exp), "-p", 1, "-D", ROWFLAGS, "-c", "|"])
        if len(rows(r.out)) != 1:
            return "the %d values present in the file could not be used (%s)" % (len(exp), r.err[:200]), "x"
        return None, "short"
    n = len(cyc)
    if c["kind"] == "lib":
        L.glob("filename", C.c_char * 1024).value = p.encode()
        g.file_input_get_rtot.restype = C.c_long
        g.file_input_get_rtot.argtypes = [C.c_void_p]
        g.file_input_get_rewind_cnt.argtypes = [C.c_void_p]

        def body():
            r = g.vf_alloc(202)
            g.vf_seed(r, 1)
            pos = tot = ev = 0
            lab = ""
            for op, m in c["ops"]:
                if op == "s":
                    g.vf_seed(r, m)
                    if m:
                        pos = tot = 0
                    continue
                e = cyc[(pos + np.arange(m)) % n].astype(np.float64)
                if op == "i":
                    o = np.zeros(m, np.uint64)
                    g.vf_draw(r, m, o.ctypes.data)
                    bad = np.abs(o.astype(np.float64) - e) > tol
                else:
                    o = np.zeros(m)
                    g.vf_draw_d(r, m, o.ctypes.data)
                    bad = np.abs(o * 4294967295.0 - e) > tol + 1e-5
                if bad.any():
                    j = int(np.nonzero(bad)[0][0])
                    return ("type %s numbit %d: draw %d is %r, value %d of the file is %r" % (
                        c["type"], c["numbit"], tot + j, o[j], (pos + j) % n, e[j]), "x", 0)
                pos = (pos + m) % n
                tot += m
                ev += m
                if tot > n:
                    lab = "-rewind"
                rt, rw = g.file_input_get_rtot(r), g.file_input_get_rewind_cnt(r)
                if rt != tot or rw != (tot - 1) // n:
                    return ("after %d draws with count %d: reported %d draws, %d rewinds" % (tot, n, rt, rw), "x", 0)
            return None, c["type"] + lab, ev
        x = in_child(body)
        if x is None:
            return "well-formed file of type %s was rejected: %r" % (c["type"], txt[:200]), "x"
        return x[0], x[1], {"evals": x[2]}
    t, nt, ts, ps = c["test"], c["nt"], c["ts"], c["ps"]
    if c["type"] in "eEfFg" or len(set(cyc.tolist())) < 3:
        t, nt = 100, 0
    L.use(cyc.astype(np.uint32), 32)
    g.vf_set_unit_scale()
    e = L.run_test(t, ts, ps, nt, std=True)
    a = ["-g", 202, "-f", p, "-d", t, "-t", ts, "-p", ps, "-s", c["s"], "-D", ROWFLAGS + T["file_rng_stat"], "-c", "|"]
    r = dh(ctx, a + (["-n", nt] if nt else []))
    got = [x[4] for x in rows(r.out)]
    if len(got) != len(e["ks"]):
        return "file of type %s: rows %s (rc %s, %s)" % (c["type"], got, r.rc, r.err[:200]), "x"
    if not tol and any(abs(float(x) - y) > 2e-8 for x, y in zip(got, e["ks"])):
        return "file of type %s: p-values %s, its values give %s" % (c["type"], got, e["ks"].tolist()), "x"
    m = re.search(r"file_input (\d+) rands were used", r.out)
    used = e["consumed"]
    if not m or int(m.group(1)) != used:
        return "usage report %s, %d values were used" % (m and m.group(0), used), "x"
    ms = re.findall(r"was rewound (\d+) times", r.out + r.err)
    if ms != [str((used - 1) // n)]:
        return "rewind report %s, count %d was restarted %d times" % (ms, n, (used - 1) // n), "x"
    return None, "cli-" + c["type"], {"evals": used}


def shrink(c):
    for m in (1, c["n"] // 2, c["n"] - 1):
        if 1 <= m < c["n"]:
            yield dict(c, n=m)
    for k, v in (("comments", []), ("unknown", []), ("spell", "plain"), ("sep", ": "), ("order", ["type", "count", "numbit"]), ("dist", "small"),
                 ("lastnl", True), ("count", "all"), ("numbit", 32)):
        if c[k] != v:
            yield dict(c, **{k: v})
    for k in range(len(c.get("ops", []))):
        yield dict(c, ops=c["ops"][:k] + c["ops"][k + 1:])
    for k, (o, m) in enumerate(c.get("ops", [])):
        if o in "id" and m > 1:
            for q in (1, m // 2, m - 1):
                yield dict(c, ops=c["ops"][:k] + [[o, q]] + c["ops"][k + 1:])
