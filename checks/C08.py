import numpy as np
from vlib.lib import Lib, in_child
from vlib import refgen
from vlib.cli import dh, textvals, rows, ROWFLAGS

PROP = "C08"
TECHNIQUE = "property-based testing of the executable and the library against an XOR model over generated component lists"
NOTE = ("Oracle: componentwise XOR in Python of the component streams, each drawn alone and seeded from an independent "
        "mt19937_1999 stream; compared word by word through output mode and through test results.")
RULE = ("case = (component list given by number or name, seed, count, observation: text output, raw output, library draw history "
        "with re-seeding, test row, or an invalid list). Non-trivial: at least two components, or a rejection case. Lists with two "
        "ca, two uvag or two R generators are left out (known finding of C06).")
CASES = dict(quick=4000, thorough=60000)
TIMEOUT = 60
POOL = list(range(62)) + [203, 204, 205, 206, 208, 209, 400, 401, 402, 403, 404, 405] * 4
GROUP = {203: "ca", 204: "uvag", 400: "R", 401: "R", 402: "R", 403: "R", 404: "R", 405: "R"}
SLOW = ()


def setup(ctx):
    ctx.lib = Lib(ctx.b()["lib"])
    ctx.name = {i: ctx.lib.l.vf_rng_name(i).decode() for i in set(POOL) if ctx.lib.l.vf_rng_exists(i)}


def gen(R, i, tier):
    k = R.choice([1, 2, 2, 2, 3, 3, 4, 5, R.randint(2, 12), R.randint(2, 99) if R.random() < .1 else 2])
    comps, used = [], set()
    while len(comps) < k:
        g = R.choice(POOL)
        if g in GROUP:
            if GROUP[g] in used:
                continue
            used.add(GROUP[g])
        comps.append(g)
        if R.random() < .15 and g not in GROUP:
            comps.append(g)
    comps = comps[:99]
    obs = R.choice(["text", "text", "raw", "lib", "lib", "row", "bad" if R.random() < .3 else "text"])
    c = {"comps": comps, "byname": [R.random() < .3 for _ in comps], "seed": R.choice([R.randint(1, 2**31 - 1), R.randint(1, 50), 1]),
         "n": R.choice([1, 2, R.randint(1, 60), R.randint(1, 400), R.randint(1, 400), R.randint(1000, 6000) if R.random() < .3 else 7]), "obs": obs, "xname": R.random() < .2}
    if obs == "bad":
        c["bad"] = R.choice(["none", "unknown_num", "unknown_name", "self", "selfname", "gap"])
        c["pos"] = R.randint(0, len(comps))
    if obs == "lib":
        c["ops"] = [R.choice(["s", "i", "i", "d"]) for _ in range(R.randint(1, 8))]
        c["seeds"] = [R.randint(0, 2**32 - 1) for _ in c["ops"]]
    return c


def expect(ctx, comps, seed, n):
    m = refgen.mt1999(seed)
    x = np.zeros(n, np.uint64)
    for g in comps:
        s = next(m)

        def one(g=g, s=s):
            L = ctx.lib.l
            r = L.vf_alloc(g)
            L.vf_seed(r, s)
            o = np.zeros(n, np.uint64)
            L.vf_draw(r, n, o.ctypes.data)
            return o
        o = in_child(one)
        if o is None:
            return None
        x ^= o
    return x & np.uint64(0xffffffff)


def run(c, ctx):
    comps = c["comps"]
    args = ["-g", ctx.name.get(207, "XOR (supergenerator)") if c["xname"] else "207"]
    glist = []
    for g, bn in zip(comps, c["byname"]):
        glist += ["-g", ctx.name[g] if bn and g in ctx.name else str(g)]
    S = ["-S", c["seed"]]
    if c["obs"] == "bad":
        b = {"none": [], "unknown_num": ["-g", "999"], "unknown_name": ["-g", "nosuch_generator"], "self": ["-g", "207"],
             "selfname": ["-g", "XOR (supergenerator)"], "gap": ["-g", "150"]}[c["bad"]]
        gl = [] if c["bad"] == "none" else glist[:2 * c["pos"]] + b + glist[2 * c["pos"]:]
        r = dh(ctx, args + gl + S + ["-d", "100", "-t", "100", "-p", "1", "-D", ROWFLAGS])
        if r.timeout or r.rc is None or r.rc < 0:
            return "invalid component list %s: program died (rc %s)" % (gl, r.rc), "x"
        if rows(r.out):
            return "invalid component list %s was accepted: %s" % (gl, rows(r.out)), "x"
        if not (r.out + r.err).strip():
            return "invalid component list %s rejected without a message" % (gl,), "x"
        return None, "reject"
    lab = c["obs"] if len(comps) > 1 else None
    n = c["n"]
    if c["obs"] in ("text", "raw"):
        r = dh(ctx, args + glist + S + ["-o", "-t", n, "-O", 1 if c["obs"] == "text" else 0], binary=True)
        if c["obs"] == "text":
            got = [int(v) for v in textvals(r.out.decode("latin1"))[1]]
        else:
            got = [int(v) for v in np.frombuffer(r.out[:len(r.out) // 4 * 4], "<u4")]
        exp = expect(ctx, comps, c["seed"], n)
        if exp is None:
            return "a component died", "x"
        exp = [int(v) for v in exp]
        if got != exp:
            k = next((j for j in range(min(len(got), len(exp))) if got[j] != exp[j]), min(len(got), len(exp)))
            return "XOR of %s seed %d: output %d is %s, XOR of the components is %s (%d of %d values)" % (
                comps, c["seed"], k, got[k:k + 1], exp[k:k + 1], len(got), len(exp)), "x"
        return None, lab, {"evals": n}
    if c["obs"] == "row":
        ts, ps = 2 + n, 3
        r = dh(ctx, args + glist + S + ["-d", "100", "-t", ts, "-p", ps, "-D", ROWFLAGS])
        exp = expect(ctx, comps, c["seed"], ts * ps)
        ctx.lib.use(exp.astype(np.uint32), 32)
        e = ctx.lib.run_test(100, ts, ps, std=True)["ks"][0]
        rr = rows(r.out)
        if len(rr) != 1 or abs(float(rr[0][4]) - e) > 2e-8:
            return "test row for XOR of %s is %s, expected p %.8f" % (comps, rr, e), "x"
        return None, lab
    L = ctx.lib
    g = L.l
    import ctypes as C
    gn = (C.c_uint * 100).in_dll(g, "gnumbs")
    gn[0] = 207
    for k, x in enumerate(comps):
        gn[k + 1] = x
    L.glob("gvcount").value = len(comps) + 1
    r = g.vf_alloc(207)
    seed, exp, pos = c["seed"], None, 0
    ops = list(zip(c["ops"], c["seeds"]))
    g.vf_seed(r, seed)
    N = n * (len(ops) + 1)
    exp = expect(ctx, comps, seed, N)
    for op, s in ops + [("i", 0)]:
        if op == "s":
            g.vf_seed(r, s)
            exp, pos = expect(ctx, comps, s, N), 0
            continue
        if op == "i":
            o = np.zeros(n, np.uint64)
            g.vf_draw(r, n, o.ctypes.data)
            e = exp[pos:pos + n]
            bad = o != e
        else:
            o = np.zeros(n)
            g.vf_draw_d(r, n, o.ctypes.data)
            e = exp[pos:pos + n] / 4294967295.0
            bad = np.abs(o - e) > 1e-12
        if bad.any():
            j = int(np.nonzero(bad)[0][0])
            return "XOR of %s: draw %d is %r, XOR of the components is %r" % (comps, pos + j, o[j], e[j]), "x"
        pos += n
    return None, lab, {"evals": N}


def shrink(c):
    for k in range(len(c["comps"]) - 1, -1, -1):
        if len(c["comps"]) > 1:
            yield dict(c, comps=c["comps"][:k] + c["comps"][k + 1:], byname=c["byname"][:k] + c["byname"][k + 1:],
                       pos=min(c.get("pos", 0), len(c["comps"]) - 1))
    if any(c["byname"]):
        yield dict(c, byname=[False] * len(c["comps"]))
    for k in range(len(c.get("ops", []))):
        yield dict(c, ops=c["ops"][:k] + c["ops"][k + 1:], seeds=c["seeds"][:k] + c["seeds"][k + 1:])
    for m in (1, c["n"] // 2):
        if 0 < m < c["n"]:
            yield dict(c, n=m)
    if c["seed"] != 1:
        yield dict(c, seed=1)
