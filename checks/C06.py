import os
import pickle
import numpy as np
from vlib.lib import Lib

PROP = "C06"
TECHNIQUE = "stateful property-based testing: interleaved instance histories against solo replays"
NOTE = ("Generated histories allocate, seed, draw (integer and double), clone and dirty the shared bit buffers and globals across "
        "several generator instances; every instance must behave as in a fresh process where it is alone.")
RULE = ("case = history over up to 5 instances of the seedable generators. Non-trivial: at least two instances are live, one is "
        "re-seeded after drawing, and at least 20 values are compared. Interleaved draws from two instances of the ca, of the uvag "
        "or of the R generators are left out (known finding: these keep their state in file-level variables).")
CASES = dict(quick=6000, thorough=120000)
TIMEOUT = 60
DH = [203, 204, 205, 206, 208, 209, 400, 401, 402, 403, 404, 405]
GROUP = {203: "ca", 204: "uvag", 400: "R", 401: "R", 402: "R", 403: "R", 404: "R", 405: "R"}


def setup(ctx):
    ctx.lib = Lib(ctx.b()["lib"])
    ctx.gsl = [i for i in range(200) if ctx.lib.l.vf_rng_exists(i)]
    if len(ctx.gsl) < 40:
        ctx.gsl = list(range(62))


def seed_of(R):
    return R.choice([R.getrandbits(32), R.getrandbits(32), R.randint(1, 100), 0, 1, 0xffffffff, 1 << R.randint(0, 31)])


def gen(R, i, tier):
    if i % 200 == 7:
        return {"dev": R.choice([500, 501]), "n": R.randint(1, 300), "ops": []}
    pool = [R.choice(DH) if R.random() < .65 else R.randint(0, 61) for _ in range(R.randint(1, 4))]
    pool.append(DH[i % len(DH)] if i % 3 else i // 3 % 62)
    nops = R.randint(4, 40)
    ops = []
    seeds = [seed_of(R) for _ in range(3)]
    live = 0
    for _ in range(nops):
        x = R.random()
        if live == 0 or x < .12:
            ops.append(["a", R.choice(pool)])
            live += 1
            ops.append(["s", live - 1, R.choice(seeds)])
        elif x < .25:
            ops.append(["s", R.randrange(live), R.choice(seeds)])
        elif x < .33:
            ops.append(["c", R.randrange(live)])
            live += 1
        elif x < .43:
            ops.append(["x", R.randrange(live), R.randint(0, 3), R.getrandbits(31)])
        elif x < .55:
            ops.append(["d", R.randrange(live), R.randint(1, 40)])
        else:
            ops.append(["i", R.randrange(live), R.choice([1, 2, 3, R.randint(1, 50), R.randint(1, 50), R.randint(50, 700)])])
    return {"ops": ops}


def draw(L, r, kind, n):
    if kind == "i":
        o = np.zeros(n, np.uint64)
        L.vf_draw(r, n, o.ctypes.data)
    else:
        o = np.zeros(n)
        L.vf_draw_d(r, n, o.ctypes.data)
    return o


def solo(L, g, hist):
    """outputs of one instance with this history, alone in a fresh process"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            x = L.vf_alloc(g)
            out = []
            for h in hist:
                if h[0] == "s":
                    L.vf_seed(x, h[1])
                    out.append(None)
                else:
                    out.append(draw(L, x, h[0], h[1]))
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else None


def run(c, ctx, ignore_groups=False):
    lib = ctx.lib
    L = lib.l
    if c.get("dev"):
        if not L.vf_rng_exists(c["dev"]):
            return None, None
        r = L.vf_alloc(c["dev"])
        L.vf_seed(r, 1)
        o = draw(L, r, "i", c["n"])
        d = draw(L, r, "d", c["n"])
        if int(o.max()) > L.vf_rng_max(c["dev"]) or not (d.min() >= 0 and d.max() <= 1):
            return "device generator %d left its declared range" % c["dev"], "x"
        return None, None
    insts = []     # [gen, ptr, history since last seed(incl), outputs]
    owner = {}
    reseeded = False
    nval = 0
    for op in c["ops"]:
        if op[0] == "a":
            if not L.vf_rng_exists(op[1]):
                return "generator %d is not registered" % op[1], "x"
            insts.append([op[1], L.vf_alloc(op[1]), None, [], 0])
            if op[1] in GROUP:
                owner[GROUP[op[1]]] = None
            continue
        if op[1] >= len(insts):
            continue
        t = insts[op[1]]
        g = t[0]
        if op[0] == "s":
            if t[2] and any(h[0] != "s" for h in t[2]):
                reseeded = True
                f = verify(L, t)
                if f:
                    return f, "x"
            L.vf_seed(t[1], op[2])
            t[2], t[3] = [["s", op[2]]], [None]
            if g in GROUP:
                owner[GROUP[g]] = op[1]
        elif op[0] == "c":
            if g in GROUP and not ignore_groups or t[2] is None:
                insts.append([g, t[1], None, [], 0])     # dead slot keeps indices valid
                continue
            insts.append([g, L.vf_clone(t[1]), list(t[2]), list(t[3]), 0])
        elif op[0] == "x":
            if op[2] == 0:
                lib.glob("seed", __import__("ctypes").c_ulong).value = op[3]
            elif op[2] == 1:
                L.reset_bit_buffers()
            elif op[2] == 2:
                lib.use(np.array([op[3], 1, 2, 3, op[3] ^ 0xffff], np.uint32), 31 if op[3] & 1 else 32)
                b = np.zeros(4, np.uint32)
                L.get_rand_bits(b.ctypes.data, 4, op[3] % 32 + 1, L.vf_rng())
            else:
                lib.glob("tsamples").value = op[3] % 1000
                lib.glob("ntuple").value = op[3] % 9
        else:
            if t[2] is None:
                continue
            if g in GROUP and owner.get(GROUP[g]) != op[1] and not ignore_groups:
                continue
            o = draw(L, t[1], op[0], op[2])
            nval += op[2]
            if op[0] == "i":
                lo, hi = L.vf_rng_min(g), L.vf_rng_max(g)
                if g >= 200 and (int(o.max()) > hi or int(o.min()) < lo):
                    return "generator %d: output %d/%d outside declared range [%d,%d]" % (g, int(o.min()), int(o.max()), lo, hi), "x"
            elif g >= 200 and not (o.min() >= 0 and o.max() <= 1):
                return "generator %d: floating output %r outside [0,1]" % (g, float(o.max())), "x"
            t[2].append([op[0], op[2]])
            t[3].append(o)
    for t in insts:
        if t[2]:
            f = verify(L, t)
            if f:
                return f, "x"
    return None, "history" if len(insts) > 1 and reseeded and nval >= 20 else ("small" if nval >= 20 and len(insts) > 1 else None), {"evals": nval}


def verify(L, t):
    if t[2] is None or all(h[0] == "s" for h in t[2]):
        return None
    ref = solo(L, t[0], t[2])
    if ref is None:
        return "generator %d: solo run of %r crashed" % (t[0], t[2])
    for k, (a, b) in enumerate(zip(t[3], ref)):
        if a is not None and not np.array_equal(a, b):
            j = int(np.nonzero(a != b)[0][0])
            return "generator %d seed %d, draw step %d, value %d: %r in this history but %r when alone" % (
                t[0], t[2][0][1], k, j, a[j], b[j])
    return None


def known_still_fails(k, ctx):
    from vlib.core import run_forked
    import types
    m = types.SimpleNamespace(run=lambda c, x: run(c, x, ignore_groups=True))
    f, _, _ = run_forked(m, k["case"], ctx, 60)
    return bool(f)


def shrink(c):
    if c.get("dev"):
        return
    ops = c["ops"]
    n = len(ops)
    for k in range(n - 1, -1, -1):
        if ops[k][0] not in "ac":
            yield {"ops": ops[:k] + ops[k + 1:]}
    for k in range(1, n):
        yield {"ops": ops[:k]}
    for k, o in enumerate(ops):
        if o[0] in "id" and o[2] > 1:
            yield {"ops": ops[:k] + [[o[0], o[1], o[2] // 2]] + ops[k + 1:]}
