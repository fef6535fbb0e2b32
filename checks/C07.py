import numpy as np
from vlib.lib import Lib
from vlib import refgen

PROP = "C07"
TECHNIQUE = "differential property-based testing against independent implementations of the published generators"
NOTE = ("Oracle: Python implementations of AES-128 (FIPS-197), Threefish-512, KISS, superKISS, UVAG, the 256-state automaton "
        "and R's six generators, self-checked against published vectors; compared word by word over generated seeds and "
        "draw histories mixing integer and floating-point draws.")
RULE = ("case = (generator, seed, list of draw segments of integer or double kind). Non-trivial: the segments cross at least one "
        "internal state refresh of that generator (or draw 20 values for those without a block structure).")
CASES = dict(quick=1500, thorough=30000)
TIMEOUT = 60
BLOCK = {205: 4, 206: 16, 208: 20, 209: 41790, 204: 256, 203: 514, 400: 20, 401: 20, 402: 20, 403: 624, 404: 100, 405: 100}


def setup(ctx):
    ctx.lib = Lib(ctx.b()["lib"])


def seed_of(R):
    return R.choice([R.getrandbits(32), R.getrandbits(32), R.getrandbits(32), R.randint(1, 1000), R.getrandbits(31),
                     1 << R.randint(0, 31), 0xffffffff, 0xfffffffe, 0, (1 << R.randint(1, 32)) - 1, 4357,
                     0xffffffff ^ (1 << R.randint(0, 31)), 1073741821, 1073741820, R.randint(1, 9) * 1073741821 & 0xffffffff])


INV = pow(69069, -1, 1 << 32)


def unscramble(x, k):
    """the seed whose k-th scrambling step (69069*s+1) gives x"""
    for _ in range(k):
        x = (x - 1) * INV & 0xffffffff
    return x


def rare_seed(R, g):
    """seeds that reach the seldom used branches of the seeding procedures (a component that is 0 and has to be replaced, the modulus)"""
    if g == 400:
        m = [30269, 30307, 30323]
        j = R.randrange(3)
        return unscramble(m[j] * R.randrange(0, (1 << 32) // m[j]), 51 + j)
    if g in (401, 402):
        return unscramble(R.choice([0, 0, 1, 2, 0xffffffff, 0x10000, 0xffff0000]), 51 + R.randrange(2))
    if g == 403:
        return unscramble(R.choice([0, 0xffffffff, 624, 1, R.randint(1, 623)]), 51 + (R.randrange(0, 625) if R.random() < .4 else 0))
    return unscramble((1073741821 * R.randrange(4) + R.choice([-1, 0, 0, 1, 2, 3])) & 0xffffffff, 50)


GENS = [205, 205, 206, 206, 208, 208, 209, 204, 203, 400, 401, 402, 403, 404, 405]


def gen(R, i, tier):
    g = GENS[i % len(GENS)]
    B = BLOCK[g]
    segs = []
    tot = R.choice([B // 2 + 1, B + R.randint(0, 5), 2 * B + R.randint(0, B), 3 * B + 1])
    if g != 209:
        tot = max(tot, R.randint(20, 3000 if g in (208, 204, 400, 401, 402) else 300))
    pure = R.random() < .4
    while tot > 0:
        n = tot if pure or R.random() < .1 else min(tot, R.choice([1, 2, 3, R.randint(1, 2 * B), B]))
        segs.append([R.choice("ii" if pure else "iid"), n])
        tot -= n
        if len(segs) > 60:
            segs.append(["i", tot])
            break
    return {"g": g, "seed": rare_seed(R, g) if g >= 400 and R.random() < .3 else seed_of(R), "segs": segs}


def run(c, ctx):
    L = ctx.lib.l
    g = c["g"]
    r = L.vf_alloc(g)
    L.vf_seed(r, c["seed"])
    if g == 203:
        ref = refgen.ca(c["seed"])
    else:
        ref = (refgen.INT.get(g) or refgen.DBL[g])(c["seed"])
    pos = 0
    for kind, n in c["segs"]:
        if n <= 0:
            continue
        if kind == "i":
            o = np.zeros(n, np.uint64)
            L.vf_draw(r, n, o.ctypes.data)
        else:
            o = np.zeros(n)
            L.vf_draw_d(r, n, o.ctypes.data)
        for k in range(n):
            e = next(ref)
            if g >= 400:
                e = e if kind == "d" else refgen.u_int(e, g)
            elif kind == "d":
                e = e / 4294967295.0
            if o[k] != e:
                return "generator %d seed %d: output %d is %r, published algorithm gives %r" % (
                    g, c["seed"], pos, o[k], e), "x"
            pos += 1
    return None, ("gen%d" % g) if pos > BLOCK[g] or BLOCK[g] == 20 and pos >= 20 else None, {"evals": pos}


def shrink(c):
    for k in range(len(c["segs"]) - 1, -1, -1):
        yield dict(c, segs=c["segs"][:k] + c["segs"][k + 1:])
    for k, (kind, n) in enumerate(c["segs"]):
        for m in (1, n // 2, n - 1):
            if 0 < m < n:
                yield dict(c, segs=c["segs"][:k] + [[kind, m]] + c["segs"][k + 1:])
    if c["seed"] not in (1,):
        yield dict(c, seed=1)
        yield dict(c, seed=c["seed"] // 2)
