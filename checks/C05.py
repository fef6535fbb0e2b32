import numpy as np
from vlib.lib import Lib

PROP = "C05"
TECHNIQUE = "property-based testing: generated structured binary matrices against an independent GF(2) elimination, plus metamorphic row operations"
NOTE = "Reference rank by XOR-basis insertion; up to 64 rows and 130 columns."
RULE = ("case = batch of 30 matrices (random, prescribed rank, sparse, repeated rows, triangular, permuted) each followed by rank-"
        "preserving row operations. Non-trivial: some matrix is rank deficient.")
CASES = dict(quick=12000, thorough=100000)
TIMEOUT = 30


def setup(ctx):
    ctx.lib = Lib(ctx.b()["lib"])


def gen(R, i, tier):
    ms = []
    for _ in range(30):
        r = R.choice([1, 2, 3, 6, 6, 8, 31, 32, 32, 33, 40, R.randint(1, 32), R.randint(1, 64)])
        c = R.choice([1, 2, 7, 8, 8, 31, 32, 32, R.randint(1, 32), 33, 63, 64, 65, R.randint(33, 130)])
        ms.append([r, c, R.choice(["rand", "lowrank", "sparse", "dup", "tri", "perm", "nearfull", "one"]), R.getrandbits(48)])
    return {"ms": ms}


def matrix(r, c, kind, seed):
    import random
    R = random.Random(seed)
    # column k is bit k of the row (word k/32, least significant first)
    m = (1 << c) - 1

    def rw():
        return R.getrandbits(c) & m
    if kind == "rand":
        return [rw() for _ in range(r)]
    if kind == "lowrank":
        k = R.randint(0, min(r, c))
        b = [rw() for _ in range(k)]
        out = []
        for _ in range(r):
            x = 0
            for y in b:
                if R.random() < .5:
                    x ^= y
            out.append(x)
        return out
    if kind == "sparse":
        return [0 if R.random() < .2 else (1 << R.randrange(c)) | (1 << R.randrange(c)) for _ in range(r)]
    if kind == "dup":
        b = [rw() for _ in range(max(1, r // 2))]
        return [R.choice(b) for _ in range(r)]
    if kind == "tri":
        out = []
        for i in range(r):
            j = min(i, c - 1)
            out.append(((1 << j) | (R.getrandbits(c) & ((1 << j) - 1))) & m)
        if R.random() < .5:
            out.reverse()
        return out
    if kind == "perm":
        p = list(range(c))
        R.shuffle(p)
        return [(1 << p[i % c]) if R.random() < .95 else 0 for i in range(r)]
    if kind == "nearfull":
        out = [rw() for _ in range(r)]
        if r > 1:
            x = 0
            for y in out[:-1]:
                if R.random() < .5:
                    x ^= y
            out[R.randrange(r)] = x
        return out
    out = [0] * r
    out[R.randrange(r)] = 1 << R.randrange(c)
    return out


def rank(rows):
    basis = {}
    for x in rows:
        while x:
            h = x.bit_length()
            if h in basis:
                x ^= basis[h]
            else:
                basis[h] = x
                break
    return len(basis)


def pack(rows, cols, seed):
    """row words; bits beyond the last column are noise and must not matter"""
    nw = (cols + 31) // 32
    noise = seed % 3 == 0
    out = []
    for k, x in enumerate(rows):
        if noise:
            x |= ((seed * 2654435761 + k * 40503) & ((1 << (32 * nw - cols)) - 1)) << cols
        out += [(x >> (32 * j)) & 0xffffffff for j in range(nw)]
    return np.array(out, np.uint32)


def run(c, ctx):
    L = ctx.lib.l
    low = 0
    import random
    for r, cc, kind, seed in c["ms"]:
        m = matrix(r, cc, kind, seed)
        exp = rank(m)
        a = pack(m, cc, seed)
        got = L.vf_rank(a.ctypes.data, r, cc)
        if got != exp:
            return "%dx%d matrix %r: rank %d, GF(2) rank is %d" % (r, cc, [hex(x) for x in m], got, exp), "x"
        R = random.Random(seed + 1)
        R.shuffle(m)
        for _ in range(5):
            i, j = R.randrange(r), R.randrange(r)
            if i != j:
                m[i] ^= m[j]
        a = pack(m, cc, seed)
        got2 = L.vf_rank(a.ctypes.data, r, cc)
        if got2 != exp:
            return "%dx%d: rank changed %d -> %d under row operations: %r" % (r, cc, exp, got2, [hex(x) for x in m]), "x"
        low += exp < min(r, cc)
    return None, "deficient" if low else None, {"evals": 2 * len(c["ms"])}


def shrink(c):
    if len(c["ms"]) > 1:
        for m in c["ms"]:
            yield {"ms": [m]}
    else:
        r, cc, k, s = c["ms"][0]
        for y in (1, 2, r // 2, r - 1):
            if 1 <= y < r:
                yield {"ms": [[y, cc, k, s]]}
        for y in (1, 2, cc // 2, cc - 1):
            if 1 <= y < cc:
                yield {"ms": [[r, y, k, s]]}
        for s2 in range(3):
            if s2 < s:
                yield {"ms": [[r, cc, k, s2]]}
