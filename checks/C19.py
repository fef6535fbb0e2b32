import math
import numpy as np
from scipy.spatial import cKDTree
from vlib.lib import Lib
from vlib import model as M

PROP = "C19"
TECHNIQUE = "property-based testing: generated point configurations (planted close pairs, clusters, ties, zeros) against exact reference searches"
NOTE = ("Oracle: k-d tree closest pair, sequential parking on an independent grid index, and the published distributions (1-exp(-d^2/0.995), "
        "1-exp(-r^3/30), Fischler's corrected form, parked cars N(3523,21.9)). Closest pairs are planted at controlled positions, separations and "
        "directions so that a pair missed by the search changes the p-value.")
RULE = ("case = (test, dimension, points, configuration, generator width, runs). Non-trivial: some reference p-value in (1e-9, 1-1e-9). Classes by test and "
        "configuration.")
CASES = dict(quick=2000, thorough=20000)
TIMEOUT = 120
SHAPES = ["rand", "pair", "pair", "pair", "pairx", "pairy", "edge", "ends", "cluster", "ties", "sorted", "zeros", "dup", "lattice", "strip", "strip"]


def setup(ctx):
    ctx.lib = Lib(ctx.b()["lib"])


def gen(R, i, tier):
    t = R.choice([10, 11, 12, 201, 201])
    c = {"t": t, "d": {10: 2, 11: 2, 12: 3}.get(t) or R.randint(2, 5), "k": R.choice(SHAPES), "s": R.getrandbits(30),
         "width": R.choice([32] * 6 + [31, 30, 24]), "ps": R.choice([1, 1, 1, 2]), "sep": R.choice([0.02, .1, .3, .6, .9, 1.1]),
         "pos": R.random(), "unit": R.random() < .15}
    c["n"] = {10: 12000, 12: 4000, 11: R.choice([8000, 8000, 8000, 2000, 9001])}.get(t) or R.choice([8, 20, 100, 500, 1000, 1000, 2000, 5000, 10000])
    if c["width"] == 24 and c["k"].startswith("pair"):
        c["k"] = "rand"
    if c["k"] == "lattice" and t == 201:
        c["n"] = min(c["n"], 2000)
    if t == 10 and R.random() < .4:
        c.update(k="touch", width=32, unit=False, ps=1, m=R.randint(3430, 3530))
    c["pre"] = M.gen_pre(R, c["t"])
    return c


def typical(c):
    """separation at which the p-value is about 1/2, in units of the cube"""
    n, d = c["n"], c["d"]
    if c["t"] == 12:
        return (30 * .7) ** (1 / 3.) / 1000
    if c["t"] == 11:
        return math.sqrt(.995 * .7) / 10000
    v = 2 * .7 / (n * (n - 1.0))
    return (v * math.gamma(d / 2 + 1) / math.pi ** (d / 2)) ** (1.0 / d)


# multiples of a quarter whose coordinate 100*(k*0.0025) is exact in double arithmetic
EXACT = [k for k in range(400) if 100.0 * (k * 0.0025) == k / 4.0]


def touching(c, rs):
    """cars on exact quarter coordinates (deviates k*0.0025), many of them touching at a distance of exactly 1"""
    n = c["n"]
    ok = np.zeros(400, bool)
    ok[EXACT] = True
    spots = [(x, y) for x in range(0, 400, 5) for y in range(0, 400, 5) if ok[x] and ok[y]]
    j = rs.permutation(len(spots))[:c["m"]]
    base = [spots[a] for a in j]
    extra = []
    while len(extra) < 300:
        x, y = base[rs.randint(0, len(base))]
        k = rs.randint(0, 3)
        x2, y2 = x + (0 if k == 0 else rs.choice([-4, 4])), y + (0 if k == 1 else rs.choice([-4, 4]))
        if 0 <= x2 < 400 and 0 <= y2 < 400 and ok[x2] and ok[y2]:
            extra.append((x2, y2))
    rest = [base[a] for a in rs.randint(0, len(base), n - len(base) - len(extra))]
    tail = extra + rest
    p = base + [tail[a] for a in rs.permutation(len(tail))]
    return np.array(p, np.uint64)


def points(c, rs):
    """n x d array of words"""
    if c["k"] == "touch":
        return touching(c, rs)
    n, d, w = c["n"], c["d"], c["width"]
    top = 1 << w
    p = rs.randint(0, 2**32, (n, d), dtype=np.uint64) >> np.uint64(32 - w)
    k = c["k"]
    if k in ("pair", "pairx", "pairy", "edge", "ends"):
        a, b = rs.choice(n, 2, replace=False)
        if k == "ends":
            a, b = 0, n - 1
        elif c["s"] & 1:
            a = int(c["pos"] * (n - 1))
            b = a + 1
        if c["t"] == 10:
            pass
        v = rs.standard_normal(d)
        if k == "pairx":
            v[1:] *= 1e-3
        if k == "pairy":
            v[0] *= 1e-3
        v = v / np.linalg.norm(v) * typical(c) * c["sep"] * top
        q = p[a].astype(float)
        if k == "edge":
            for m in range(d):
                if rs.rand() < .6:
                    q[m] = abs(v[m]) + 1 if rs.rand() < .5 else top - 2 - abs(v[m])
            p[a] = q.astype(np.uint64)
        p[b] = np.clip(np.round(q + v), 1, top - 1).astype(np.uint64)
    elif k == "cluster":
        m = n // 20
        cen = p[rs.randint(0, n, 3)].astype(float)
        j = rs.choice(n, m, replace=False)
        spread = typical(c) * top * math.sqrt(n) * c["sep"] * 2
        p[j] = np.clip(cen[rs.randint(0, 3, m)] + rs.standard_normal((m, d)) * spread, 1, top - 1).astype(np.uint64)
    elif k == "ties":           # many points share their first coordinate
        m = n // 3
        j = rs.choice(n, m, replace=False)
        p[j, 0] = p[rs.randint(0, n, max(2, m // 10)), 0][rs.randint(0, max(2, m // 10), m)]
    elif k == "sorted":
        p = p[np.argsort(p[:, 0] if c["s"] & 1 else -p[:, 0].astype(float))]
    elif k == "dup":
        a, b = rs.choice(n, 2, replace=False)
        p[b, :d - 1] = p[a, :d - 1]
        p[b, d - 1] = np.uint64(min(top - 1, int(p[a, d - 1]) + int(typical(c) * c["sep"] * top) + (c["s"] & 1)))
    elif k == "strip" and c["t"] != 10:     # (nearly) equal first coordinates: the closest pair is far apart in that order
        m = int(math.ceil(n ** (1.0 / (d - 1)))) + 1
        g = np.stack(np.meshgrid(*[np.arange(m)] * (d - 1), indexing="ij"), -1).reshape(-1, d - 1)
        g = g[rs.permutation(len(g))[:n]]
        step = top / m
        q = np.empty((n, d))
        q[:, 1:] = g * step + step / 3 + rs.rand(n, d - 1) * step * .3
        a, b = rs.choice(n, 2, replace=False)
        v = rs.standard_normal(d - 1)
        q[b, 1:] = q[a, 1:] + v / np.linalg.norm(v) * typical(c) * c["sep"] * top
        q[:, 0] = int(c["pos"] * top * .9) + rs.randint(0, max(2, int(typical(c) * top * c["sep"] * .01)), n)
        p = np.clip(q, 1, top - 1).astype(np.uint64)
    elif k == "lattice" and c["t"] != 10:
        m = int(math.ceil(n ** (1.0 / d))) + 1
        g = np.stack(np.meshgrid(*[np.arange(m)] * d, indexing="ij"), -1).reshape(-1, d)
        g = g[rs.permutation(len(g))[:n]] if c["s"] & 1 else g[:n]
        step = top / m
        p = np.clip(g * step + step / 3 + rs.rand(n, d) * step * .3, 1, top - 1).astype(np.uint64)
    return p


def ref_parked(p):
    """sequential parking with a grid index: unit cells"""
    grid = {}
    k = 0
    for x, y in p:
        cx, cy = int(x), int(y)
        ok = True
        for gx in (cx - 1, cx, cx + 1):
            for gy in (cy - 1, cy, cy + 1):
                for (a, b) in grid.get((gx, gy), ()):
                    if abs(a - x) <= 1.0 and abs(b - y) <= 1.0:
                        ok = False
                        break
                if not ok:
                    break
            if not ok:
                break
        if ok:
            grid.setdefault((cx, cy), []).append((x, y))
            k += 1
    return k


def nearest(p):
    dd, _ = cKDTree(p).query(p, k=2)
    return float(dd[:, 1].min())


Q = {2: .4135, 3: .5312, 4: .6202, 5: 1.3789}


def ref(c, U):
    t, n, d = c["t"], c["n"], c["d"]
    if t == 10:
        u = U.raw(2 * n).reshape(n, 2) * 100.0
        return M.normal_p(ref_parked(u), 3523.0, 21.9)
    u = U.pos(n * d).reshape(n, d)
    if t == 11:
        r = nearest(u * 10000.0)
        return -math.expm1(-r * r / .995)
    if t == 12:
        r = nearest(u * 1000.0)
        return -math.expm1(-r ** 3 / 30.0)
    r = min(1.0, nearest(u))
    v = math.pi ** (d / 2.0) / math.gamma(d / 2.0 + 1) * r ** d
    return 1 - math.exp(-n * (n - 1.0) * v / 2) * (1 + (2 + Q[d]) / 6 * float(n) ** 3 * v * v)


class U:
    def __init__(self, words, scale):
        self.w, self.i, self.s = words, 0, scale

    def raw(self, n):
        a = self.w[(self.i + np.arange(n)) % len(self.w)]
        self.i += n
        return a * self.s

    def pos(self, n):
        out = []
        got = 0
        while got < n:          # zero deviates are skipped
            m = n - got
            a = self.raw(m)
            a = a[a != 0]
            out.append(a)
            got += len(a)
        return np.concatenate(out)


def run(c, ctx):
    L = ctx.lib
    rs = np.random.RandomState(c["s"])
    words = np.concatenate([points(c, rs).ravel() for _ in range(c["ps"])])
    if c["k"] == "zeros":
        z = rs.randint(0, len(words), max(1, len(words) // rs.choice([3000, 500, 50])))
        words = np.insert(words, z, 0)
    words = np.concatenate([words, np.array([12345, 77777, 3], np.uint64)])
    M.do_pre(L, c.get("pre"))
    L.use(words, c["width"])
    scale = 1.0 / (1 << c["width"])
    if c["unit"] and c["width"] == 32:
        L.l.vf_set_unit_scale()
        scale = 1.0 / 4294967295.0
    if c["k"] == "touch":
        scale = 0.0025
        L.l.vf_set_scale(scale)
    r = L.run_test(c["t"], c["n"], c["ps"], c["d"], 1)
    u = U(words.astype(float), scale)
    want = np.array([ref(c, u) for _ in range(c["ps"])])
    f = M.compare(r["pv"], want, "test %d, %d points in %d dimensions" % (c["t"], c["n"], c["d"]), tol=1e-9)
    if not f and r["consumed"] != u.i:
        f = "test %d drew %d generator outputs, placing its points takes %d" % (c["t"], r["consumed"], u.i)
    if not f and c["t"] != 10 and int(r["ntuple"][0]) != c["d"]:
        f = "test %d ran in %d dimensions but reports %d" % (c["t"], c["d"], r["ntuple"][0])
    return f, "%d-%s" % (c["t"], c["k"]) if ((want > 1e-9) & (want < 1 - 1e-9)).any() else None


def shrink(c):
    if c["k"] == "touch":
        return
    if c.get("pre"):
        yield dict(c, pre=[])
        yield dict(c, pre=c["pre"][:1])
    for k, v in (("ps", 1), ("width", 32), ("unit", False), ("k", "rand"), ("k", "pair")):
        if c[k] != v:
            yield dict(c, **{k: v})
    if c["t"] == 201 and c["n"] > 8:
        yield dict(c, n=c["n"] // 2)
    if c["t"] == 201 and c["d"] > 2:
        yield dict(c, d=c["d"] - 1)
