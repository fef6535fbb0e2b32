import numpy as np
from scipy import special
from vlib.lib import Lib, dp
from vlib import model as M

PROP = "C21"
TECHNIQUE = "property-based testing: generated streams against reference implementations of the seven statistics"
NOTE = ("Oracle: independent numpy/Python computations of the base-5 letter counts, squeeze counts, overlapping sums, run lengths, craps games and Euclid "
        "steps, with the published tables; the final KS of the sums test uses the library KS (C01). The sums test is held to the transformation the "
        "project ships (its documentation itself calls that test suspect).")
RULE = ("case = (test, stream kind, generator width, samples, runs). Non-trivial: a reference p-value in (1e-9, 1-1e-9). Classes by test and stream kind.")
CASES = dict(quick=1400, thorough=12000)
TIMEOUT = 200
U = np.uint64
SQ = np.array([0.00002103, 0.00005779, 0.00017554, 0.00046732, 0.00110783, 0.00236784, 0.00460944, 0.00824116, 0.01362781, 0.02096849,
               0.03017612, 0.04080197, 0.05204203, 0.06283828, 0.07205637, 0.07869451, 0.08206755, 0.08191935, 0.07844008, 0.07219412,
               0.06398679, 0.05470931, 0.04519852, 0.03613661, 0.02800028, 0.02105567, 0.01538652, 0.01094020, 0.00757796, 0.00511956,
               0.00337726, 0.00217787, 0.00137439, 0.00084970, 0.00051518, 0.00030666, 0.00017939, 0.00010324, 0.00005851, 0.00003269,
               0.00001803, 0.00000982, 0.00001121])
KP = np.array([0.0, 5.39e-09, 6.077e-08, 4.8421e-07, 2.94869e-06, 1.443266e-05, 5.908569e-05, 0.00020658047, 0.00062764766, 0.00167993762,
               0.00399620143, 0.00851629626, 0.01635214339, 0.02843154488, 0.04493723812, 0.06476525706, 0.08533638862, 0.1030000214,
               0.11407058851, 0.11604146948, 0.10853040184, 0.09336837411, 0.07389607162, 0.05380182248, 0.03601960159, 0.02215902902,
               0.01251328472, 0.00647884418, 0.00306981507, 0.00132828179, 0.00052381841, 0.00018764452, 6.084138e-05, 1.779885e-05,
               4.66795e-06, 1.09504e-06, 2.2668e-07, 4.104e-08, 6.42e-09, 8.4e-10, 1.4e-10])
RA = np.array([[4529.4, 9044.9, 13568.0, 18091.0, 22615.0, 27892.0], [9044.9, 18097.0, 27139.0, 36187.0, 45234.0, 55789.0],
               [13568.0, 27139.0, 40721.0, 54281.0, 67852.0, 83685.0], [18091.0, 36187.0, 54281.0, 72414.0, 90470.0, 111580.0],
               [22615.0, 45234.0, 67852.0, 90470.0, 113262.0, 139476.0], [27892.0, 55789.0, 83685.0, 111580.0, 139476.0, 172860.0]])
RB = np.array([1 / 6., 5 / 24., 11 / 120., 19 / 720., 29 / 5040., 1 / 840.])
LETTER = np.array([min(max(bin(i).count("1"), 2), 6) - 2 for i in range(256)])
LP = np.array([37, 56, 70, 56, 37]) / 256.0
P4 = np.array([np.prod([LP[(i // 5 ** k) % 5] for k in range(4)]) for i in range(625)])
P5 = np.array([np.prod([LP[(i // 5 ** k) % 5] for k in range(5)]) for i in range(3125)])


def setup(ctx):
    ctx.lib = Lib(ctx.b()["lib"])


def gen(R, i, tier):
    t = R.choice([8, 8, 9, 13, 13, 14, 14, 15, 15, 15, 16, 16, 17, 17])
    c = {"t": t, "s": R.getrandbits(30), "ps": R.choice([1, 1, 2]), "width": 32, "f": R.choice([.0005, .005, .02, .1]),
         "k": R.choice(["rand", "rand", "bias", "walk", "blocks", "extremes", "small"]), "unit": R.random() < .2}
    c["ts"] = {8: lambda: R.choice([256000, 100000, 81921, 256001, 20000]), 9: lambda: R.choice([256000, 81000, 90003, 16000]),
               13: lambda: R.choice([1000, 3000, 20000, 777]), 14: lambda: R.choice([100, 100, 99, 200, 10, 2, 1000]),
               15: lambda: R.choice([100000, 5000, 1001, 20000, R.choice([100001, 250000, 400003])]), 16: lambda: R.choice([1000, 5000, 20000, 3001, R.choice([20001, 60000])]),
               17: lambda: R.choice([5000, 20000, 100000, 60001])}[t]()
    if t in (8, 9, 17) and R.random() < .35:
        c["width"] = R.choice([31, 30, 24, 16])
    elif t not in (8, 9, 17) and R.random() < .3:
        c["width"] = R.choice([31, 30, 24])
    if t in (14,):
        c["ps"] = R.choice([1, 2, 10])
    if t == 17 and R.random() < .2:
        c["k"] = "fib"          # neighbouring Fibonacci numbers: the longest division chains
    c["pre"] = M.gen_pre(R, c["t"])
    return c


def words(c):
    rs = np.random.RandomState(c["s"])
    t, ts, w = c["t"], c["ts"], c["width"]
    n = {8: ts // 4 + 50, 9: 5 * ts + 50, 13: ts * 26 + 500, 14: 2 * ts + 10, 15: ts + 10, 16: ts * 9 + 500, 17: 2 * ts + 50}[t] * c["ps"]
    n = int(n * 32 / w) + 100 if t in (8, 9, 17) else n
    v = rs.randint(0, 2**32, n, dtype=np.uint64) >> U(32 - w)
    top = 1 << w
    k = c["k"]
    sel = rs.rand(n) < c["f"]
    if k == "bias":
        v[sel] &= rs.randint(0, 2**32, int(sel.sum()), dtype=np.uint64)
    elif k == "walk":
        v[1:][sel[1:]] = (v[:-1][sel[1:]] + U(1)) % U(top)
    elif k == "blocks":
        m = max(8, int(n * c["f"]))
        a, b = rs.randint(0, n - m, 2)
        v[a:a + m] = v[b:b + m].copy()
    elif k == "extremes":
        v[sel] = np.array([0, top - 1, 1, top // 2, top - 1, 0], U)[rs.randint(0, 6, int(sel.sum()))]
    elif k == "fib":
        f = [1, 2]
        while f[-1] + f[-2] < top:
            f.append(f[-1] + f[-2])
        f = np.array(f, U)
        j = np.nonzero(sel[:n // 2] & (rs.rand(n // 2) < .1))[0]
        q = rs.randint(max(0, len(f) - 9), len(f) - 1, len(j))
        v[2 * j], v[2 * j + 1] = f[q], f[q + 1]
    elif k == "small":
        v[sel] = rs.randint(0, 4096, int(sel.sum())).astype(U) * U(rs.choice([1, 2, 6]))
        v &= U(top - 1)
    return v


def letters_p(l5, ts):
    x4, x5 = np.bincount(l5 % 625, minlength=625), np.bincount(l5, minlength=3125)

    def chi(x, y):
        big = y >= 5.0
        c = float(((x - y) ** 2 / y)[big].sum())
        if (~big).any() and y[~big].sum() >= 5.0:
            c += (x[~big].sum() - y[~big].sum()) ** 2 / y[~big].sum()
        return c
    return M.normal_p(chi(x5, ts * P5) - chi(x4, ts * P4), 2500.0, np.sqrt(5000.0))


def ref(c, S, scale, L):
    t, ts = c["t"], c["ts"]
    if t == 8:
        nb = 4 + ts
        v = S.chunks(32, 1 + -(-ts // 4))
        by = np.stack([(v >> U(s)) & U(255) for s in (0, 8, 16, 24)], 1).ravel()[:nb]
        l = LETTER[by.astype(int)]
        return [letters_p((((l[:-4] * 5 + l[1:-3]) * 5 + l[2:-2]) * 5 + l[3:-1]) * 5 + l[4:], ts)]
    if t == 9:
        v = S.chunks(32, 5 * ts).reshape(ts, 5)
        off = (np.arange(ts) % 32).astype(U)[:, None]
        j = ((v >> off) | (v << ((U(32) - off) % U(32)))) & U(255)
        l = LETTER[j.astype(int)]
        return [letters_p((((l[:, 0] * 5 + l[:, 1]) * 5 + l[:, 2]) * 5 + l[:, 3]) * 5 + l[:, 4], ts)]
    if t == 13:
        x = np.zeros(43)
        for _ in range(ts):
            k, j = 2147483647, 0
            while k != 1 and j < 48:
                z = k * (S.get() * scale)
                k = int(z) + (z > int(z))
                j += 1
            x[max(j, 6) - 6] += 1
        return [M.pearson(x, ts * SQ)]
    if t == 14:
        u = S.take(2 * ts - 1).astype(float) * scale
        cs = np.concatenate([[0], np.cumsum(u)])
        y = (cs[ts:] - cs[:-ts] - .5 * ts) * np.sqrt(12.0)
        m = float(ts)
        x = np.zeros(ts)
        x[0] = y[0] / np.sqrt(m)
        if ts > 1:
            x[1] = -x[0] * (m - 1) / np.sqrt(2 * m - 1) + y[1] * np.sqrt(m / (2 * m - 1))
        if ts > 2:
            a = 2 * m + 1 - np.arange(2, ts)
            b = 2 * a - 2
            x[2:] = y[:-2] / np.sqrt(a * b) - y[1:-1] * np.sqrt((a - 1) / (b + 2)) + y[2:] * np.sqrt(a / b)
        x = np.ascontiguousarray(special.ndtr(x))
        return [L.l.kstest(dp(x), ts)]
    if t == 15:
        v = S.take(ts).astype(np.int64)
        up = np.append(v[1:] > v[:-1], v[-1] > v[0])       # closing comparison: last against first

        def lens(brk):
            # lengths of runs between consecutive breaks; an unfinished run at the end is not counted
            i = np.nonzero(brk)[0]
            return np.bincount(np.minimum(np.diff(np.concatenate([[-1], i])), 6) - 1, minlength=6)[:6]
        out = []
        for x in (lens(~up), lens(up)):
            d = x - ts * RB
            out.append(float(special.gammaincc(3.0, max(float(d @ RA @ d) / ts, 0.0) / 2)))
        return out
    if t == 16:
        q = ((1 << c["width"]) - 1) // 6

        def roll():
            while True:
                k = S.get() // q
                if k < 6:
                    return k + 1
        wins, x = 0, np.zeros(21)
        for _ in range(ts):
            p = roll() + roll()
            n = 0
            if p in (7, 11):
                wins += 1
            elif p not in (2, 3, 12):
                while True:
                    n += 1
                    r = roll() + roll()
                    if r == 7:
                        break
                    if r == p:
                        wins += 1
                        break
            x[min(n, 20)] += 1
        i = np.arange(1, 20)
        y = np.concatenate([[1 / 3.], (27 * .75 ** (i - 1) + 40 * (13 / 18.) ** (i - 1) + 55 * (25 / 36.) ** (i - 1)) / 648.])
        y = np.append(y, 1 - y.sum()) * ts
        pw = 244 / 495.
        return [M.normal_p(wins, ts * pw, np.sqrt(ts * pw * (1 - pw))), M.pearson(x, y)]
    if t == 17:
        u = np.zeros(ts, U)
        v = np.zeros(ts, U)
        w = S.chunks(32, 2 * ts)
        if (w == 0).any():          # zero values are drawn again
            w = list(w[w != 0])
            while len(w) < 2 * ts:
                e = S.chunks(32, 2 * ts - len(w))
                w += list(e[e != 0])
            w = np.array(w, U)
        u, v = w[0::2].copy(), w[1::2].copy()
        k = np.zeros(ts, int)
        act = np.ones(ts, bool)
        while act.any():
            i = np.nonzero(act)[0]
            r = u[i] % v[i]
            u[i] = v[i]
            v[i] = r
            k[i] += 1
            act[i] = r > 0
        g = 6 / np.pi ** 2
        G = int(np.sqrt(ts * g / 100.0))
        xk = np.bincount(np.minimum(k, 40), minlength=41)
        xu = np.bincount(np.minimum(u, U(G - 1)).astype(int), minlength=G).astype(float)
        yu = ts * g / np.maximum(np.arange(G), 1).astype(float) ** 2
        yu[G - 1] = ts * g * (1.0 / np.arange(G - 1, 100000).astype(float) ** 2).sum()
        xu[:2], yu[:2] = 0, 0
        return [M.pearson(xk, ts * KP), M.pearson(xu, yu)]


def run(c, ctx):
    L = ctx.lib
    ws = words(c)
    M.do_pre(L, c.get("pre"))
    L.use(ws, c["width"])
    scale = 1.0 / (1 << c["width"])
    if c["unit"] and c["width"] == 32:
        L.l.vf_set_unit_scale()
        scale = 1.0 / 4294967295.0
    r = L.run_test(c["t"], c["ts"], c["ps"], 0, 1)
    S = M.Stream(ws, c["width"])
    want = np.array([ref(c, S, scale, L) for _ in range(c["ps"])]).T
    f = M.compare(r["pv"], want, "test %d, %d samples" % (c["t"], c["ts"]), rel=1e-5)
    if not f and r["consumed"] != S.pos:
        f = "test %d drew %d generator outputs, its samples take %d" % (c["t"], r["consumed"], S.pos)
    return f, "%d-%s" % (c["t"], c["k"]) if ((want > 1e-9) & (want < 1 - 1e-9)).any() else None


def shrink(c):
    if c.get("pre"):
        yield dict(c, pre=[])
        yield dict(c, pre=c["pre"][:1])
    for k, v in (("ps", 1), ("width", 32), ("k", "rand"), ("unit", False)):
        if c[k] != v:
            yield dict(c, **{k: v})
    if c["ts"] >= 2000 and c["t"] in (13, 15, 16):
        yield dict(c, ts=c["ts"] // 2)
