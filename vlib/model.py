"""Independent stream model shared by the statistical reference models (C18-C24)."""
import numpy as np
from scipy import special, stats


class Stream:
    """The cyclic word stream of the buffer generator, with the two documented bit orders."""

    def __init__(self, words, width):
        self.w = np.asarray(words, dtype=np.uint64)
        self.width = width
        self.pos = 0
        self.q = np.zeros(0, np.uint8)      # pending bits of the most-significant-first reader

    def take(self, n):
        idx = (self.pos + np.arange(n)) % len(self.w)
        self.pos += n
        return self.w[idx]

    def get(self):
        v = int(self.w[self.pos % len(self.w)])
        self.pos += 1
        return v

    def bits_msb(self, words):
        sh = np.arange(self.width - 1, -1, -1, dtype=np.uint64)
        return ((words[:, None] >> sh) & np.uint64(1)).astype(np.uint8).ravel()

    def bits_lsb(self, words):
        sh = np.arange(self.width, dtype=np.uint64)
        return ((words[:, None] >> sh) & np.uint64(1)).astype(np.uint8).ravel()

    def chunks(self, nbits, count):
        """count successive nbits-wide values, most significant bit first, gap-free"""
        if nbits == self.width:
            return self.take(count)
        need = nbits * count - len(self.q)
        if need > 0:
            b = np.concatenate([self.q, self.bits_msb(self.take(-(-need // self.width)))])
        else:
            b = self.q
        self.q = b[nbits * count:]
        b = b[:nbits * count].reshape(count, nbits).astype(np.uint64)
        return (b << np.arange(nbits - 1, -1, -1, dtype=np.uint64)).sum(1, dtype=np.uint64)

    def chunk_bits(self, nbits, count):
        v = self.chunks(nbits, count)
        sh = np.arange(nbits - 1, -1, -1, dtype=np.uint64)
        return ((v[:, None] >> sh) & np.uint64(1)).astype(np.uint8).ravel()


def window(x, n, off, width):
    """n-bit window of x starting at bit off (from the least significant), wrapping in width bits"""
    x = np.asarray(x, np.uint64)
    out = np.zeros(x.shape, np.uint64)
    for k in range(n):
        out |= ((x >> np.uint64((off + k) % width)) & np.uint64(1)) << np.uint64(k)
    return out


def normal_p(x, y, sigma):
    """significance reported by the single-value evaluator"""
    return float(stats.norm.cdf((y - x) / sigma))


def chi2_q(chisq, nu):
    return float(special.gammaincc(nu / 2.0, chisq / 2.0))


def pearson(x, y, cutoff=5.0, ndof=None):
    """Vector test: cells with expectation >= cutoff; the others pooled into one tail cell,
    itself used only when its expectation reaches the cutoff."""
    x, y = np.asarray(x, float), np.asarray(y, float)
    big = y >= cutoff
    chisq = float((((x - y) ** 2)[big] / y[big]).sum())
    k = int(big.sum())
    if (~big).any():
        tx, ty = float(x[~big].sum()), float(y[~big].sum())
        if ty >= cutoff:
            chisq += (tx - ty) ** 2 / ty
            k += 1
    return chi2_q(chisq, k - 1 if ndof is None else ndof)


def close(a, b, tol=1e-11, rel=1e-6):
    if a == b:
        return True
    if np.isnan(a) or np.isnan(b):
        return bool(np.isnan(a) and np.isnan(b))
    return abs(a - b) <= tol + rel * min(abs(a), abs(b))


def compare(got, want, what, tol=1e-11, rel=1e-6):
    for k, (g, w) in enumerate(zip(np.ravel(got), np.ravel(want))):
        if not close(float(g), float(w), tol, rel):
            return "%s: p-value %d is %.12g, the reference computation gives %.12g" % (what, k, g, w)
    return None


# ---- histories: what may have run earlier in the same process -------------------------------------------------
PRE = {0: [(10, 0), (40, 0)], 1: [(500, 0), (3000, 0)], 2: [(30, 0)], 3: [(50, 0)], 4: [(20000, 0)], 5: [(20000, 0)], 6: [(20000, 0)], 7: [(20000, 0)],
       8: [(300, 0), (2000, 0)], 9: [(300, 0), (2000, 0)], 10: [(5, 0)], 11: [(50, 2), (300, 2)], 12: [(50, 3), (300, 3)], 13: [(60, 0), (500, 0)],
       14: [(20, 0), (90, 0)], 15: [(100, 0), (3000, 0)], 16: [(50, 0), (700, 0)], 100: [(20, 0), (999, 0)], 101: [(20, 0), (999, 0)],
       102: [(100, 0), (700, 0)], 200: [(30, 1), (30, 3), (40, 5), (30, 8)], 201: [(30, 2), (60, 3), (40, 4), (50, 5)],
       202: [(20, 2), (50, 3), (150, 4), (700, 5)], 203: [(10, 0), (40, 3), (20, 17)], 204: [(10, 0), (200, 0)], 205: [(50, 0), (300, 0)],
       206: [(100, 8), (2000, 8), (60, 0), (30, 64)], 207: [(500, 0)], 208: [(500, 0)], 209: [(400, 0), (900, 0)], 210: [(10, 0)]}


def gen_pre(R, t, p=0.3):
    """a short list of earlier runs, mostly of the same test with other parameters"""
    if R.random() > p:
        return []
    o = []
    for _ in range(R.choice([1, 1, 2])):
        k = t if R.random() < .7 and t in PRE else R.choice(sorted(PRE))
        if k in PRE:
            ts, nt = R.choice(PRE[k])
            o.append([k, ts, nt, R.getrandbits(30), R.choice([1, 1, 2, 5])])
    return o


def do_pre(L, pre):
    for k, ts, nt, s, ps in pre or []:
        if L.l.vf_nkps(k) < 0:
            continue
        L.use(np.random.RandomState(s).randint(0, 2**32, 20011, dtype=np.uint64), 32)
        L.run_test(k, ts, ps, nt, 1)
