"""Word streams described by small JSON values (the stream is repeated cyclically)."""
import numpy as np


KINDS = ["zero", "ones", "const", "alt", "per", "per", "ctr", "bias", "bias0", "few", "few", "rand", "rand", "rand", "runs", "sparse", "lcg", "fib"]


def gen(R, n=None, kinds=None):
    k = R.choice(kinds or KINDS)
    return {"k": k, "s": R.getrandbits(30), "n": n or R.choice([1000, 5000, 30000, 100000]), "p": R.choice([2, 3, 4, 5, 7, 8, 16, 31, R.randint(2, 64)])}


def make(d, width=32):
    k, n, p = d["k"], d["n"], d["p"]
    rs = np.random.RandomState(d["s"])
    U = lambda m: rs.randint(0, 2**32, m, dtype=np.uint64)
    if k == "zero":
        w = np.zeros(1, np.uint64)
    elif k == "ones":
        w = np.full(1, 2**32 - 1, np.uint64)
    elif k == "const":
        w = U(1)
    elif k == "alt":
        w = np.array([0, 2**32 - 1], np.uint64)[rs.randint(0, 2, p)]
    elif k == "per":
        w = U(p)
    elif k == "ctr":
        w = (np.arange(n, dtype=np.uint64) * np.uint64(1 + 2 * (d["s"] % 3)) + np.uint64(d["s"] % 1000)) & np.uint64(0xffffffff)
    elif k == "bias":
        w = U(n) & U(n) & U(n)
    elif k == "bias0":
        w = U(n) | U(n)
    elif k == "few":
        w = U(p)[rs.randint(0, p, n)]
    elif k == "runs":
        w = np.repeat(U(n // p + 1), p)[:n]
    elif k == "sparse":
        w = np.where(rs.rand(n) < 1.0 / p, U(n), 0).astype(np.uint64)
    elif k == "fib":            # neighbours with the longest division chains
        f = [1, 2]
        while f[-1] + f[-2] < 2**32:
            f.append(f[-1] + f[-2])
        j = rs.randint(len(f) - 2 - min(p, 20), len(f) - 1, n // 2 + 1)
        w = np.array(f, np.uint64)[np.stack([j, j + 1] if d["s"] & 2 else [j + 1, j], 1)].ravel()
    elif k == "mono":           # rising (or falling) stretches of varying length
        w, top = [], 3 + p
        while len(w) < min(n, 20000):
            a = np.sort(U(rs.randint(1, top)))
            w += list(a if d["s"] & 2 else a[::-1])
        w = np.array(w, np.uint64)
    elif k == "lcg":
        x, w = d["s"], np.zeros(n, np.uint64)
        for i in range(n):
            x = (x * 69069 + 1) & 0xffffffff
            w[i] = x
    else:
        w = U(n)
    if width < 32:
        w = w >> np.uint64(32 - width) if d["s"] & 1 else w & np.uint64((1 << width) - 1)
    return w.astype(np.uint32)


def shrink(d):
    for k in ("zero", "ones", "const", "ctr"):
        if d["k"] != k and d["k"] not in ("zero", "ones", "const"):
            yield dict(d, k=k)
    if d["n"] > 10:
        yield dict(d, n=d["n"] // 2)
    if d["p"] > 2:
        yield dict(d, p=d["p"] - 1)
