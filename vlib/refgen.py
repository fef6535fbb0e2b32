"""Independent reference implementations of the named generators (published algorithms)."""
import ctypes as C
import ctypes.util
import os

M32, M64 = 0xffffffff, (1 << 64) - 1
UINT_MAX = 0xffffffff

_g = C.CDLL(ctypes.util.find_library("gsl") or "libgsl.so.27")
_g.gsl_rng_alloc.restype = C.c_void_p
_g.gsl_rng_alloc.argtypes = [C.c_void_p]
_g.gsl_rng_set.argtypes = [C.c_void_p, C.c_ulong]
_g.gsl_rng_get.argtypes = [C.c_void_p]
_g.gsl_rng_get.restype = C.c_ulong


def mt1999(seed):
    r = _g.gsl_rng_alloc(C.c_void_p.in_dll(_g, "gsl_rng_mt19937_1999"))
    _g.gsl_rng_set(r, seed & M32)
    while True:
        yield _g.gsl_rng_get(r)


def kiss(seed):
    m = mt1999(seed)
    x = next(m)
    y = 0
    while not y:
        y = next(m)
    z = next(m)
    c = next(m) % 698769068 + 1
    while True:
        x = (314527869 * x + 1234567) & M32
        y ^= (y << 5) & M32
        y ^= y >> 7
        y ^= (y << 22) & M32
        t = 4294584393 * z + c
        c, z = t >> 32, t & M32
        yield (x + y + z) & M32


def superkiss(seed):
    m = mt1999(seed)
    N = 41790
    Q = [next(m) for _ in range(N)]
    carry, xcng, xs = 362436, 1236789, 521288629
    indx = N
    while True:
        xcng = (69069 * xcng + 123) & M32
        xs ^= (xs << 13) & M32
        xs ^= xs >> 17
        xs ^= xs >> 5
        if indx >= N:
            for i in range(N):
                t = 7010176 * Q[i] + carry
                carry = t >> 32
                Q[i] = (~t) & M32
            indx = 0
        q = Q[indx]
        indx += 1
        yield (q + xcng + xs) & M32


# ---- AES-128 (FIPS-197) ----
def _sbox():
    p = q = 1
    s = [0] * 256
    while True:
        p = p ^ ((p << 1) & 0xff) ^ (0x1b if p & 0x80 else 0)
        q ^= q << 1
        q ^= q << 2
        q ^= q << 4
        q &= 0xff
        if q & 0x80:
            q ^= 0x09
        x = q
        for k in (1, 2, 3, 4):
            x ^= ((q << k) | (q >> (8 - k))) & 0xff
        s[p] = (x ^ 0x63) & 0xff
        if p == 1:
            break
    s[0] = 0x63
    return s


SB = _sbox()
_xt = [((i << 1) & 0xff) ^ (0x1b if i & 0x80 else 0) for i in range(256)]


def aes_key(key):
    w = [list(key[4 * i:4 * i + 4]) for i in range(4)]
    rc = 1
    for i in range(4, 44):
        t = list(w[i - 1])
        if i % 4 == 0:
            t = [SB[t[1]] ^ rc, SB[t[2]], SB[t[3]], SB[t[0]]]
            rc = _xt[rc]
        w.append([a ^ b for a, b in zip(w[i - 4], t)])
    return [sum(w[4 * r:4 * r + 4], []) for r in range(11)]


def aes_enc(rk, blk):
    s = [a ^ b for a, b in zip(blk, rk[0])]
    for r in range(1, 11):
        s = [SB[b] for b in s]
        s = [s[(i + 4 * (i % 4)) % 16] for i in range(16)]
        if r != 10:
            o = []
            for c in range(4):
                a = s[4 * c:4 * c + 4]
                t = a[0] ^ a[1] ^ a[2] ^ a[3]
                o += [a[k] ^ t ^ _xt[a[k] ^ a[(k + 1) % 4]] for k in range(4)]
            s = o
        s = [a ^ b for a, b in zip(s, rk[r])]
    return s


assert bytes(aes_enc(aes_key(bytes(range(16))), bytes(int(c * 2, 16) for c in "0123456789abcdef"))).hex() == \
    "69c4e0d86a7b0430d8cdb78070b4c55a"


def aes_ofb(seed):
    rk = aes_key([(112 + i + (seed >> ((5 * i) % 26))) & 0xff for i in range(16)])
    b = [0] * 16
    while True:
        b = aes_enc(rk, b)
        for k in range(0, 16, 4):
            yield int.from_bytes(bytes(b[k:k + 4]), "little")


# ---- Threefish-512 as specified in Skein 1.1/1.2's submission of 2008 (72 rounds) ----
_ROT = [[38, 30, 50, 53], [48, 20, 43, 31], [34, 14, 15, 27], [26, 12, 58, 7],
        [33, 49, 8, 42], [39, 27, 41, 14], [29, 26, 11, 9], [33, 51, 39, 35]]
_PERM = [2, 1, 4, 7, 6, 5, 0, 3]


def threefish512(key, tweak, pt):
    k = list(key)
    p = 0x5555555555555555
    for x in key:
        p ^= x
    k.append(p)
    t = [tweak[0], tweak[1], tweak[0] ^ tweak[1]]

    def sub(s):
        o = [k[(s + i) % 9] for i in range(8)]
        o[5] += t[s % 3]
        o[6] += t[(s + 1) % 3]
        o[7] += s
        return o
    v = list(pt)
    for d in range(72):
        if d % 4 == 0:
            v = [(a + b) & M64 for a, b in zip(v, sub(d // 4))]
        f = [0] * 8
        for j in range(4):
            x0, x1 = v[2 * j], v[2 * j + 1]
            y0 = (x0 + x1) & M64
            r = _ROT[d % 8][j]
            f[2 * j] = y0
            f[2 * j + 1] = (((x1 << r) | (x1 >> (64 - r))) & M64) ^ y0
        v = [f[_PERM[i]] for i in range(8)]
    return [(a + b) & M64 for a, b in zip(v, sub(18))]


def threefish_ofb(seed):
    kb = bytes(64 + i for i in range(64))
    tb = bytes(112 + i for i in range(16))
    key = [int.from_bytes(kb[i:i + 8], "little") for i in range(0, 64, 8)]
    tw = [int.from_bytes(tb[i:i + 8], "little") for i in range(0, 16, 8)]
    b = threefish512(key, tw, [seed & M64] + [0] * 7)
    tw[0] = 112
    while True:
        for w in b:
            yield w & M32
            yield w >> 32
        b = threefish512(key, tw, b)


# ---- cellular automaton (Pasqualoni) ----
CA_RULE = bytes.fromhex(
    "644b1003e533c576183ec60b8d98f1bc0211472fb3b17ee7caf33b194dc41e86c7a322d8155425b6e0ba404fe12d8f14"
    "3093d1dd7d1d630c2ebe66dc50d7f2690f350043444546596dc3aa4ed2832a6eb5912872fe556b5748c05ac9a27a56fc"
    "5e816284c1f99cacdbe69936b49753d67b58a4a77475071b17d5eb05417c3c7fec952c1c3a79bf0dfa0ae87065d9b7ef"
    "0820e4ae3171f79e6ada9a42e29d321afd5dcd2985a53da1bba906ab51f838aff624b23439d427b0b8b9f53f23bdce4c"
    "68e9c2132b9f6c37c89b0e4af4ffdecfd08980876090125fea8bad5c01cb73df82615be392041f78d326168a8cedeefb"
    "f0a08e774967a62194096f88a89652cc")
_CR = list(CA_RULE) + list(CA_RULE)[:255]


def ca(seed):
    rule = _CR
    W = 2056
    c = [0] * W
    s = seed
    c[W - 1] = s & 0xff
    if s != 0xffffffff:
        s += 1
    for i in range(W - 4):
        c[i] = (s >> (i % 32)) & 0xff
    d = W - 1
    n = 0
    burn = W * W // 4
    while True:
        c[d] = rule[c[d - 1] + c[d]]
        c[d - 1] = rule[c[d - 2] + c[d - 1]]
        c[d - 2] = rule[c[d - 3] + c[d - 2]]
        a = d - 3
        if a == 0:
            c[0] = rule[c[0]]
            d = W - 1
        else:
            c[a] = rule[c[a - 1] + c[a]]
            d -= 4
        n += 1
        if n > burn:
            yield c[a] | c[a + 1] << 8 | c[a + 2] << 16 | c[a + 3] << 24


def uvag(seed):
    m = mt1999(seed)
    L = 259
    v = bytearray(i & 0xff for i in range(L))
    key = bytearray()
    while len(key) < 256:
        key += next(m).to_bytes(4, "little")
    key[255] = 0
    kp = tot = 0
    for i in range(L):
        tot = (tot + key[kp]) % L
        kp += 1
        v[tot], v[i] = v[i], v[tot]
        if key[kp] == 0:
            kp = 0
    si = r = 0
    while True:
        si = (si + 1) & 0xff
        o = v[si]
        w = (int.from_bytes(v[o:o + 4], "little") + r) & M32
        v[o:o + 4] = w.to_bytes(4, "little")
        r = (r + w) & M32
        yield r


# ---- the generators of GNU R; all yield the uniform deviate ----
I2 = 2.328306437080797e-10


def _fix(x):
    if x <= 0.0:
        return 0.5 * I2
    if 1.0 - x <= 0.0:
        return 1.0 - 0.5 * I2
    return x


def _scr(seed):
    s = seed & M32
    for _ in range(50):
        s = (69069 * s + 1) & M32
    while True:
        s = (69069 * s + 1) & M32
        yield s


def _scr0(seed):
    s = seed & M32
    for _ in range(50):
        s = (69069 * s + 1) & M32
    return s


def r_wh(seed):
    s = _scr(seed)
    a, b, c = next(s) % 30269 or 1, next(s) % 30307 or 1, next(s) % 30323 or 1
    while True:
        a = a * 171 % 30269
        b = b * 172 % 30307
        c = c * 170 % 30323
        v = a / 30269.0 + b / 30307.0 + c / 30323.0
        yield _fix(v - int(v))


def r_mc(seed):
    s = _scr(seed)
    a, b = next(s) or 1, next(s) or 1
    while True:
        a = (36969 * (a & 65535) + (a >> 16)) & M32
        b = (18000 * (b & 65535) + (b >> 16)) & M32
        yield _fix((((a << 16) & M32) ^ (b & 65535)) * I2)


def r_sd(seed):
    s = _scr(seed)
    a, b = next(s) or 1, next(s) | 1
    while True:
        a ^= (a >> 15) & 0o377777
        a ^= (a << 17) & M32
        b = (b * 69069) & M32
        yield _fix((a ^ b) * I2)


def r_mt(seed):
    s = _scr(seed)
    next(s)
    mt = [next(s) for _ in range(624)]
    while True:
        for k in range(624):
            y = (mt[k] & 0x80000000) | (mt[(k + 1) % 624] & 0x7fffffff)
            mt[k] = mt[(k + 397) % 624] ^ (y >> 1) ^ (0x9908b0df if y & 1 else 0)
        for k in range(624):
            y = mt[k]
            y ^= y >> 11
            y ^= (y << 7) & 0x9d2c5680
            y ^= (y << 15) & 0xefc60000
            y ^= y >> 18
            yield _fix(y * 2.3283064365386963e-10)


def _ran_array(rx, n):
    MM = 1 << 30
    a = list(rx)
    for j in range(100, n):
        a.append((a[j - 100] - a[j - 37]) % MM)
    nx = []
    j = n
    for i in range(37):
        nx.append((a[j - 100] - a[j - 37]) % MM)
        j += 1
    for i in range(37, 100):
        nx.append((a[j - 100] - nx[i - 37]) % MM)
        j += 1
    rx[:] = nx
    return a


def r_taocp(seed):
    KK, LL, MM = 100, 37, 1 << 30
    sd = _scr0(seed) % 1073741821
    x = [0] * (KK + KK)
    ss = (sd + 2) & (MM - 2)
    for j in range(KK):
        x[j] = ss
        ss <<= 1
        if ss >= MM:
            ss -= MM - 2
    x[1] += 1
    ss = sd & (MM - 1)
    t = 69
    while t:
        for j in range(KK - 1, 0, -1):
            x[j + j] = x[j]
            x[j + j - 1] = 0
        for j in range(KK + KK - 2, KK - 1, -1):
            x[j - (KK - LL)] = (x[j - (KK - LL)] - x[j]) % MM
            x[j - KK] = (x[j - KK] - x[j]) % MM
        if ss & 1:
            for j in range(KK, 0, -1):
                x[j] = x[j - 1]
            x[0] = x[KK]
            x[LL] = (x[LL] - x[KK]) % MM
        if ss:
            ss >>= 1
        else:
            t -= 1
    rx = [0] * KK
    for j in range(LL):
        rx[j + KK - LL] = x[j]
    for j in range(LL, KK):
        rx[j - LL] = x[j]
    for _ in range(10):
        _ran_array(rx, KK + KK - 1)
    while True:
        _ran_array(rx, 1009)
        for v in rx:
            yield _fix(v * 9.31322574615479e-10)


def u_int(u, kind):
    """integer form of an R deviate"""
    return int(u * (0x3fffffff if kind in (404, 405) else UINT_MAX))


INT = {205: aes_ofb, 206: threefish_ofb, 208: kiss, 209: superkiss, 204: uvag}
DBL = {400: r_wh, 401: r_mc, 402: r_sd, 403: r_mt, 404: r_taocp, 405: r_taocp}
