import ctypes as C
import numpy as np
from vlib.lib import Lib

PROP = "C03"
TECHNIQUE = "stateful property-based testing: generated request histories against a bit-queue model"
NOTE = ("Model-based: the oracle is a queue of the generator's output bits. Covers widths 1..32 and the shared and the "
        "per-test extraction routines.")
RULE = ("case = (generator width, output words, history of requests). Non-trivial: at least one request spans two generator "
        "outputs and the history draws more than one buffer refill.")
CASES = dict(quick=6000, thorough=100000)
TIMEOUT = 30


def setup(ctx):
    ctx.lib = Lib(ctx.b()["lib"])


def gen(R, i, tier):
    width = R.choice([1, 2, 3, 4, 7, 8, 15, 16, 17, 24, 30, 31, 31, 32, 32, R.randint(1, 32), R.randint(1, 32)])
    kind = R.choice(["uint", "bits", "bits", "mix", "mix", "static", "static", "reset"])
    nops = R.choice([R.randint(1, 10), R.randint(10, 80), R.randint(80, 300)])
    ops = []
    style = R.choice(["any", "const", "small", "big"])
    cst = R.randint(1, 128)
    if kind == "static":
        cst = R.randint(1, 32)
        for _ in range(nops):
            n = cst if style == "const" else R.randint(1, 8) if style == "small" else R.randint(1, 32)
            if style != "const" and n == width and width < 8:   # (ambiguous to judge at tiny widths)
                continue
            if style in ("any", "big") and width >= 8 and R.random() < .15:
                n = width                     # whole-output requests take a fresh output and leave pending bits alone
            ops.append(["s", n, 4])
    else:
        for _ in range(nops):
            if kind == "uint" or (kind in ("mix", "reset") and R.random() < .3):
                ops.append(["u", 32, 4])
            elif kind == "reset" and R.random() < .1:
                ops.append(["r", 0, 0])
            else:
                n = cst if style == "const" else R.randint(1, 8) if style == "small" else \
                    R.choice([32, 64, 96, 128, 127, 31, 33]) if style == "big" else R.randint(1, R.choice([32, 32, 128]))
                ops.append(["b", n, 4 * R.randint((n + 31) // 32, 6 if R.random() < .2 else (n + 31) // 32)])
    return {"width": width, "kind": kind, "seed": R.randint(0, 2**31), "ops": ops,
            "data": R.choice(["rand", "rand", "rand", "ones", "walk"])}


def words_for(c, n):
    rs = np.random.RandomState(c["seed"])
    w = c["width"]
    m = (1 << w) - 1
    if c["data"] == "ones":
        a = np.full(n, m, dtype=np.uint64)
        a[rs.randint(0, n, max(1, n // 7))] = 0
    elif c["data"] == "walk":
        a = (np.uint64(1) << (np.arange(n, dtype=np.uint64) % np.uint64(w)))
    else:
        a = rs.randint(0, 2**32, n, dtype=np.uint64) & np.uint64(m)
    return a.astype(np.uint32)


def lsb_words(words, width):
    """uint stream: generator bits least significant first, packed least significant first"""
    bits = ((words[:, None].astype(np.uint64) >> np.arange(width, dtype=np.uint64)) & np.uint64(1)).astype(np.uint8).ravel()
    n = len(bits) // 32
    b = bits[:n * 32].reshape(n, 32)
    return (b.astype(np.uint64) << np.arange(32, dtype=np.uint64)).sum(1).astype(np.uint64)


def run(c, ctx):
    L = ctx.lib
    w = c["width"]
    ops = c["ops"]
    if not ops:
        return None, None
    if c["kind"] == "static" and not hasattr(L.l, "vf_static_bits"):
        return None, None
    total = sum(o[1] for o in ops)
    nw = (total + 32 * 40 * (1 + sum(o[0] == "r" for o in ops))) // w + 64
    words = words_for(c, nw)
    L.use(words, w)
    nontriv = total > 300 and w != 32 or total > 400
    if c["kind"] == "static":
        L.l.vf_static_bits.restype = C.c_uint
        L.l.vf_static_bits.argtypes = [C.c_uint]
        if len(set(o[1] for o in ops)) == 1 and ops[0][1] == w:
            for k, o in enumerate(ops):
                g = L.l.vf_static_bits(w)
                if g != int(words[k]):
                    return "whole-output request %d returned %#x, generator produced %#x" % (k, g, words[k]), "x"
            return None, "static-whole"
        if any(o[1] == w for o in ops):
            return mixed_static(L, ops, w, words, nontriv)
        bits = "".join(format(int(x), "0%db" % w) for x in words[:(total // w) + 3])
        pos = 0
        for k, o in enumerate(ops):
            g = L.l.vf_static_bits(o[1])
            e = int(bits[pos:pos + o[1]], 2)
            pos += o[1]
            if g != e:
                return "request %d of %d bits returned %#x, stream has %#x (width %d)" % (k, o[1], g, e, w), "x"
        used = int(L.l.vf_consumed())
        if used != -(-pos // w):
            return "%d bits requested at width %d but %d outputs drawn" % (pos, w, used), "x"
        return None, "static" if nontriv else None
    # shared extraction
    op = np.array([{"u": 0, "b": 1, "r": 2}[o[0]] for o in ops], np.int32)
    nb = np.array([o[1] for o in ops], np.uint32)
    rs = np.array([4 if o[0] == "r" else o[2] for o in ops], np.uint32)   # (a reset records the outputs drawn so far)
    PAD = 8
    off = np.zeros(len(ops), np.uint32)
    tot = PAD
    for k in range(len(ops)):
        off[k] = tot
        tot += int(rs[k]) + PAD
    out = np.full(tot, 0xA5, np.uint8)
    L.l.vf_bits_history(len(ops), op.ctypes.data, nb.ctypes.data, rs.ctypes.data, out.ctypes.data, off.ctypes.data)
    # split at resets: after a reset, the stream resumes at the next generator output
    segs = []
    cur, start = [], 0
    for k, o in enumerate(ops):
        if o[0] == "r":
            segs.append((start, cur))
            cur, start = [], int(out[int(off[k]):int(off[k]) + 4].view(np.uint32)[0])
        else:
            cur.append(k)
    segs.append((start, cur))
    for k in range(len(ops)):
        e = int(off[k]) + int(rs[k])
        if not (out[e:e + PAD] == 0xA5).all():
            return "request %d wrote beyond its %d byte result" % (k, rs[k]), "x"

    def value(k):
        b = out[int(off[k]):int(off[k]) + int(rs[k])].view(np.uint32)
        v = 0
        for x in b:          # most significant word first
            v = (v << 32) | int(x)
        return v
    for start, seg in segs:
        if not seg:
            continue
        r = match(seg, ops, value, lsb_words(words[start:], w))
        if not r[0]:
            return r[1] + " (width %d)" % w, "x"
    return None, c["kind"] if nontriv else None


def mixed_static(L, ops, w, words, nontriv):
    """Some requests are exactly one output wide: they get whole outputs, in order; all the others
    together get, gap-free and in order, the bits of the remaining outputs."""
    if w < 8:
        return None, None
    uvals, bits = [], ""
    for o in ops:
        g = L.l.vf_static_bits(o[1])
        if g >> o[1]:
            return "request of %d bits returned the wider value %#x" % (o[1], g), "x"
        if o[1] == w:
            uvals.append(g)
        else:
            bits += format(g, "0%db" % o[1])
    used = int(L.l.vf_consumed())
    states = {(0, 0)}
    for n in range(used):
        x = int(words[n])
        xb = format(x, "0%db" % w)
        nxt = set()
        for a, b in states:
            if a < len(uvals) and uvals[a] == x:
                nxt.add((a + 1, b))
            rest = bits[b:b + w]
            if b < len(bits) and xb.startswith(rest):
                nxt.add((a, b + len(rest)))
            if b >= len(bits) and n == used - 1:     # an output drawn ahead
                nxt.add((a, b))
        states = nxt
        if not states:
            return "requests of mixed sizes (some of one whole output, width %d) skip, repeat or reorder bits at output %d" % (w, n), "x"
    if (len(uvals), len(bits)) not in states:
        return "requests of mixed sizes (width %d) do not add up to the %d outputs drawn" % (w, used), "x"
    return None, "static-mixed" if nontriv else None


def match(seg, ops, value, W):
    # words taken by whole-word requests must be in order; the remaining ones must be exactly
    # the concatenation of the bit requests.
    uvals = [value(k) for k in seg if ops[k][0] == "u"]
    breq = [k for k in seg if ops[k][0] == "b"]
    nb = sum(ops[k][1] for k in breq)
    if not breq:
        for j, v in enumerate(uvals):
            if v != int(W[j]):
                return False, "whole-word request %d returned %#x, stream has %#x" % (j, v, int(W[j]))
        return True, len(uvals)
    acc, sh = 0, 0
    for k in breq:
        v = value(k)
        if v >> ops[k][1]:
            return False, "request of %d bits returned a wider value %#x" % (ops[k][1], v)
        acc |= v << sh
        sh += ops[k][1]
    need = -(-nb // 32)
    bw = [(acc >> (32 * j)) & 0xffffffff for j in range(need)]
    lastmask = (1 << (nb - 32 * (need - 1))) - 1
    if not uvals:
        for j in range(need):
            m = lastmask if j == need - 1 else 0xffffffff
            if bw[j] != int(W[j]) & m:
                return False, "bit requests: word %d is %#x, stream has %#x" % (j, bw[j], int(W[j]) & m)
        return True, need
    # mixed: merge (backtracking-free when words are distinct; allow ambiguity via DP on equal words)
    states = {(0, 0)}
    n = 0
    PRE = 12
    while states:
        if any(a == len(uvals) and b >= need for a, b in states):
            return True, n
        if n >= len(W):
            break
        x = int(W[n])
        nxt = set()
        for a, b in states:
            if a < len(uvals) and uvals[a] == x:
                nxt.add((a + 1, b))
            if b < need:
                m = lastmask if b == need - 1 else 0xffffffff
                if bw[b] == x & m:
                    nxt.add((a, b + 1))
            elif b < need + PRE:      # prefetched, not yet handed out
                nxt.add((a, b + 1))
        states = nxt
        n += 1
    return False, "interleaved requests are not an in-order, duplicate-free split of the stream (stuck at word %d)" % n


def shrink(c):
    n = len(c["ops"])
    k = n // 2
    while k >= 1:
        for s in range(0, n, k):
            yield dict(c, ops=c["ops"][:s] + c["ops"][s + k:])
        k //= 2
    if c["data"] != "rand":
        yield dict(c, data="rand")
