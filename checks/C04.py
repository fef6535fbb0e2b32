import numpy as np
from vlib.lib import Lib

PROP = "C04"
TECHNIQUE = "property-based testing: generated words/windows/offsets against bit-list definitions"
NOTE = "Bit-string reference model; all documented argument ranges are reachable, small ones are hit exhaustively in the long run."
RULE = ("case = batch of 40 utility calls (mask, window, rotate, cycle, bit query, cyclic ntuple from a word, from a vector, binary "
        "string). Non-trivial: at least one call whose window wraps a word or buffer boundary.")
CASES = dict(quick=12000, thorough=120000)
TIMEOUT = 30


def setup(ctx):
    ctx.lib = Lib(ctx.b()["lib"])


def word(R):
    return R.choice([0, 0xffffffff, 0x80000000, 1, 0xaaaaaaaa, 0x12345678, 1 << R.randint(0, 31),
                     R.getrandbits(32), R.getrandbits(32), R.getrandbits(32), R.getrandbits(32)])


def gen(R, i, tier):
    ops = []
    for _ in range(40):
        f = R.choice(["umask", "window", "rotl", "rotr", "cycle", "getbit", "bitntuple", "bitntuple", "cyclic", "cyclic", "cyclic",
                      "bit2uint", "sntuple", "swhole", "intbit"])
        if f == "umask":
            a = R.randint(0, 31)
            ops.append([f, a, R.randint(a, 31)])
        elif f == "window":
            a = R.randint(0, 31)
            ops.append([f, word(R), a, R.randint(a, 31), R.randint(0, 31)])
        elif f in ("rotl", "rotr"):
            ops.append([f, word(R), R.randint(1 if f == "rotl" else 0, 31)])
        elif f == "cycle":
            ops.append([f, word(R), R.randint(1, 32)])
        elif f == "intbit":
            ops.append([f, word(R), R.randint(0, 31)])
        elif f == "getbit":
            w = R.choice([32, 32, 31, 24, 16, R.randint(1, 32)])
            n = R.randint(1, 5)
            ops.append([f, w, [word(R) & ((1 << w) - 1) for _ in range(n)], R.randint(0, n * w - 1)])
        elif f == "bitntuple":
            w = R.choice([32, 32, 31, 24, 16, R.randint(1, 32)])
            n = R.randint(1, 6)
            ops.append([f, w, [word(R) & ((1 << w) - 1) for _ in range(n)], R.randint(1, 32), R.randint(0, n * w - 1)])
        elif f == "cyclic":
            il = R.randint(1, 8)
            nt = R.randint(1, R.choice([32, 32, 32 * il]))
            nt = min(nt, 32 * il)
            jl = -(-nt // 32) + R.choice([0, 0, 1, 2])
            off = R.choice([R.randint(0, 32 * il - 1), R.randint(0, 64), 32 * R.randint(0, il)])
            ops.append([f, [word(R) for _ in range(il)], jl, nt, off])
        elif f == "bit2uint":
            n = R.randint(1, 32)
            ops.append([f, "".join(R.choice("01") for _ in range(n))])
        else:
            w = R.choice([32, 31, 24, 16, R.randint(1, 32)]) if f == "sntuple" else 32
            ops.append([f, w, word(R) & ((1 << w) - 1), R.randint(1, 32), R.randint(0, w - 1 if f == "swhole" else 63)])
    return {"ops": ops}


def run(c, ctx):
    L = ctx.lib.l
    wrap = 0
    for o in c["ops"]:
        f = o[0]
        exp = got = None
        if f == "umask":
            got = L.b_umask(o[1], o[2])
            exp = int("".join("1" if o[1] <= k <= o[2] else "0" for k in range(32)), 2)
        elif f == "window":
            got = L.b_window(o[1], o[2], o[3], o[4])
            b = format(o[1], "032b")
            s = ["0"] * 32
            for k in range(o[2], o[3] + 1):
                d = k - o[2] + o[4]
                if 0 <= d < 32:
                    s[d] = b[k]
            exp = int("".join(s), 2)
        elif f in ("rotl", "rotr"):
            b = format(o[1], "032b")
            k = o[2]
            exp = int(b[k:] + b[:k], 2) if f == "rotl" else int(b[32 - k:] + b[:32 - k], 2)
            got = (L.b_rotate_left if f == "rotl" else L.b_rotate_right)(o[1], k)
        elif f == "cycle":
            a = np.array([o[1]], np.uint32)
            L.cycle(a.ctypes.data, o[2])
            b = format(o[1] & ((1 << o[2]) - 1), "0%db" % o[2])
            exp, got = int(b[-1] + b[:-1], 2), int(a[0])
        elif f == "intbit":
            got, exp = L.get_int_bit(o[1], o[2]), o[1] >> o[2] & 1
        elif f == "getbit":
            ctx.lib.glob("rmax_bits").value = o[1]
            a = np.array(o[2], np.uint32)
            got = L.get_bit(a.ctypes.data, o[3])
            exp = int("".join(format(x, "0%db" % o[1]) for x in o[2])[o[3]])
        elif f == "bitntuple":
            ctx.lib.glob("rmax_bits").value = o[1]
            a = np.array(o[2], np.uint32)
            got = L.get_bit_ntuple(a.ctypes.data, len(a), o[3], o[4])
            s = "".join(format(x, "0%db" % o[1]) for x in o[2])[::-1]   # s[0] = rightmost bit
            s = s * (2 + 32 // len(s))
            exp = int(s[o[4]:o[4] + o[3]][::-1], 2)
            wrap += o[4] % o[1] + o[3] > o[1]
            if list(a) != o[2]:
                return "bit ntuple query modified its input", "x"
        elif f == "cyclic":
            a = np.array(o[1], np.uint32)
            out = np.full(o[2] + 2, 0xDEADBEEF, np.uint32)
            L.get_ntuple_cyclic(a.ctypes.data, len(a), out[1:].ctypes.data, o[2], o[3], o[4])
            s = "".join(format(x, "032b") for x in o[1])
            s = s * (2 + (o[3] + o[4]) // len(s))
            exp = int(s[o[4]:o[4] + o[3]], 2)
            got = 0
            for x in out[1:-1]:
                got = (got << 32) | int(x)
            wrap += o[4] % 32 + o[3] > 32
            if out[0] != 0xDEADBEEF or out[-1] != 0xDEADBEEF or list(a) != o[1]:
                return "cyclic ntuple %r wrote outside its output" % (o,), "x"
        elif f == "bit2uint":
            got, exp = L.bit2uint(o[1].encode(), len(o[1])), int(o[1], 2)
        elif f == "sntuple":
            if not hasattr(L, "vf_static_ntuple"):
                continue
            ctx.lib.glob("rmax_bits").value = o[1]
            got = L.vf_static_ntuple(o[2], o[3], o[4]) & 0xffffffff
            s = format(o[2], "0%db" % o[1])[::-1] * 66
            exp = int(s[o[4] % o[1]:o[4] % o[1] + o[3]][::-1], 2)
            wrap += o[4] % o[1] + o[3] > o[1]
        else:
            if not hasattr(L, "vf_static_ntuple_whole"):
                continue
            got = L.vf_static_ntuple_whole(o[2], o[3], o[4]) & 0xffffffff
            s = format(o[2], "032b")[::-1] * 3
            exp = int(s[o[4]:o[4] + o[3]][::-1], 2)
            wrap += o[4] + o[3] > 32
        if got != exp:
            return "%r returned %#x, definition gives %#x" % (o, got, exp), "x"
    return None, "wrap" if wrap else None, {"evals": len(c["ops"])}


def shrink(c):
    if len(c["ops"]) > 1:
        for o in c["ops"]:
            yield {"ops": [o]}
    else:
        o = c["ops"][0]
        for k in range(1, len(o)):
            if isinstance(o[k], list):
                for j in range(len(o[k])):
                    if o[k][j]:
                        yield {"ops": [o[:k] + [o[k][:j] + [0] + o[k][j + 1:]] + o[k + 1:]]}
