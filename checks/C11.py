import os
import re
import subprocess
import numpy as np
from vlib.lib import Lib, in_child
from vlib.cli import dh, rows, ROWFLAGS

PROP = "C11"
TECHNIQUE = "differential and round-trip property testing of output mode over generated generators, seeds, counts, formats and destinations"
NOTE = ("Oracle: the same generator allocated, seeded and drawn through the library; file contents compared byte for byte, then fed back "
        "through the matching input generator and compared with the direct stream and direct test rows.")
RULE = ("case = (generator by number or name, seed or random seed, count, format, destination, observation: content, stream round trip, "
        "test-row round trip). Non-trivial: at least one value written.")
CASES = dict(quick=5000, thorough=60000)
TIMEOUT = 60
POOL = list(range(62)) + [203, 204, 205, 206, 208, 209, 400, 401, 402, 403, 404, 405] * 3
BITTESTS = [(100, 0), (101, 0), (200, 1), (200, 4), (17, 0), (209, 0), (205, 0), (102, 0)]


def setup(ctx):
    ctx.lib = Lib(ctx.b()["lib"])
    ctx.gens = {i: ctx.lib.l.vf_rng_name(i).decode() for i in set(POOL) if ctx.lib.l.vf_rng_exists(i)}


def gen(R, i, tier):
    n = R.choice([1, 2, 3, R.randint(1, 100), R.randint(1, 1000), R.randint(1, 1000), R.randint(1000, 70000) if R.random() < .15 else 17])
    c = {"g": R.choice(POOL), "byname": R.random() < .25, "S": R.choice([1, R.randint(1, 100), R.randint(1, 2**31 - 1), R.randint(2**31, 2**32 - 1),
         0 if R.random() < .3 else 5]), "n": n, "fmt": R.choice([0, 0, 1, 1, 1, 2]), "dest": R.choice(["stdout", "file", "file", "dash"]),
         "kind": R.choice(["content", "content", "stream", "rows"]), "D": R.choice([None, None, 0, "seed"]), "B": R.random() < .1,
         "s": R.choice([None, None, 0, 1]), "pre": R.random() < .3}
    if c["kind"] == "rows":
        c["g"] = R.choice([14, 13, 205, 206, 208, 209, 16, 17, 40])
        c["test"], c["nt"] = R.choice(BITTESTS)
        c["ts"] = R.choice([R.randint(20, 200), R.randint(20, 600)])
        c["ps"] = R.choice([1, 2, 3])
        c["fmt"] = R.choice([0, 1])
    elif i % 25 == 7:
        # a raw stream without a count: endless, read from a pipe (by this check or by the program itself)
        c["kind"], c["fmt"], c["zero"] = "endless", 0, R.random() < .5
        c["S"] = c["S"] or 7
        c["into"] = R.random() < .5
        if c["into"]:
            c["g"] = R.choice([14, 13, 205, 206, 208, 209, 16])
            c["test"], c["nt"] = R.choice(BITTESTS)
            c["ts"], c["ps"] = R.randint(20, 300), R.choice([1, 2, 3])
    return c


def draws(ctx, g, s, n, dbl):
    def f():
        r = ctx.lib.l.vf_alloc(g)
        ctx.lib.l.vf_seed(r, s)
        if dbl:
            o = np.zeros(n)
            ctx.lib.l.vf_draw_d(r, n, o.ctypes.data)
        else:
            o = np.zeros(n, np.uint64)
            ctx.lib.l.vf_draw(r, n, o.ctypes.data)
        return o
    return in_child(f)


def endless(c, ctx, d):
    g, n = c["g"], c["n"]
    if c["into"] and (ctx.lib.l.vf_rng_max(g) != 0xffffffff or ctx.lib.l.vf_rng_min(g) != 0):
        return None, None
    args = [ctx.b()["exe"], "-o", "-O", "0", "-g", str(g), "-S", str(c["S"])] + (["-t", "0"] if c["zero"] else []) + (["-f", "-"] if c["dest"] == "dash" else [])
    p = subprocess.Popen(args, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=d, env={"PATH": os.environ.get("PATH", "")})
    try:
        if not c["into"]:
            out = b""
            while len(out) < 4 * n:
                x = p.stdout.read(4 * n - len(out))
                if not x:
                    break
                out += x
            p.stdout.close()
            rc = p.wait(timeout=30)
            e = (draws(ctx, g, c["S"], n, False) & np.uint64(0xffffffff)).astype("<u4").tobytes()
            if out != e:
                return "endless raw output of generator %d seed %d differs from its stream (%d of %d bytes)" % (g, c["S"], len(out), len(e)), "x"
            return None, "endless"
        a = ["-d", c["test"], "-t", c["ts"], "-p", c["ps"], "-D", ROWFLAGS, "-c", "|"] + (["-n", c["nt"]] if c["nt"] else [])
        q = subprocess.Popen([ctx.b()["exe"], "-g", "200"] + [str(x) for x in a], stdin=p.stdout, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=d)
        p.stdout.close()
        got = q.communicate(timeout=40)[0].decode("latin1")
        p.wait(timeout=30)
    finally:
        p.kill()
        p.wait()
    r1 = dh(ctx, ["-g", g, "-S", c["S"]] + a)
    if not rows(r1.out) or rows(r1.out) != rows(got):
        return "test %d directly: %s, through a pipe: %s" % (c["test"], rows(r1.out), rows(got)), "x"
    return None, "pipe"


def run(c, ctx):
    L, g = ctx.lib, c["g"]
    d = os.path.join(ctx.scratch, "w%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "out.dat")
    n = c["n"]
    if c["kind"] == "endless":
        return endless(c, ctx, d)
    if c["kind"] == "rows":
        S = c["S"] or 5
        if ctx.lib.l.vf_rng_max(g) != 0xffffffff or ctx.lib.l.vf_rng_min(g) != 0:
            return None, None
        w = draws(ctx, g, S, 400000, False).astype(np.uint32)
        L.use(w, 32)
        e = L.run_test(c["test"], c["ts"], c["ps"], c["nt"], std=True)
        n = max(16, e["consumed"])
        if n > len(w):
            return None, None
        c = dict(c, S=S, n=n)
    args = ["-g", ctx.gens[g] if c["byname"] else g, "-o", "-t", n]
    if c["fmt"] == 0 and c["B"]:
        args += ["-B"]
    elif not (c["fmt"] == 1 and c["B"]):    # unsigned text is the default format
        args += ["-O", c["fmt"]]
    if c["S"]:
        args += ["-S", c["S"]]
    if c["D"] is not None:
        args += ["-D", c["D"]]
    if c["s"] is not None:
        args += ["-s", c["s"]]
    tofile = c["dest"] == "file" or c["kind"] != "content"
    if tofile:
        if c["pre"]:
            with open(p, "wb") as fh:
                fh.write(b"old contents\n" * 5000)
        args += ["-f", p]
    elif c["dest"] == "dash":
        args += ["-f", "-"]
    r = dh(ctx, args, binary=True, cwd=d)
    if r.timeout or r.rc != 0:
        return "output mode failed: rc %s %s" % (r.rc, r.err[:300]), "x"
    out = open(p, "rb").read() if tofile else r.out
    if tofile and r.out.strip():
        return "output to a file also wrote %r to standard output" % r.out[:100], "x"
    if c["fmt"] == 0:
        if not c["S"]:
            return (None if len(out) == 4 * n else "%d bytes for %d raw values" % (len(out), n)), "raw-random"
        e = (draws(ctx, g, c["S"], n, False) & np.uint64(0xffffffff)).astype("<u4").tobytes()
        if out != e:
            k = next((j for j in range(min(len(out), len(e))) if out[j] != e[j]), min(len(out), len(e)))
            return "raw output of generator %d seed %d differs at byte %d (%d bytes, expected %d)" % (g, c["S"], k, len(out), len(e)), "x"
    else:
        ls = out.decode("latin1").split("\n")
        if ls[-1] != "":
            return "text output does not end with a newline", "x"
        ls = ls[:-1]
        com = [l for l in ls if l.startswith("#")]
        hd = [l for l in ls if ":" in l and not l.startswith("#")]
        vals = [l.strip() for l in ls if not l.startswith("#") and ":" not in l]
        H = {x.split(":")[0].strip(): x.split(":")[1].strip() for x in hd}
        if H.get("count") != str(n) or H.get("numbit") != "32" or (H.get("type", "")[:1] not in ("d", "u", "i") if c["fmt"] == 1 else H.get("type", "")[:1]
                                                                   not in ("f", "e", "g")):
            return "text header %s for %d values of format %d" % (H, n, c["fmt"]), "x"
        m = re.search(r"generator (.*?)\s+seed = (\d+)", "\n".join(com))
        if not m or m.group(1) != ctx.gens[g]:
            return "comment header %r does not name generator %s" % (com, ctx.gens[g]), "x"
        seed = int(m.group(2))
        if c["S"] and seed != c["S"]:
            return "comment header shows seed %d for -S %d" % (seed, c["S"]), "x"
        if len(vals) != n:
            return "%d values written, %d requested" % (len(vals), n), "x"
        e = draws(ctx, g, seed, n, c["fmt"] == 2)
        if c["fmt"] == 1:
            bad = [k for k in range(n) if int(vals[k]) != int(e[k]) & 0xffffffff]
        else:
            bad = [k for k in range(n) if abs(float(vals[k]) - e[k]) > 6e-11]
        if bad:
            return "generator %d seed %d: value %d written as %s, drawn as %r" % (g, seed, bad[0], vals[bad[0]], e[bad[0]]), "x"
    lab = "content-%d" % c["fmt"]
    inp = 201 if c["fmt"] == 0 else 202
    if c["kind"] == "stream" and (c["fmt"] or n >= 16) and c["S"]:
        import ctypes as C
        L.glob("filename", C.c_char * 1024).value = p.encode()
        back = draws(ctx, inp, 1, n, False)
        if back is None:
            return "the written file was rejected by the reader", "x"
        e = draws(ctx, g, c["S"], n, c["fmt"] == 2)
        if c["fmt"] == 2:
            bad = np.abs(back / 4294967295.0 - np.minimum(e, 1)) > 1e-9
        else:
            bad = back != (e & np.uint64(0xffffffff))
        if bad.any():
            k = int(np.nonzero(bad)[0][0])
            return "round trip of generator %d format %d: value %d comes back as %d, was %r" % (g, c["fmt"], k, back[k], e[k]), "x"
        lab = "stream-%d" % c["fmt"]
    if c["kind"] == "rows":
        a = ["-d", c["test"], "-t", c["ts"], "-p", c["ps"], "-D", ROWFLAGS, "-c", "|"] + (["-n", c["nt"]] if c["nt"] else [])
        r1 = dh(ctx, ["-g", g, "-S", c["S"]] + a)
        r2 = dh(ctx, ["-g", inp, "-f", p] + a)
        if not rows(r1.out) or rows(r1.out) != rows(r2.out):
            return "test %d directly: %s, from the written file: %s" % (c["test"], rows(r1.out), rows(r2.out)), "x"
        lab = "rows-%d" % c["fmt"]
    return None, lab, {"evals": n}


def shrink(c):
    for m in (1, 16, c["n"] // 2, c["n"] - 1):
        if 1 <= m < c["n"]:
            yield dict(c, n=m)
    for k, v in (("byname", False), ("D", None), ("s", None), ("B", False), ("pre", False), ("S", 1), ("dest", "stdout")):
        if c[k] != v:
            yield dict(c, **{k: v})
    for key in ("ts", "ps"):
        if c.get(key, 0) > 20:
            yield dict(c, **{key: c[key] // 2})
