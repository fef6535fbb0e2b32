import ctypes as C
import os
import subprocess
import time
import numpy as np
from vlib.lib import Lib
from vlib.cli import dh, rows, textvals, ROWFLAGS, T

PROP = "C09"
TECHNIQUE = "model-based property testing: generated raw files, draw/seed histories and pipe chunkings against a cyclic word-list model"
NOTE = ("Oracle: numpy view of the generated bytes as native 32-bit words, read cyclically; the library generator is compared word by "
        "word with its counters, the executable through its result rows, usage and rewind reports and through output mode.")
RULE = ("case = (file bytes incl. trailing partial word, access history or test run, source: regular file through the library, through "
        "the executable, or standard input with a chunking). Non-trivial: at least one word of data was compared (rewind, no rewind, "
        "re-seed, dry pipe and rejected file are separate classes).")
CASES = dict(quick=5000, thorough=60000)
TIMEOUT = 60
TESTS = [(100, 0), (100, 0), (101, 0), (200, 1), (200, 3), (200, 8), (201, 2), (201, 4), (202, 3), (202, 5), (203, 0), (203, 2), (203, 7), (204, 0),
         (206, 0), (209, 0), (15, 0), (13, 0), (8, 0)]
NEED = {15: 100000, 8: 300000}


def setup(ctx):
    ctx.lib = Lib(ctx.b()["lib"])


def gen(R, i, tier):
    n = R.choice([16, 17, R.randint(16, 64), R.randint(16, 400), R.randint(16, 5000), 1024, 4096 // 4 + R.randint(-1, 1),
                  R.randint(5000, 90000) if R.random() < .2 else 33])
    c = {"n": n, "extra": R.choice([0, 0, 1, 2, 3]), "content": R.choice(["rand", "rand", "rand", "zero", "ff", "nl", "seq", "ascii"]),
         "cs": R.getrandbits(32), "name": R.choice(["r.bin", "r.bin", "a b.dat", "-dash", "long", "deep", "x", ".hid", "r,b:c|d"])}
    k = c["kind"] = R.choice(["lib", "lib", "lib", "cli", "cli", "stdin", "stdin", "stdout", "dry", "bad" if R.random() < .4 else "lib"])
    if k == "lib":
        ops = []
        for _ in range(R.randint(1, 10)):
            x = R.random()
            if x < .2:
                ops.append(["s", R.choice([0, 0, 1, R.getrandbits(32)])])
            elif x < .3:
                ops.append(["q", 0])
            else:
                ops.append([R.choice("iid"), R.choice([1, 2, n - 1, n, n + 1, R.randint(1, 3 * n), R.randint(1, n), 2 * n, 5 * n if n < 2000 else 3])])
        c["ops"] = ops + [["i", R.randint(1, 2 * n)]]
        x = R.random()
        if x < .008:          # a file of more than a megabyte, read across its end
            n = c["n"] = R.randint(260000, 1400000)
            c["ops"] = [["s", R.getrandbits(32)], ["i", R.randint(1, n)], ["i", n], ["q", 0], ["i", R.randint(1, 9)]]
        elif x < .014:        # tens of thousands of rewinds
            n = c["n"] = R.randint(16, 20)
            c["ops"] = [["i", R.randint(65530, 66000) * n + R.randint(0, n)], ["q", 0], ["i", R.randint(1, 2 * n)], ["q", 0]]
    elif k in ("cli", "stdin"):
        t, nt = R.choice(TESTS)
        if c["content"] in ("ff", "zero"):
            t, nt = R.choice([(100, 0), (101, 0), (203, 0), (203, 2)])  # rejection sampling in others never ends on constants
        c["test"], c["nt"] = t, nt
        c["ts"] = R.choice([R.randint(4, 60), R.randint(4, 800), n, n + 1, max(4, n // 2)])
        if t == 203:
            c["ts"] = min(c["ts"], 2000)
        c["ts"] = min(c["ts"], 20000)
        c["ps"] = R.choice([1, 1, 2, 3, R.randint(1, 8)])
        c["S"] = R.choice([None, 1, R.randint(1, 2**31 - 1)])
        c["s"] = R.choice([0, 0, 1])
        c["rate"] = R.random() < .15 and k == "cli"
    if k in ("stdin", "stdout", "dry"):
        c["chunks"] = R.choice(["all", "all", "odd", "bytes", "slow"])
    if k == "stdout":
        c["fmt"] = R.choice([0, 1])
        c["want"] = R.choice([1, 4, n - 1, n, R.randint(1, n)])
    if k == "dry":
        c["have"] = R.choice([0, 1, R.randint(1, 50)])
        c["miss"] = R.randint(1, 5)
    if k == "bad":
        c["bad"] = R.choice(["small", "small", "empty", "missing", "dir", "nofile"])
        c["n"] = R.randint(0, 15)
        c["extra"] = R.randint(0, 3)
    return c


def data(c):
    rs = np.random.RandomState(c["cs"])
    nb = 4 * c["n"] + c["extra"]
    k = c["content"]
    if k == "rand":
        b = rs.bytes(nb)
    elif k == "zero":
        b = bytes(nb)
    elif k == "ff":
        b = b"\xff" * nb
    elif k == "nl":
        b = bytes(rs.choice([10, 13, 26, 0, 255, 35], nb).astype(np.uint8))
    elif k == "ascii":
        b = bytes((rs.randint(32, 127, nb)).astype(np.uint8))
    else:
        b = np.arange(c["n"] + 1, dtype="<u4").tobytes()[:nb]
    return b


def path(c, ctx):
    d = os.path.join(ctx.scratch, "w%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    nm = c["name"]
    if nm == "long":
        nm = "L" * 200
    if nm == "deep":
        nm = "/".join(["d" * 90] * 7) + "/f" * 1
        os.makedirs(os.path.join(d, os.path.dirname(nm)), exist_ok=True)
    return os.path.join(d, nm), d


def feed(ctx, args, b, mode, rs):
    """run with stdin written in chunks"""
    if mode == "all":
        return dh(ctx, args, stdin=b)
    p = subprocess.Popen([ctx.b()["exe"]] + [str(a) for a in args], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         cwd=ctx.scratch, env={"PATH": "/usr/bin:/bin", "LANG": "C"})
    import threading

    def w():
        try:
            pos, k = 0, 0
            f = p.stdin.fileno()
            while pos < len(b):
                m = 1 if mode == "bytes" and pos < 400 else int(rs.randint(1, 30)) if mode == "slow" and k < 20 else int(rs.randint(1, 9000))
                os.write(f, b[pos:pos + m])
                pos += m
                k += 1
                if k < 20 and mode in ("slow", "bytes"):
                    time.sleep(0.001)
        except OSError:
            pass
        try:
            p.stdin.close()
        except OSError:
            pass
    th = threading.Thread(target=w)
    th.start()
    out = []
    t2 = threading.Thread(target=lambda: out.append(p.stdout.read()))
    t2.start()
    err = p.stderr.read()
    th.join()
    t2.join()
    p.wait()

    class R:
        pass
    r = R()
    r.rc, r.out, r.err, r.timeout = p.returncode, out[0].decode("latin1"), err.decode("latin1"), False
    return r


def run(c, ctx):
    b = data(c)
    n = c["n"]
    w = np.frombuffer(b[:4 * n], "<u4")
    rs = np.random.RandomState(c["cs"] ^ 77)
    L = ctx.lib
    k = c["kind"]
    p, d = path(c, ctx)
    if k == "bad":
        f = ["-f", p]
        if c["bad"] == "small":
            open(p, "wb").write(b)
        elif c["bad"] == "empty":
            open(p, "wb").close()
        elif c["bad"] == "dir":
            os.makedirs(p, exist_ok=True)
        elif c["bad"] == "nofile":
            f = []
        r = dh(ctx, ["-g", 201] + f + ["-d", 100, "-t", 100, "-p", 1, "-D", ROWFLAGS, "-c", "|"])
        if r.timeout or r.rc < 0:
            return "unusable file (%s) killed the program: rc %s" % (c["bad"], r.rc), "x"
        if rows(r.out):
            return "unusable file (%s) produced a result: %s" % (c["bad"], rows(r.out)), "x"
        if not (r.err.strip() or r.out.strip()):
            return "unusable file (%s) rejected without a message" % c["bad"], "x"
        return None, "rejected"
    if k == "lib":
        with open(p, "wb") as fh:
            fh.write(b)
        L.glob("filename", C.c_char * 1024).value = p.encode()
        L.l.file_input_get_rtot.restype = C.c_long
        L.l.file_input_get_rtot.argtypes = [C.c_void_p]
        L.l.file_input_get_rewind_cnt.argtypes = [C.c_void_p]
        g = L.l.vf_alloc(201)
        pos, tot, evals, lab, since = 0, 0, 0, "plain", 0
        L.l.vf_seed(g, 1)
        for op, m in c["ops"]:
            if op == "s":
                L.l.vf_seed(g, m)
                if m:
                    pos, tot = 0, 0
                    lab = "reseed"
            elif op == "q":
                rt, rw = L.l.file_input_get_rtot(g), L.l.file_input_get_rewind_cnt(g)
                erw = (tot - 1) // n if tot else 0
                if rt != tot or rw != erw:
                    return "after %d draws of a %d word file: reported %d draws and %d rewinds (expected %d)" % (tot, n, rt, rw, erw), "x"
            else:
                ix = (pos + np.arange(m)) % n
                if op == "i":
                    o = np.zeros(m, np.uint64)
                    L.l.vf_draw(g, m, o.ctypes.data)
                    bad = o != w[ix]
                else:
                    o = np.zeros(m)
                    L.l.vf_draw_d(g, m, o.ctypes.data)
                    bad = np.abs(o - w[ix] / 4294967295.0) > 1e-9
                if bad.any():
                    j = int(np.nonzero(bad)[0][0])
                    return "draw %d of a %d word file is %r, word %d of the file is %r" % (tot + j, n, o[j], ix[j], w[ix[j]]), "x"
                if pos + m > n:
                    lab = "rewind"
                pos = (pos + m) % n
                tot += m
                evals += m
        rt, rw = L.l.file_input_get_rtot(g), L.l.file_input_get_rewind_cnt(g)
        if rt != tot or rw != (tot - 1) // n:
            return "after %d draws of a %d word file: reported %d draws and %d rewinds" % (tot, n, rt, rw), "x"
        return None, "lib-" + lab, {"evals": evals}
    if k == "stdout":
        r = feed(ctx, ["-g", 200, "-o", "-t", c["want"], "-O", c["fmt"], "-D", "test_name"], b, c["chunks"], rs)
        if c["fmt"] == 1:
            got = [int(x) for x in textvals(r.out)[1]]
        else:
            got = np.frombuffer(r.out.encode("latin1")[:4 * c["want"]], "<u4").tolist()
        if got != w[:c["want"]].tolist():
            return "standard input words %s... were passed on as %s... (%d of %d)" % (w[:4].tolist(), got[:4], len(got), c["want"]), "x"
        return None, "stdin-out", {"evals": len(got)}
    if k == "dry":
        need = c["have"] + c["miss"]
        r = feed(ctx, ["-g", 200, "-d", 100, "-t", need, "-p", 1, "-D", ROWFLAGS, "-c", "|"], b[:4 * c["have"] + c["extra"]][:4 * need - 1],
                 c["chunks"], rs)
        if len(b) >= 4 * c["have"] + c["extra"] or True:
            if rows(r.out):
                return "pipe with %d of %d words still gave a result %s" % (c["have"], need, rows(r.out)), "x"
            if not r.err.strip() or r.rc < 0:
                return "dry pipe: no error message (rc %s)" % r.rc, "x"
        return None, "dry"
    # rows
    t, nt, ts, ps = c["test"], c["nt"], c["ts"], c["ps"]
    a = ["-d", t, "-t", ts, "-p", ps, "-c", "|"]
    if nt:
        a += ["-n", nt]
    if c["S"]:
        a += ["-S", c["S"]]
    if c["s"]:
        a += ["-s", c["s"]]
    L.use(w, 32)
    # file and stdin words are scaled by UINT_MAX, so uniform deviates can be exactly 1
    e = uni_run(L, t, ts, ps, nt)
    used = e["consumed"]
    if k == "stdin":
        buf = np.resize(w, used + int(rs.randint(0, 3))).astype("<u4").tobytes()
        r = feed(ctx, ["-g", 200] + a + ["-D", ROWFLAGS], buf, c["chunks"], rs)
    else:
        with open(p, "wb") as fh:
            fh.write(b)
        fn = p
        if c["cs"] % 3 == 0:
            fn = os.path.relpath(p, d) if not c["name"].startswith("-") else "./" + os.path.relpath(p, d)
        r = dh(ctx, ["-g", 201, "-f", fn] + a + ["-D", ROWFLAGS + T["file_rng_stat"] + (T["rate"] if c["rate"] else 0)], cwd=d)
    got = [x[4] for x in rows(r.out)]
    exp = e["ks"]
    if len(got) != len(exp) or any(abs(float(g) - x) > 2e-8 for g, x in zip(got, exp)):
        return "test %d on %s: p-values %s, the file's words give %s (rc %s %s)" % (t, k, got, exp.tolist(), r.rc, r.err[:200]), "x"
    lab = k
    if k == "cli":
        import re
        m = re.search(r"file_input_raw (\d+) rands \((\d+) bytes\) were used", r.out)
        if not m or int(m.group(1)) != used or int(m.group(2)) != 4 * used:
            return "usage report %s, %d words were used" % (m and m.group(0), used), "x"
        rw = (used - 1) // n
        ms = re.findall(r"was rewound (\d+) times", r.out + r.err)
        if ms != [str(rw)]:
            return "rewind report %s, the %d word file was restarted %d times for %d words" % (ms, n, rw, used), "x"
        if fn not in r.out:
            return "file name not shown in the usage report", "x"
        lab = "cli-rewind" if rw else "cli"
    return None, lab, {"evals": used}


def uni_run(L, t, ts, ps, nt):
    L.glob("psamples").value = ps
    L.l.vf_set_unit_scale()
    return L.run_test(t, ts, ps, nt, std=True)


def shrink(c):
    for m in (16, c["n"] // 2, c["n"] - 1):
        if 16 <= m < c["n"]:
            d = dict(c, n=m)
            if "want" in c:
                d["want"] = min(c["want"], m)
            yield d
    if c["extra"]:
        yield dict(c, extra=0)
    if c["content"] != "seq":
        yield dict(c, content="seq")
    for k in range(len(c.get("ops", []))):
        yield dict(c, ops=c["ops"][:k] + c["ops"][k + 1:])
    for k, (o, m) in enumerate(c.get("ops", [])):
        if o in "id" and m > 1:
            for q in (1, m // 2, m - 1):
                yield dict(c, ops=c["ops"][:k] + [[o, q]] + c["ops"][k + 1:])
    for key in ("ts", "ps"):
        if c.get(key, 0) > 4:
            yield dict(c, **{key: c[key] // 2})
    if c["name"] != "x":
        yield dict(c, name="x")


def known_still_fails(k, ctx):
    b = np.arange(1, 3001, dtype="<u4").tobytes()
    r = dh(ctx, ["-g", 200, "-d", 100, "-t", 2900, "-p", 1, "-D", T["pvalues"] + T["rate"]], stdin=b)
    return "EOF" in r.err
