import os
import random
from checks import C10
from vlib.cli import dh, rows, ROWFLAGS

PROP = "C12"
TECHNIQUE = "mutation and grammar fuzzing of input files against the AddressSanitizer build of the executable"
NOTE = ("Oracle: AddressSanitizer, termination within a limit, no death by signal, a message whenever no result row is printed, and equal "
        "results from the sanitizer build and the plain build (a difference shows use of uninitialised data).")
RULE = ("case = (mutated rendering of a valid text file, a header grammar with hostile numbers, random bytes, or truncated raw data; used "
        "as text file, raw file or standard input). Non-trivial: the program opened the file and either rejected it or used it.")
CASES = dict(quick=4000, thorough=60000)
VARIANTS = ["plain", "asan"]
TIMEOUT = 60
TOK = ["type", "count", "numbit", "type:", ":", ",", "\t", " ", "#", "\n", "\r\n", "\r", "\0", "-1", "0", "1", "33", "40", "2147483648", "4294967296",
       "99999999999999999999", "0x", "1e400", "nan", "inf", "-inf", "-0.5", "2.5", "%s%s%s%n", "\xff", "0" * 40, "1" * 1030, "a" * 130, "b" * 129,
       "x" * 1022, "y" * 1023, "z" * 1024, "w" * 5000, " " * 1100, ": " * 60, "type: b", "numbit: 0", "numbit: 64", "count: 0", "count: -3"]


def gen(R, i, tier):
    k = R.choice(["mut", "mut", "mut", "hdr", "hdr", "rand", "raw", "stdin", "bin", "bin"])
    c = {"kind": k, "cs": R.getrandbits(32), "ts": R.choice([1, 5, 40, 300]), "ps": R.choice([1, 1, 3]), "v": R.random() < .06,
         "s": R.choice([0, 1]), "trunc": R.choice([None, None, None, R.randint(0, 400)]), "nmut": R.choice([0, 1, 1, 2, 3, 6])}
    if k in ("mut", "bin"):
        b = C10.gen(R, i, tier)
        b["kind"] = "lib"
        b["n"] = min(b["n"], 40)
        if k == "bin":
            b["type"] = "b"
        c["base"] = {x: b[x] for x in ("type", "numbit", "n", "cs", "dist", "spell", "order", "sep", "comments", "unknown", "count", "lastnl", "kind")}
    elif k in ("raw", "stdin"):
        c["len"] = R.choice([0, 1, 3, 4, 60, 63, 64, 65, 67, 68, R.randint(0, 3000)])
    return c


def content(c):
    R = random.Random(c["cs"])
    k = c["kind"]
    if k == "rand":
        n = R.choice([0, 1, 5, 100, 3000])
        return bytes(R.getrandbits(8) if R.random() < .5 else R.choice(b" \n\t:#01,") for _ in range(n))
    if k in ("raw", "stdin"):
        return bytes(R.getrandbits(8) for _ in range(c["len"]))
    if k in ("mut", "bin"):
        s = C10.build(c["base"])[0]
    else:
        num = lambda: R.choice(["0", "1", "-1", "5", "31", "32", "33", "64", "1000", "2147483647", "2147483648", "-2147483648", "4294967295",
                                "99999999999999999999", "", "abc", "3x", "1" * 140, "7 8", " ", "1.5"])
        ln = []
        if R.random() < .6:   # a valid header up to one hostile number
            t = R.choice("diuoxXbbbfeg")
            h = {"type": t, "count": R.choice(["1", "2", "5", "30"]), "numbit": R.choice(["1", "8", "31", "32", "32"])}
            if R.random() < .6:
                h[R.choice(["count", "numbit"])] = num()
            keys = R.sample(list(h), 3)
            ln = [k2 + ": " + h[k2] for k2 in keys]
            for _ in range(R.randint(0, 40)):
                x = R.getrandbits(R.choice([8, 32, 32]))
                ln.append({"o": "%o", "x": "%x", "X": "%X"}.get(t, "%d") % x if t not in "bfeg" else bin(x)[2:].zfill(R.choice([32, 32, 8, 40])) if t == "b"
                          else R.choice(["%.8f" % (x / 2.0**32), "%g" % x, "-%d" % x, "nan", "1e999"]))
            ln.append("")
            b = bytearray("\n".join(ln).encode())
            return bytes(b)
        for key in R.sample(["type", "count", "numbit"], 3) + R.sample(["type", "count", "numbit", "other", "typex", "coun", ""], R.randint(0, 3)):
            v = R.choice(list("diueEfFgoxXbqzZ%\n1") + ["", "bb", "dd", "f" * 200]) if key.startswith("type") else num()
            ln.append(R.choice(["", "", "", "", " ", "\t"]) + key + R.choice([": ", ":", " ", ",", "", ":::: "]) + v)
            if R.random() < .2:
                ln.insert(R.randint(0, len(ln)), R.choice(["# c", "", " ", "\t\t", ":", "#" * 1100, "a b c", "q: 1"]))
        for _ in range(R.randint(0, 40)):
            ln.append(R.choice([str(R.getrandbits(R.randint(1, 40))), bin(R.getrandbits(R.randint(1, 40)))[2:], "%x" % R.getrandbits(32), "0.%d" % R.getrandbits(30),
                                "", "xyz", "-5", "1e-5", "01" * R.randint(1, 600)]))
        s = "\n".join(ln) + R.choice(["\n", "", "\n\n"])
    b = bytearray(s.encode("latin1"))
    for _ in range(c["nmut"]):
        x = R.random()
        p = R.randint(0, len(b)) if R.random() < .5 else R.randint(0, min(len(b), 80))
        if x < .35:
            b[p:p] = R.choice(TOK).encode("latin1")
        elif x < .55 and b:
            b[p % len(b)] = R.getrandbits(8)
        elif x < .8:
            del b[p:p + R.choice([1, 1, 2, 5, 30])]
        elif x < .9:
            q = R.randint(0, len(b))
            b[p:p] = b[q:q + R.randint(1, 60)]
        else:
            b[p:p] = b"\n" * R.randint(1, 3)
    return bytes(b)


def run(c, ctx):
    b = content(c)
    if c["trunc"] is not None:
        b = b[:c["trunc"]]
    d = os.path.join(ctx.scratch, "w%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "f")
    with open(p, "wb") as f:
        f.write(b)
    g = {"raw": 201, "stdin": 200}.get(c["kind"], 202)
    a = ["-g", g] + ([] if g == 200 else ["-f", p]) + ["-d", 100, "-t", c["ts"], "-p", c["ps"], "-s", c["s"], "-D", ROWFLAGS, "-c", "|"]
    if c["v"]:
        a = ["-v", 1] + a
    res = []
    for v in ("asan", "plain"):
        r = dh(ctx, a, variant=v, stdin=b if g == 200 else None, timeout=25)
        if r.timeout:
            return "%s build: no end within 25 s on %r" % (v, b[:300]), "x"
        if "AddressSanitizer" in r.err or r.rc < 0 or r.rc == 99:
            return "%s build: rc %s %s on %r" % (v, r.rc, r.err[:1500], b[:300]), "x"
        rr = rows(r.out)
        if not rr and not (r.err.strip()):
            return "%s build: neither a result nor a message on %r" % (v, b[:300]), "x"
        res.append(rr)
    if res[0] != res[1]:
        return "results differ between two builds of the same source (uninitialised data): %s / %s on %r" % (res[0], res[1], b[:300]), "x"
    return None, ("used-" if res[0] else "rejected-") + c["kind"]


def shrink(c):
    if c["nmut"]:
        yield dict(c, nmut=c["nmut"] - 1)
    for t in (0, 20, 60, 120, 200, 300):
        if c["trunc"] is None or t < c["trunc"]:
            yield dict(c, trunc=t)
    for k, v in (("v", False), ("ps", 1), ("ts", 1), ("s", 0)):
        if c[k] != v:
            yield dict(c, **{k: v})
