import re
from vlib.lib import Lib
from vlib.cli import dh, T, ROWFLAGS

PROP = "C16"
TECHNIQUE = "metamorphic property testing (selection by number vs by name) and negative generation of unlisted numbers and mutated names"
NOTE = ("Oracles: the table of tests and generators documented for this version, the listing parsed back, equality of the reports of a run selected "
        "by number and by name, and absence of any result row for generated unlisted selections. Integers are drawn from the 32-bit range.")
RULE = ("case kinds: listing (tests, generators), a test by number and short name, a generator by number and name (result rows and output mode), an "
        "unlisted test or generator (gap/negative/huge number, mutated name). All non-trivial; classes by kind.")
CASES = dict(quick=8000, thorough=30000)
TIMEOUT = 120
TS = {0: 30, 1: 2000, 2: 60, 3: 60, 8: 300, 9: 300, 10: 1, 11: 1, 12: 1, 13: 60, 14: 60, 15: 400, 16: 200, 17: 2000, 100: 60, 101: 60, 102: 300, 200: 30, 201: 50,
      202: 50, 203: 50, 204: 30, 205: 50, 206: 60, 207: 60, 208: 200, 209: 300, 210: 10, 4: 1, 5: 1, 6: 1, 7: 1}
SNAMES = {0: "diehard_birthdays", 1: "diehard_operm5", 2: "diehard_rank_32x32", 3: "diehard_rank_6x8", 4: "diehard_bitstream", 5: "diehard_opso", 6: "diehard_oqso",
          7: "diehard_dna", 8: "diehard_count_1s_stream", 9: "diehard_count_1s_byte", 10: "diehard_parking_lot", 11: "diehard_2dsphere", 12: "diehard_3dsphere",
          13: "diehard_squeeze", 14: "diehard_sums", 15: "diehard_runs", 16: "diehard_craps", 17: "marsaglia_tsang_gcd", 100: "sts_monobit", 101: "sts_runs",
          102: "sts_serial", 200: "rgb_bitdist", 201: "rgb_minimum_distance", 202: "rgb_permutations", 203: "rgb_lagged_sum", 204: "rgb_kstest_test",
          205: "dab_bytedistrib", 206: "dab_dct", 207: "dab_filltree", 208: "dab_filltree2", 209: "dab_monobit2", 210: "dab_birthdays1", 211: "dab_opso2"}
GNAMES = {i: n for i, n in enumerate("""borosh13 cmrg coveyou fishman18 fishman20 fishman2x gfsr4 knuthran knuthran2 knuthran2002 lecuyer21 minstd mrg mt19937
 mt19937_1999 mt19937_1998 r250 ran0 ran1 ran2 ran3 rand rand48 random128-bsd random128-glibc2 random128-libc5 random256-bsd random256-glibc2 random256-libc5
 random32-bsd random32-glibc2 random32-libc5 random64-bsd random64-glibc2 random64-libc5 random8-bsd random8-glibc2 random8-libc5 random-bsd random-glibc2
 random-libc5 randu ranf ranlux ranlux389 ranlxd1 ranlxd2 ranlxs0 ranlxs1 ranlxs2 ranmar slatec taus taus2 taus113 transputer tt800 uni uni32 vax waterman14
 zuf""".split())}
GNAMES.update({200: "stdin_input_raw", 201: "file_input_raw", 202: "file_input", 203: "ca", 204: "uvag", 205: "AES_OFB", 206: "Threefish_OFB",
               207: "XOR (supergenerator)", 208: "kiss", 209: "superkiss", 400: "R_wichmann_hill", 401: "R_marsaglia_multic.", 402: "R_super_duper",
               403: "R_mersenne_twister", 404: "R_knuth_taocp", 405: "R_knuth_taocp2", 500: "/dev/random", 501: "/dev/urandom"})
SEEDABLE = [g for g in GNAMES if g not in (200, 201, 202, 207, 500, 501)]
ROW = T["test_name"] + T["show_num"] + T["ntuple"] + T["tsamples"] + T["psamples"] + T["pvalues"] + T["show_rng"] + T["seed"] + T["no_whitespace"]


def setup(ctx):
    ctx.lib = Lib(ctx.b()["lib"])


def mutate(R, s, tests):
    k = R.choice(["drop", "add", "case", "swap", "prefix", "char", "space", "long"])
    j = R.randrange(len(s))
    if k == "drop":
        return s[:-1]
    if k == "add":
        return s + R.choice("x_0 2")
    if k == "case":
        return s.upper() if s != s.upper() else s.lower()
    if k == "swap" and len(s) > 1:
        j = R.randrange(len(s) - 1)
        return s[:j] + s[j + 1] + s[j] + s[j + 2:]
    if k == "prefix":
        return "x" + s
    if k == "char":
        return s[:j] + R.choice("abcxyz_") + s[j + 1:]
    if k == "space":
        return s + " "
    return s + "_" + "z" * R.choice([100, 200, 300])


def gen(R, i, tier):
    k = ["ltests", "lgens"][i % 2] if i < 6 else R.choice(["test", "test", "gen", "gen", "genout", "badtest", "badtest", "badgen", "badgen", "badnum_t", "badnum_g", "ltests" if R.random() < .1 else "test"])
    c = {"k": k, "S": R.randint(1, 2**31), "t": 100, "g": 14}
    if k == "test":
        c["t"] = R.choice([t for t in TS if t not in (4, 5, 6, 7, 10, 11, 12)] * 6 + [4, 5, 6, 7, 10, 11, 12] + ([211] if i % 300 == 7 else []))
        c["g"] = R.choice([14, 206, 208])
    elif k in ("gen", "genout"):
        c["g"] = SEEDABLE[i % len(SEEDABLE)] if R.random() < .7 else R.choice(SEEDABLE)
        c["t"] = R.choice([204, 205, 15])
    elif k == "badtest":
        for _ in range(50):
            c["name"] = mutate(R, R.choice(list(SNAMES.values())), True)
            if c["name"] not in SNAMES.values() and not c["name"][0].isdigit():
                break
        else:
            c["name"] = "nosuchtest"
    elif k == "badgen":
        for _ in range(50):
            c["name"] = mutate(R, R.choice([n for n in GNAMES.values() if n != "XOR (supergenerator)"]), False)
            if c["name"][:20] not in GNAMES.values() and c["name"] and not c["name"][0].isdigit():
                break
        else:
            c["name"] = "nosuchgen"
    elif k in ("badnum_t", "badnum_g"):
        tab = SNAMES if k == "badnum_t" else GNAMES
        while True:
            n = R.choice([R.randint(-5, 1100), R.randint(-5, 700), R.choice(list(tab)) + R.choice([-1, 1]), -1, -2, 999, 1000, 1001, 900, 600, 2**31 - 1, -2**31, R.randint(-2**31, 2**31 - 1)])
            if n not in tab:
                break
        c["n"] = n
    return c


def hasrows(out):
    return any(re.search(r"\|\s*[01]\.\d{8}\b", l) for l in out.splitlines())


def run(c, ctx):
    L, k = ctx.lib, c["k"]
    if k == "ltests":
        r = dh(ctx, ["-l"])
        got = re.findall(r"^\s*-d (\d+)\s+(\S.*?)\t\s*(Good|Suspect|Do Not Use)\s*$", r.out, re.M)
        reg = {j: L.l.vf_tname(j).decode() for j in range(1000) if L.l.vf_nkps(j) >= 0}
        if len(got) != len({g[0] for g in got}):
            return "a test is listed twice", "x"
        d = {int(a): b for a, b, _ in got}
        if d != {a: b.strip() for a, b in reg.items()}:
            return "test list differs from the registered tests: %s" % sorted(set(d.items()) ^ set(reg.items()))[:6], "x"
        for j, s in SNAMES.items():
            if j not in d or L.l.vf_sname(j).decode() != s:
                return "documented test %d %s is not available" % (j, s), "x"
        bad = [a for a, _, v in got if (v == "Good") != (int(a) not in (5, 6, 7, 14)) and int(a) in SNAMES]
        if bad:
            return "reliability of test %s is listed wrongly" % bad, "x"
        return None, k
    if k == "lgens":
        r = dh(ctx, ["-g", "-1"])
        got = re.findall(r"[| ](\d{3}) (.{20,})(?=\|)", "\n".join(l for l in r.out.splitlines() if l.startswith("|")).replace("|", "| |"))
        got = []
        for l in r.out.splitlines():
            if l.startswith("|"):
                for cell in l.strip("|").split("|"):
                    m = re.match(r"\s*(\d{3}) (\S.*?)\s*$", cell)
                    if m:
                        got.append((int(m.group(1)), m.group(2)))
        if len(got) != len({g[0] for g in got}) or len({g[1] for g in got}) != len(got):
            return "a generator is listed twice", "x"
        d = dict(got)
        reg = {j: L.l.vf_rng_name(j).decode() for j in range(1000) if L.l.vf_rng_exists(j)}
        for j in set(reg) | set(GNAMES):
            if d.get(j) != (GNAMES[j] if j in GNAMES else reg[j]):
                return "generator %d is listed as %r, expected %r" % (j, d.get(j), GNAMES.get(j, reg.get(j))), "x"
        return None, k
    if k == "test":
        a = ["-p", 2 if c["t"] not in (4, 5, 6, 7, 10, 11, 12, 211) else 1, "-t", TS.get(c["t"], 1), "-g", c["g"], "-S", c["S"], "-D", ROW]
        if c["t"] in (200, 201, 202):
            a += ["-n", 3]
        r1, r2 = dh(ctx, ["-d", c["t"]] + a), dh(ctx, ["-d", SNAMES[c["t"]]] + a)
        if r1.rc != 0 or not hasrows(r1.out):
            return "test %d selected by number does not run: rc %s %s" % (c["t"], r1.rc, r1.err[:200]), "x"
        if r2.out != r1.out:
            return "test %d and %s differ:\n%s\n%s" % (c["t"], SNAMES[c["t"]], r1.out, r2.out), "x"
        rws = [l.split("|") for l in r1.out.splitlines() if re.search(r"\|[01]\.\d{8}$", l)]
        if any(x[0] != SNAMES[c["t"]] or x[1] != str(c["t"]) for x in rws):
            return "test %d shows rows %r" % (c["t"], r1.out), "x"
        return None, k
    if k in ("gen", "genout"):
        n = GNAMES[c["g"]]
        if k == "gen":
            a = ["-d", c["t"], "-t", 400, "-p", 2, "-S", c["S"], "-D", ROW]
        else:
            a = ["-o", "-t", 20, "-S", c["S"]]
        r1, r2 = dh(ctx, ["-g", c["g"]] + a), dh(ctx, ["-g", n] + a)
        if r1.rc != 0 or (k == "gen" and not hasrows(r1.out)):
            return "generator %d selected by number does not run: rc %s %s" % (c["g"], r1.rc, r1.err[:200]), "x"
        if r1.out != r2.out:
            return "generator %d and %r differ:\n%s\n%s" % (c["g"], n, r1.out[:400], r2.out[:400]), "x"
        if k == "gen" and not any(l.startswith("%s|%d|" % (n, c["g"])) for l in r1.out.splitlines()):
            return "generator line does not show %r %d: %r" % (n, c["g"], r1.out[:300]), "x"
        if k == "genout" and not re.search(r"generator %s\s+seed = %d" % (re.escape(n), c["S"]), r1.out):
            return "output header does not name %r with seed %d: %r" % (n, c["S"], r1.out[:200]), "x"
        return None, k
    a = ["-t", 60, "-p", 1, "-S", c["S"], "-D", ROWFLAGS, "-D", "show_rng"]
    sel = c.get("name", c.get("n"))
    if k in ("badtest", "badnum_t"):
        r = dh(ctx, ["-g", 14, "-d", sel] + a)
    else:
        r = dh(ctx, ["-d", 100, "-g", sel] + a)
    if r.timeout or (r.rc is not None and r.rc < 0):
        return "selecting the unlisted %s %r: rc %s timeout %s" % (k, sel, r.rc, r.timeout), "x"
    if hasrows(r.out):
        return "unlisted %s %r ran a test: %r" % (k, sel, r.out), "x"
    if not r.out.strip() and not r.err.strip():
        return "unlisted %s %r was rejected without a message" % (k, sel), "x"
    return None, k


def shrink(c):
    for k, v in (("S", 1), ("g", 14), ("t", 100)):
        if c[k] != v:
            yield dict(c, **{k: v})
    if c.get("name"):
        yield dict(c, name="nosuch")
    if isinstance(c.get("n"), int) and c["n"] not in (-1, 999):
        yield dict(c, n=999)
        yield dict(c, n=-1)
