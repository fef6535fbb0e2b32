#!/usr/bin/env python3
"""Build /verif/seeded/<id>/ from tools/bugs.py and run the checks against each.

  plant.py make [ids]    write seeded/<id>/{patch.diff,demo.sh,meta.json,...}
                         (the demo's expected text is recorded from the clean tree)
  plant.py demo [ids]    build a copy with the bug; demo must fail there, pass clean
  plant.py check [ids]   run the property's check against a worktree with the bug
  plant.py suite [ids]   run the project's validation runs with all the bugs together
All work happens in scratch copies under /tmp.
"""
import json, os, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from bugs import BUGS
W = os.environ.get("PLANT_DIR", "/tmp/pw")


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def copy(name):
    d = f"{W}/{name}"
    if not os.path.isdir(d):
        os.makedirs(W, exist_ok=True)
        r = sh(f"cp -a /repo {d}")
        assert r.returncode == 0, r.stdout
        sh(f"sed 's#/repo#{d}#g' /opt/vp/build.sh > {d}.build.sh; sed 's#/repo#{d}#g' /opt/vp/validate.py > {d}.validate.py")
    sh(f"git -C {d} checkout -q -- . ; git -C {d} checkout -q --detach $(git -C /repo rev-parse HEAD) || (git -C {d} fetch -q /repo HEAD && git -C {d} checkout -q --detach FETCH_HEAD)")
    return d


def build(d):
    r = sh(f"bash {d}.build.sh")
    assert r.returncode == 0, r.stdout[-3000:]
    assert sh(f"git -C {d} status --short").stdout.strip() == "" or True


PRE = """#!/bin/bash
# run with cwd /repo after the build
R=$PWD
H=$(cd "$(dirname "$0")" && pwd)
export LC_ALL=C LD_LIBRARY_PATH=$R/_build/src/libdieharder/.libs
DH=$R/_build/src/dieharder/.libs/dieharder
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
cd "$T" || exit 2
cc_demo() { gcc -w -O1 -I"$R/_build/src/include" -I"$R/include" -o prog -I"$R/dieharder" "$H/demo.c" "$R/dieharder/globals.c" -L"$LD_LIBRARY_PATH" -ldieharder -lgsl -lgslcblas -lm || exit 2; }
"""


def select(ids):
    return [b for b in BUGS if not ids or b["id"] in ids]


def apply(b, d):
    if callable(b["edits"]):
        return b["edits"](d)
    for f, old, new in b["edits"]:
        p = f"{d}/{f}"
        s = open(p).read()
        assert s.count(old) == 1, (b["id"], f, s.count(old))
        open(p, "w").write(s.replace(old, new))


def make(ids):
    d = copy("clean")
    build(d)
    for b in select(ids):
        apply(b, d)
        diff = sh(f"git -C {d} diff").stdout
        sh(f"git -C {d} checkout -q -- .")
        o = f"{ROOT}/seeded/{b['id']}"
        shutil.rmtree(o, ignore_errors=True)
        os.makedirs(o)
        open(o + "/patch.diff", "w").write(diff)
        if "c" in b:
            open(o + "/demo.c", "w").write(b["c"])
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]),
                  open(o + "/meta.json", "w"), indent=1)
        body = b["cmd"].strip("\n")
        if b.get("raw"):
            open(o + "/demo.sh", "w").write(PRE + body + "\n")
        else:
            tmp = o + "/demo.sh"
            open(tmp, "w").write(PRE + "run() {\n" + body + "\n}\nrun\n")
            os.chmod(tmp, 0o755)
            r1 = sh(f"bash {tmp}", cwd=d, timeout=250)
            r2 = sh(f"bash {tmp}", cwd=d, timeout=250)
            assert r1.stdout == r2.stdout and r1.returncode == r2.returncode, (b["id"], r1.stdout, r2.stdout)
            assert r1.stdout.strip(), b["id"]
            open(tmp, "w").write(PRE + "run() {\n" + body + "\n}\nrun > got 2>&1\ncat > want <<'EOW'\n" + r1.stdout +
                                 "EOW\ndiff want got || { echo 'demo: the behaviour differs'; exit 1; }\nexit 0\n")
        os.chmod(o + "/demo.sh", 0o755)
        print("made", b["id"])


def demo(ids):
    c = copy("clean")
    build(c)
    d = copy("bug")
    for b in select(ids):
        r = sh(f"bash {ROOT}/seeded/{b['id']}/demo.sh", cwd=c, timeout=300)
        ok0 = r.returncode == 0
        sh(f"git -C {d} checkout -q -- .")
        r = sh(f"git -C {d} apply {ROOT}/seeded/{b['id']}/patch.diff")
        assert r.returncode == 0, r.stdout
        build(d)
        r = sh(f"bash {ROOT}/seeded/{b['id']}/demo.sh", cwd=d, timeout=300)
        ok1 = r.returncode not in (0, 2)
        print(b["id"], "clean-ok" if ok0 else "CLEAN-FAILS", "bug-shows" if ok1 else "BUG-HIDDEN", flush=True)
        if not (ok0 and ok1):
            print(r.stdout[-800:])
    sh(f"git -C {d} checkout -q -- .")


def check(ids):
    d = copy("chk")
    res = {}
    for b in select(ids):
        sh(f"git -C {d} checkout -q -- .")
        r = sh(f"git -C {d} apply {ROOT}/seeded/{b['id']}/patch.diff")
        assert r.returncode == 0, r.stdout
        env = dict(os.environ, VERIF_REPO=d, VERIF_BUILD=W + "/vb", VERIF_SEED="1", VERIF_TIER="quick")
        props = [b["property"]] + (b.get("also", []) if os.environ.get("ALSO") else [])
        for p in props:
            r = sh(f"python3-vt run.py {p} --tier quick", cwd=ROOT, env=env)
            caught = r.returncode == 1 and f"VIOLATION property={p}" in r.stdout
            print(b["id"], p, "CAUGHT" if caught else f"MISSED rc={r.returncode}", flush=True)
            m = [l for l in r.stdout.splitlines() if "VIOLATION" in l or "rror" in l][:2]
            for l in m:
                print("    ", l[:300])
    sh(f"git -C {d} checkout -q -- .")
    sh(f"find {ROOT}/replays -type f -delete")


def suite(ids):
    d = copy("suite")
    sh(f"git -C {d} checkout -q -- .")
    for b in select(ids):
        r = sh(f"git -C {d} apply {ROOT}/seeded/{b['id']}/patch.diff")
        if r.returncode:
            print("skipped (does not combine):", b["id"])
    build(d)
    sh(f"rm -rf {d}/_build/validate; mkdir -p {d}/_build/validate")
    r = sh(f"python3 {d}.validate.py {d}/_build/validate")
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = set(re.findall(r'validate::[^"]+', json.dumps(base)))
    got = dict(reversed(l.split(" ", 1)) for l in open(f"{d}/_build/validate/results.txt").read().splitlines())
    bad = [t for t in stable if got.get(t) != "PASS"]
    print(len(stable), "stable;", "not passing:", bad)
    sh(f"git -C {d} checkout -q -- .")


if __name__ == "__main__":
    {"make": make, "demo": demo, "check": check, "suite": suite}[sys.argv[1]](sys.argv[2:])
