#!/usr/bin/env python3
"""Second generation probes: one-line edits, run the property's quick check on a scratch copy.
  probe.py [ids...]    (edits in tools/probes.py)"""
import os, sys, json, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import plant
from probes import P
d = plant.copy(os.environ.get("PROBE_COPY", "prb"))
bad = []
for id, prop, edits in P:
    if sys.argv[1:] and id not in sys.argv[1:] and prop not in sys.argv[1:]:
        continue
    plant.sh(f"git -C {d} checkout -q -- .")
    ok = True
    for f, o, n in edits:
        f = f if "/" in f else "libdieharder/" + f
        s = open(f"{d}/{f}").read()
        if s.count(o) < 1:
            print(id, "EDIT DOES NOT APPLY", repr(o)); ok = False; break
        open(f"{d}/{f}", "w").write(s.replace(o, n, 1))
    if not ok:
        continue
    env = dict(os.environ, VERIF_REPO=d, VERIF_BUILD=plant.W + "/vb-" + os.path.basename(d), VERIF_SEED=os.environ.get("PSEED", "1"), VERIF_TIER="quick")
    t = time.time()
    r = plant.sh(f"python3-vt run.py {prop} --tier quick", cwd=plant.ROOT, env=env)
    caught = r.returncode == 1 and f"VIOLATION property={prop}" in r.stdout
    print(id, prop, "caught" if caught else f"MISSED rc={r.returncode}", "%.0fs" % (time.time() - t), flush=True)
    LOG = HERE + "/probe-results.json"
    import fcntl
    with open(LOG, "a+") as lf:
        fcntl.flock(lf, fcntl.LOCK_EX)
        lf.seek(0)
        t = lf.read()
        res = json.loads(t) if t else {}
        if caught or not res.get(id) or res[id] == "caught":
            res[id] = "caught" if caught else "MISSED"
        lf.seek(0)
        lf.truncate()
        lf.write(json.dumps(res, indent=0, sort_keys=True) + "\n")
    if not caught:
        bad.append(id)
        if r.returncode not in (0,):
            print(r.stdout[-600:])
plant.sh(f"git -C {d} checkout -q -- .")
print("missed:", bad)
