"""Property-based testing engine used by every check.

A check module (checks/Cxx.py) exports
  PROP            property id
  RULE            text: how cases are made, what is non-trivial
  CASES           dict(quick=N, thorough=M): number of generated cases
  VARIANTS        build variants it needs ("plain", "asan")
  setup(ctx)      optional, run once in the parent (load libraries, tables)
  gen(R, i, tier) -> JSON-able case      (R: random.Random seeded from
                     VERIF_SEED, property and case index; the only entropy)
  run(case, ctx)  -> (fail, label)       fail: None or a message;
                     label: None for a trivial case or a class name
  shrink(case)    optional: yields smaller candidate cases
Each case runs in its own forked child, so that no state leaks between cases
and a crash / exit() / hang inside the code under test is observed as such.
A failing case is shrunk and its replay must fail 3 times out of 3 in fresh
processes before VIOLATION is printed.
"""
import hashlib
import importlib
import json
import os
import pickle
import random
import select
import signal
import struct
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from vlib import build as vbuild  # noqa: E402


class HarnessError(Exception):
    """A defect of the check itself (never reported as a violation)."""


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.builds = {}
        self.scratch = None

    def b(self, v="plain"):
        if v not in self.builds:
            self.builds[v] = vbuild.build(v)
        return self.builds[v]


def case_rng(seed, prop, i):
    h = hashlib.sha256(("%s|%s|%d" % (seed, prop, i)).encode()).digest()
    return random.Random(int.from_bytes(h[:16], "big"))


def die_with_parent():
    try:
        import ctypes
        ctypes.CDLL(None).prctl(1, 9, 0, 0, 0)
    except Exception:
        pass


def run_forked(mod, case, ctx, timeout):
    """Run one case in a forked child.  Returns (fail, label, extra)."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            os.setpgid(0, 0)
            die_with_parent()
            dn = os.open(os.devnull, os.O_RDWR)
            os.dup2(dn, 0)
            os.dup2(dn, 1)
            # keep stderr for harness tracebacks only; library noise goes to null
            os.dup2(dn, 2)
            try:
                res = mod.run(case, ctx)
                fail, label = res[0], res[1]
                extra = res[2] if len(res) > 2 else None
                out = ("ok", fail, label, extra)
            except HarnessError as e:
                out = ("harness", str(e), None, None)
            except (ValueError, IndexError, KeyError):
                # output of the code under test that cannot be interpreted at all
                out = ("ok", "unexpected result: " + traceback.format_exc()[-700:], "uninterpretable", None)
            except BaseException:
                out = ("harness", traceback.format_exc(), None, None)
            data = pickle.dumps(out)
            off = 0
            while off < len(data):
                off += os.write(w, data[off:])
        except BaseException:
            code = 97
        os._exit(code)
    os.close(w)
    buf = b""
    end = time.monotonic() + timeout
    timed = False
    while True:
        left = end - time.monotonic()
        if left <= 0:
            timed = True
            break
        rd, _, _ = select.select([r], [], [], left)
        if not rd:
            timed = True
            break
        d = os.read(r, 1 << 16)
        if not d:
            break
        buf += d
    os.close(r)
    if timed:
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
    _, st = os.waitpid(pid, 0)
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    if timed:
        return ("did not terminate within %g s" % timeout, "hang", None)
    try:
        out = pickle.loads(buf)
    except Exception:
        out = None
    if out is None:
        if os.WIFSIGNALED(st):
            return ("code under test died with signal %d" % os.WTERMSIG(st), "crash", None)
        return ("code under test called exit(%d) in the middle of an operation" % os.WEXITSTATUS(st), "exit", None)
    if out[0] == "harness":
        raise HarnessError(out[1])
    return out[1], out[2], out[3]


def generic_shrink(case):
    """JSON-structure shrinking: drop list elements, reduce ints/strings."""
    def variants(x):
        if isinstance(x, bool) or x is None:
            return
        if isinstance(x, int):
            for y in (0, 1, x // 2, x - 1 if x > 0 else x + 1):
                if y != x and abs(y) < abs(x):
                    yield y
        elif isinstance(x, float):
            for y in (0.0, 0.5, 1.0, round(x, 2), round(x, 4)):
                if y != x:
                    yield y
        elif isinstance(x, list):
            n = len(x)
            k = n // 2
            while k >= 1:
                for s in range(0, n, k):
                    yield x[:s] + x[s + k:]
                k //= 2
            for i in range(min(n, 64)):
                for v in variants(x[i]):
                    yield x[:i] + [v] + x[i + 1:]
        elif isinstance(x, dict):
            for key in x:
                if key.startswith("_"):
                    continue
                for v in variants(x[key]):
                    d = dict(x)
                    d[key] = v
                    yield d
    yield from variants(case)


def shrink_case(mod, case, msg, ctx, timeout, budget=40.0):
    t0 = time.monotonic()
    shr = getattr(mod, "shrink", None)
    if shr is None:
        return case, msg, 0
    steps = 0
    progress = True
    while progress and time.monotonic() - t0 < budget:
        progress = False
        for cand in shr(case):
            if time.monotonic() - t0 > budget:
                break
            try:
                f, l, _ = run_forked(mod, cand, ctx, timeout)
            except HarnessError:
                continue
            if f and l not in ("hang",):
                case, msg = cand, f
                steps += 1
                progress = True
                break
    return case, msg, steps


def load_known(prop):
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == prop]


def take(queue):
    """case numbers, handed out to the workers one at a time: the read position of the file is shared across fork"""
    while True:
        d = os.read(queue.fileno(), 4)
        if len(d) < 4:
            return
        yield struct.unpack("<I", d)[0]


def worker(mod, ctx, tier, seed, idxs, wfd, timeout, deadline, stop_path):
    out = os.fdopen(wfd, "wb")

    def send(o):
        d = pickle.dumps(o)
        out.write(struct.pack("<I", len(d)) + d)
        out.flush()
    for i in idxs:
        if time.monotonic() > deadline:
            send(("timeup", i))
            break
        if os.path.exists(stop_path):
            break
        try:
            case = mod.gen(case_rng(seed, mod.PROP, i), i, tier)
            fail, label, extra = run_forked(mod, case, ctx, timeout)
        except HarnessError as e:
            send(("harness", i, str(e)))
            break
        except Exception:
            send(("harness", i, traceback.format_exc()))
            break
        h = hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]
        send(("case", i, fail, label, extra, h))
    out.close()
    os._exit(0)


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--case", type=int)
    ap.add_argument("--cases", type=int)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("--stats", action="store_true")
    a = ap.parse_args(argv)
    t0 = time.monotonic()
    mod = importlib.import_module("checks." + a.prop)
    ctx = Ctx(a.prop, a.tier, a.seed)
    ctx.known = load_known(a.prop)
    import shutil
    import tempfile
    ctx.scratch = tempfile.mkdtemp(prefix="vf-%s-" % a.prop)
    try:
        return _main(a, mod, ctx, t0)
    finally:
        shutil.rmtree(ctx.scratch, ignore_errors=True)


def _main(a, mod, ctx, t0):
    for v in getattr(mod, "VARIANTS", ["plain"]):
        ctx.b(v)
    if hasattr(mod, "setup"):
        mod.setup(ctx)
    timeout = getattr(mod, "TIMEOUT", 60)
    if a.replay:
        rec = json.load(open(a.replay))
        f, l, _ = run_forked(mod, rec["case"], ctx, timeout)
        print("replay:", f or "held", "class:", l)
        if f:
            print("VIOLATION property=%s replay=%s" % (mod.PROP, a.replay))
        return 1 if f else 0
    if a.case is not None:
        case = mod.gen(case_rng(a.seed, mod.PROP, a.case), a.case, a.tier)
        print(json.dumps(case)[:2000])
        print(run_forked(mod, case, ctx, timeout))
        return 0
    n = a.cases or mod.CASES[a.tier]
    budget = {"quick": getattr(mod, "QUICK_CAP", 240), "thorough": 3600}[a.tier]
    deadline = time.monotonic() + budget
    stop_path = os.path.join(ctx.scratch, "stop")
    pipes = []
    J = min(a.jobs, n)
    queue = open(os.path.join(ctx.scratch, "queue"), "w+b", buffering=0)
    queue.write(struct.pack("<%dI" % n, *range(n)))
    queue.seek(0)
    for k in range(J):
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                die_with_parent()
                os.close(r)
                for (r2, _, _) in pipes:
                    os.close(r2)
                worker(mod, ctx, a.tier, a.seed, take(queue), w, timeout, deadline, stop_path)
            except BaseException:
                traceback.print_exc()
            os._exit(98)
        os.close(w)
        pipes.append((r, pid, bytearray()))
    done, labels, hashes = 0, {}, set()
    nontriv, inner, fails, timeup = set(), 0, [], False
    harness = None
    open_ = {r: (pid, buf) for r, pid, buf in pipes}
    while open_:
        rd, _, _ = select.select(list(open_), [], [])
        for r in rd:
            d = os.read(r, 1 << 16)
            pid, buf = open_[r]
            if not d:
                os.close(r)
                del open_[r]
                _, st = os.waitpid(pid, 0)
                if st != 0 and harness is None:
                    harness = "worker died, status %d" % st
                continue
            buf += d
            while len(buf) >= 4:
                ln = struct.unpack("<I", buf[:4])[0]
                if len(buf) < 4 + ln:
                    break
                o = pickle.loads(bytes(buf[4:4 + ln]))
                del buf[:4 + ln]
                if o[0] == "timeup":
                    timeup = True
                elif o[0] == "harness":
                    harness = "case %d: %s" % (o[1], o[2])
                    open(stop_path, "w").close()
                else:
                    _, i, fail, label, extra, h = o
                    done += 1
                    hashes.add(h)
                    if label:
                        nontriv.add(h)
                        labels[label] = labels.get(label, 0) + 1
                    if extra and "evals" in extra:
                        inner += extra["evals"]
                    if extra and "labels" in extra:
                        for kk, vv in extra["labels"].items():
                            labels[kk] = labels.get(kk, 0) + vv
                    if fail:
                        fails.append((i, fail))
                        if len(fails) >= 1:
                            open(stop_path, "w").close()
    if harness and not fails:
        print("HARNESS ERROR (not a verdict):", harness, file=sys.stderr)
        return 3
    # ---- confirm + shrink
    viol = []
    for i, msg in sorted(fails)[:4]:
        case = mod.gen(case_rng(a.seed, mod.PROP, i), i, a.tier)
        conf = 0
        hang = msg.startswith("did not terminate")
        for _ in range(2 if hang else 3):
            f, l, _ = run_forked(mod, case, ctx, timeout)
            conf += bool(f)
        if conf < (2 if hang else 3):
            print("NOTE: case %d failed once (%s) but not on replay: inconclusive, not reported" % (i, msg[:300]))
            continue
        steps = 0
        if not hang:
            try:
                try:
                    case, msg, steps = shrink_case(mod, case, msg, ctx, timeout)
                except Exception as e:          # (a violation is reported even where it cannot be reduced)
                    steps = 0
                    print("  not reduced: %r" % (e,))
            except HarnessError as e:
                print("NOTE: shrink stopped:", e)
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", "%s-seed%d-case%d.json" % (mod.PROP, a.seed, i))
        json.dump({"property": mod.PROP, "seed": a.seed, "index": i, "message": msg,
                   "shrink_steps": steps, "case": case,
                   "replay_cmd": "python3-vt run.py %s --replay %s" % (mod.PROP, path)},
                  open(path, "w"), indent=1)
        viol.append((path, msg))
        break
    samples = []
    for i in range(0, min(n, done), max(1, min(n, max(done, 1)) // 4)):
        c = mod.gen(case_rng(a.seed, mod.PROP, i), i, a.tier)
        s = json.dumps(c)
        samples.append(c if len(s) < 1500 else s[:1500] + "...")
        if len(samples) >= 5:
            break
    ev = {"property": mod.PROP, "tier": a.tier, "seed": a.seed, "level": "exploration",
          "coverage": {"evaluations": done, "distinct_nontrivial": len(nontriv), "rule": mod.RULE,
                       "samples": samples, "classes": dict(sorted(labels.items())),
                       "distinct_cases": len(hashes), "planned_cases": n,
                       "tree": ctx.b(getattr(mod, "VARIANTS", ["plain"])[0])["key"],
                       "stopped_by_time_cap": timeup},
          "assumptions": getattr(mod, "ASSUMPTIONS", []),
          "wall_s": round(time.monotonic() - t0, 2), "violations": len(viol)}
    if inner:
        ev["coverage"]["inner_comparisons"] = inner
    if hasattr(mod, "extra_evidence"):
        ev["coverage"].update(mod.extra_evidence(ctx))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % mod.PROP)
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", mod.PROP + ".json"))
    for k in ctx.known:
        if k.get("status") == "known":
            # each listed finding is re-demonstrated on its own listed input
            still = mod.known_still_fails(k, ctx) if hasattr(mod, "known_still_fails") else True
            if still:
                print("KNOWN-FINDING: property=%s %s" % (mod.PROP, k["what"]))
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1fs %s" % (
        mod.PROP, a.tier, a.seed, done, len(nontriv), time.monotonic() - t0,
        json.dumps(dict(sorted(labels.items()))) if a.stats else ""))
    if viol:
        for path, msg in viol:
            print("  " + str(msg)[:2000])
            print("VIOLATION property=%s replay=%s" % (mod.PROP, path))
        return 1
    return 0
