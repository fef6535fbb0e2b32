"""Running the dieharder executable built from /repo's tree."""
import os
import subprocess


class Res:
    def __init__(self, rc, out, err, timeout=False):
        self.rc, self.out, self.err, self.timeout = rc, out, err, timeout


def dh(ctx, args, variant="plain", stdin=None, timeout=60, cwd=None, env=None, binary=False):
    e = {"PATH": os.environ.get("PATH", ""), "LANG": "C",
         "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:handle_abort=1:allocator_may_return_null=1"}
    if env:
        e.update(env)
    p = subprocess.Popen([ctx.b(variant)["exe"]] + [str(a) for a in args], stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd or ctx.scratch, env=e)
    try:
        o, er = p.communicate(stdin, timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        o, er = p.communicate()
        return Res(None, o if binary else o.decode("latin1"), er.decode("latin1"), True)
    return Res(p.returncode, o if binary else o.decode("latin1"), er.decode("latin1"))


T = dict(header=1, show_rng=2, line_header=4, test_name=8, ntuple=16, tsamples=32, psamples=64, pvalues=128,
         assessment=256, prefix=512, description=1024, histogram=2048, seed=4096, rate=8192, show_num=16384,
         no_whitespace=32768, psample_values=65536, file_rng_stat=131072)
ROWFLAGS = T["test_name"] + T["ntuple"] + T["tsamples"] + T["psamples"] + T["pvalues"] + T["no_whitespace"]


def rows(out):
    """rows printed under ROWFLAGS with separator '|' -> list of (name, ntup, ts, ps, p-string)"""
    r = []
    for ln in out.splitlines():
        f = ln.split("|")
        if len(f) == 5:
            try:
                r.append((f[0].strip(), int(f[1]), int(f[2]), int(f[3]), f[4].strip()))
            except ValueError:
                continue
    return r


def textvals(out):
    """values of -o -O 1 output -> (header dict, list of ints)"""
    h, v = {}, []
    for ln in out.splitlines():
        if ln.startswith("#"):
            continue
        if ":" in ln:
            k, x = ln.split(":", 1)
            h[k.strip()] = x.strip()
        elif ln.strip():
            v.append(ln.strip())
    return h, v
