"""Builds /repo's *current working tree* into a private, content-addressed directory.

Nothing is written under /repo.  The key is a hash of every source byte that
enters the build (repo sources, headers, Makefile.am lists, our shim), so a
stale build can never be used for a changed tree.
"""
import concurrent.futures
import fcntl
import hashlib
import os
import re
import shutil
import subprocess
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

VARIANTS = {
    "plain": ["-O2", "-g"],
    "asan": ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address"],
}


def _sources(makefile, var):
    txt = open(makefile).read()
    txt = re.sub(r"\\\n", " ", txt)
    m = re.search(r"^%s\s*=\s*(.*)$" % re.escape(var), txt, re.M)
    out = [w for w in m.group(1).split() if w.endswith(".c")]
    for m in re.finditer(r"^%s\s*\+=\s*(.*)$" % re.escape(var), txt, re.M):
        out += [w for w in m.group(1).split() if w.endswith(".c")]
    return out


def source_lists():
    lib = _sources(os.path.join(REPO, "libdieharder/Makefile.am"), "libdieharder_la_SOURCES")
    app = _sources(os.path.join(REPO, "dieharder/Makefile.am"), "dieharder_SOURCES")
    return lib, app


def tree_key():
    h = hashlib.sha256()
    roots = [os.path.join(REPO, d) for d in ("libdieharder", "dieharder", "include")]
    roots.append(os.path.join(VERIF, "shim"))
    for root in roots:
        for dp, dn, fn in os.walk(root):
            dn.sort()
            dn[:] = [d for d in dn if d not in (".libs", ".deps", "_build")]
            for f in sorted(fn):
                if f.endswith((".c", ".h", ".am", ".cruft")):
                    p = os.path.join(dp, f)
                    h.update(os.path.relpath(p, "/").encode() + b"\0")
                    with open(p, "rb") as fh:
                        h.update(fh.read())
                    h.update(b"\0")
    h.update(open(__file__, "rb").read())
    return h.hexdigest()[:20]


class BuildError(Exception):
    pass


def _run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout


def build(variant="plain"):
    """Return dict(lib=..., exe=..., dir=...) for the current tree."""
    key = tree_key()
    d = os.path.join(BUILD, "%s-%s" % (variant, key))
    res = {"lib": os.path.join(d, "libvf.so"), "exe": os.path.join(d, "dieharder"), "drv": os.path.join(d, "vfdrv"), "dir": d, "key": key}
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(d, "ok")):
            return res
        # drop old builds, disk is limited (keep those of this very key)
        for n in os.listdir(BUILD):
            if n.startswith(("plain-", "asan-")) and not n.endswith(key):
                shutil.rmtree(os.path.join(BUILD, n), ignore_errors=True)
        tmp = d + ".tmp%d" % os.getpid()
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp + "/l")
        os.makedirs(tmp + "/a")
        lib, app = source_lists()
        flags = VARIANTS[variant]
        base = ["gcc", "-c", "-w", "-fPIC"] + flags + [
            "-DVERSION=3.31.1", "-DLITTLE_ENDIAN=1", "-DHAVE_STDINT_H=1", "-I" + REPO + "/include"]
        jobs, lobj, aobj, aobj_nomain = [], [], [], []
        for s in lib:
            o = "%s/l/%s.o" % (tmp, s[:-2].replace("/", "_"))
            lobj.append(o)
            jobs.append(base + ["-std=c99", "-Dmain=vf_lib_main_" + re.sub(r"\W", "_", s),
                                os.path.join(REPO, "libdieharder", s), "-o", o])
        for s in app:
            src = os.path.join(REPO, "dieharder", s)
            o = "%s/a/%s.o" % (tmp, s[:-2].replace("/", "_"))
            aobj.append(o)
            jobs.append(base + ["-I" + REPO + "/dieharder", src, "-o", o])
            if re.search(r"\bmain\s*\(", open(src, errors="replace").read()):
                o2 = o[:-2] + ".nomain.o"
                jobs.append(base + ["-I" + REPO + "/dieharder", "-Dmain=vf_app_main_" + re.sub(r"\W", "_", s), src, "-o", o2])
                aobj_nomain.append(o2)
            else:
                aobj_nomain.append(o)
        sobj, opt, drv = [], set(), None
        for s in sorted(os.listdir(os.path.join(VERIF, "shim"))):
            if s.endswith(".c"):
                o = "%s/%s.o" % (tmp, s[:-2])
                if s.startswith("main_"):
                    drv = o
                elif s.startswith("opt_"):
                    opt.add(o)
                else:
                    sobj.append(o)
                jobs.append(base + ["-std=gnu11", "-I" + REPO + "/dieharder", "-I" + REPO + "/libdieharder",
                                    os.path.join(VERIF, "shim", s), "-o", o])
        def go(cmd):
            try:
                _run(cmd)
            except BuildError:
                if cmd[-1] not in opt:
                    raise
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            list(ex.map(go, jobs))
        dobj = list(sobj)
        sobj += [o for o in sorted(opt) if os.path.exists(o)]
        san = [f for f in flags if f.startswith("-fsanitize")]
        libs = ["-lgsl", "-lgslcblas", "-lm"]
        _run(["gcc"] + san + ["-o", tmp + "/dieharder"] + aobj + lobj + libs)
        _run(["gcc", "-shared"] + san + ["-o", tmp + "/libvf.so"] + sobj + aobj_nomain + lobj + libs)
        _run(["gcc"] + san + ["-o", tmp + "/vfdrv", drv] + dobj + aobj_nomain + lobj + libs)
        shutil.rmtree(tmp + "/l")
        shutil.rmtree(tmp + "/a")
        open(tmp + "/ok", "w").close()
        shutil.rmtree(d, ignore_errors=True)
        os.rename(tmp, d)
    return res


if __name__ == "__main__":
    for v in sys.argv[1:] or ["plain"]:
        print(build(v))
