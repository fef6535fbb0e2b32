"""ctypes access to the shared object built from /repo's tree + shim."""
import ctypes as C
import numpy as np

u32p = C.POINTER(C.c_uint32)
dblp = C.POINTER(C.c_double)


class Lib:
    def __init__(self, path):
        self.l = l = C.CDLL(path)
        D, U, I, V, UL = C.c_double, C.c_uint, C.c_int, C.c_void_p, C.c_ulong

        def f(name, res, *args):
            try:
                fn = getattr(l, name)
            except AttributeError:
                return None     # an internal helper that no longer exists is not judged
            fn.restype, fn.argtypes = res, list(args)
            return fn
        f("vf_init", None)
        f("vf_use_buffer", None, V, UL, U)
        f("vf_consumed", UL)
        f("vf_set_scale", None, D)
        f("vf_rng", V)
        f("vf_nkps", I, I)
        f("vf_sname", C.c_char_p, I)
        f("vf_tname", C.c_char_p, I)
        f("vf_desc", C.c_char_p, I)
        f("vf_run_test", I, I, U, U, U, U, I, V, V, V, V)
        f("vf_bits_history", None, I, V, V, V, V, V)
        f("vf_rank", U, V, I, I)
        f("vf_rng_exists", I, I)
        f("vf_rng_name", C.c_char_p, I)
        f("vf_rng_max", UL, I)
        f("vf_rng_min", UL, I)
        f("vf_alloc", V, I)
        f("vf_seed", None, V, UL)
        f("vf_draw", None, V, UL, V)
        f("vf_draw_d", None, V, UL, V)
        f("vf_clone", V, V)
        f("vf_free", None, V)
        f("vf_use_gen", None, I, UL)
        f("vf_tstd", I, I)
        f("vf_pstd", I, I)
        f("vf_vtest", D, U, D, V, V, V, U, V)
        f("vf_xtest", D, D, D, D, D)
        f("kstest", D, V, I)
        f("kstest_kuiper", D, V, I)
        f("chisq_poisson", D, V, D, I, U)
        f("chisq_geometric", D, V, D, I, U)
        f("chisq_binomial", D, V, D, U, U)
        f("chisq_pearson", D, V, V, I)
        f("chisq_uint_uniform_gtest", D, V, C.c_long, I)
        f("chisq2d", D, V, U, U, U)
        f("binomial", D, U, U, D)
        for n in ("b_umask", "b_rotate_left", "b_rotate_right"):
            f(n, U, U, U)
        f("b_window", U, U, U, U, U)
        f("get_bit_ntuple", U, V, U, U, U)
        f("get_bit", I, V, U)
        f("cycle", None, V, U)
        f("bit2uint", U, C.c_char_p, U)
        f("fill_uint_buffer", None, V, U)
        f("get_ntuple_cyclic", None, V, U, V, U, U, U)
        f("mybitadd", None, V, I, V, I, I)
        f("get_uint_rand", U, V)
        f("get_rand_bits", None, V, U, U, V)
        f("get_rand_pattern", None, V, U, V, V)
        f("reset_bit_buffers", None)
        l.vf_init()

    def glob(self, name, ty=C.c_uint):
        return ty.in_dll(self.l, name)

    def use(self, words, width=32):
        a = np.ascontiguousarray(words, dtype=np.uint32)
        self._keep = a
        self.l.vf_use_buffer(a.ctypes.data, len(a), width)

    def use_gen(self, i, seed):
        self.l.vf_use_gen(i, seed)

    def run_test(self, idx, ts, ps=1, nt=0, overlap=1, std=False):
        nk = self.l.vf_nkps(idx)
        pv = np.full(nk * ps, np.nan)
        ks = np.zeros(nk)
        nto = np.zeros(nk, np.uint32)
        tso = np.zeros(nk, np.uint32)
        self.l.vf_run_test(idx, ts, ps, nt, overlap, 1 if std else 0, pv.ctypes.data, ks.ctypes.data,
                           nto.ctypes.data, tso.ctypes.data)
        return {"pv": pv.reshape(nk, ps), "ks": ks, "ntuple": nto, "tsamples": tso,
                "consumed": int(self.l.vf_consumed())}


def dp(a):
    return a.ctypes.data


def source_ints(repo, files, lo=2, hi=200000):
    """Dictionary fuzzing: integer literals found in the current sources."""
    import re
    import os
    out = set()
    for f in files:
        p = os.path.join(repo, f)
        if not os.path.exists(p):
            continue
        t = open(p, errors="replace").read()
        t = re.sub(r"/\*.*?\*/", " ", t, flags=re.S)
        t = re.sub(r"//[^\n]*", " ", t)
        for m in re.finditer(r"(?<![\w.])(0[xX][0-9a-fA-F]+|\d+)(?![\w.])", t):
            try:
                v = int(m.group(1), 0)
            except ValueError:
                continue
            for w in (v - 1, v, v + 1):
                if lo <= w <= hi:
                    out.add(w)
    return sorted(out)


def in_child(fn):
    """fn() evaluated in a forked child with clean library state; None if it died."""
    import os
    import pickle
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            C.CDLL(None).prctl(1, 9, 0, 0, 0)
            os.close(r)
            d = pickle.dumps(fn())
            with os.fdopen(w, "wb") as f:
                f.write(d)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else None
