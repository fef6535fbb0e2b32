"""Histories of tests run by the program's own code in a forked child (see shim/opt_cli.c)."""
import ctypes as C
import os
import tempfile

# cheap standard counts (tsamples, psamples); the remaining tests fix their own size
# one run each, with sample counts at which the p-value is neither 0 nor 1
STD = {0: (24, 1), 1: (400, 1), 2: (30, 1), 3: (50, 1), 8: (150000, 1), 9: (150000, 1), 13: (150, 1), 14: (60, 1), 15: (1000, 1), 16: (200, 1), 17: (4000, 1),
       100: (60, 1), 101: (60, 1), 102: (300, 1), 200: (400, 1), 201: (50, 1), 202: (300, 1), 203: (50, 1), 204: (30, 1), 205: (3000, 1), 206: (60, 1), 207: (60, 1),
       208: (200, 1), 209: (500, 1), 210: (10, 1), 4: (2097152, 1), 5: (2097152, 1), 6: (2097152, 1), 7: (2097152, 1), 10: (1, 1), 11: (4000, 1), 12: (1, 1), 211: (0, 0)}
SLOW = [4, 5, 6, 7, 10, 11, 12, 211]


def available(L):
    return hasattr(L.l, "vf_cli")


def run(L, scratch, args, seq, std, timeout=100):
    """seq: list of (test, ntuple) or None for the battery; std: {test: (ts, ps)}, ts 0 drops it.
    Returns the text written to stdout, or None if the child died."""
    fd, path = tempfile.mkstemp(dir=scratch)
    pid = os.fork()
    if pid == 0:
        try:
            C.CDLL(None).prctl(1, 9, 0, 0, 0)
            os.dup2(fd, 1)
            av = (C.c_char_p * (len(args) + 2))(b"dieharder", *[str(a).encode() for a in args])
            flat = []
            for t, (ts, ps) in std.items():
                flat += [t, ts, ps]
            st = (C.c_int * (len(flat) + 1))(*flat, -1)
            sq = [x for p in (seq or []) for x in p]
            ss = (C.c_int * (len(sq) + 1))(*sq)
            L.l.vf_cli(len(args) + 1, av, st, ss, -1 if seq is None else len(seq))
            os._exit(0)
        finally:
            os._exit(7)
    _, stt = os.waitpid(pid, 0)
    os.close(fd)
    out = open(path, errors="replace").read()
    os.unlink(path)
    return out if stt == 0 else None
