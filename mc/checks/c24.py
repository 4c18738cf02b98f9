"""C24: histories of public calls. An alphabet of 1400 calls that differ from a base call in one component (data, precision,
shape, wavelet by name / fresh / shared object / same name with other numbers / changed attributes, mode, level, axes, flags,
invalid values). The result of each call is recorded in a process of its own; then in a fresh process per first call A, every
call B follows, directly after A where they are related, with the arrays, lists and dicts that calls return overwritten in
between, and must return (or raise) the same again. Triples over a reduced alphabet by de Bruijn sequences."""
import os
import pickle
import struct
import warnings

import numpy as np
import pywt

import alphabet
from common import Quiet

ID = "C24"
BOUNDS = dict(
    quick="1400 calls; every pair of calls of related functions and every pair of 200 core calls adjacent in both orders, and in processes that begin with either; "
          "every other call and each core call within one process, in both orders; all triples of 44 core calls; "
          "every returned object overwritten, arrays passed as fresh objects and as one reused object in turn",
    thorough="every ordered pair of the 1400 calls adjacent; all triples of 160 core calls")
ASSUMPTIONS = ["wavelets are changed only through their own attributes", "a difference below 1e-12 relative would be rounding, none occurs"]
CHUNK = 1
CASE_TIMEOUT = 600
TRI = 44

CALLS = None
BASE = None
GROUPS = [("dwt", "dwt-axis", "idwt", "idwt-axis", "wavedec", "wavedec-axis", "waverec", "waverec-axis", "downcoef-a", "downcoef-d", "upcoef-a", "upcoef-d", "wp", "mra-dwt"),
          ("dwt2", "dwtn", "idwt2", "idwtn", "wp2", "wpn"), ("wavedec2", "waverec2", "wavedecn", "waverecn", "fswavedecn", "fswaverecn"),
          ("swt", "swt-norm", "iswt", "iswt-norm", "mra"), ("swt2", "swtn", "iswt2", "iswtn", "mra2", "mran"),
          ("coeffs_to_array", "ravel_coeffs", "array_to_coeffs", "unravel_coeffs", "wavedecn_shapes", "wavedecn_size"),
          ("cwt-conv", "cwt-fft"), ("cintegrate", "integrate"), ("wavefun", "cwavefun"), ("centfreq", "ccentfreq", "scale2freq", "freq2scale"), ("wavelet", "dcw", "cwavelet", "wavelist",
           "families"), ("dwt_max_level", "dwt_coeff_len", "dwt_coeff_len2", "dwtn_max_level"), ("pad", "pad2", "modes"), ("threshold", "threshold_firm")]
GROUP = {g: i for i, gs in enumerate(GROUPS) for g in gs}


def in_child(f):
    """f() in a forked process; its picklable result."""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            os.close(r)
            try:
                b = pickle.dumps((True, f()))
            except BaseException as e:
                import traceback
                b = pickle.dumps((False, (getattr(e, "msg", "%s: %s" % (type(e).__name__, e)), getattr(e, "detail", None) or dict(tb=traceback.format_exc()[-2000:]))))
            with os.fdopen(w, "wb") as fh:
                fh.write(struct.pack("q", len(b)) + b)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as fh:
        b = fh.read()
    _, st = os.waitpid(pid, 0)
    if len(b) < 8 or len(b) != 8 + struct.unpack("q", b[:8])[0]:
        return False, ("the process died with status %d" % st, {})
    return pickle.loads(b[8:])


def plain(r):
    """The value of a result, free of the package's types."""
    if isinstance(r, np.ndarray):
        return r.copy()
    if isinstance(r, (list, tuple)):
        return type(r)(plain(v) for v in r)
    if isinstance(r, dict):
        return {k: plain(v) for k, v in r.items()}
    if isinstance(r, (int, float, complex, str, bool, type(None), np.generic, slice)):
        return r
    return "%s %r" % (type(r).__name__, r)


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        if a.dtype != b.dtype or a.shape != b.shape:
            return False
        if a.tobytes() == b.tobytes():
            return True
        if a.dtype.kind not in "fc":
            return np.array_equal(a, b)
        return np.allclose(a, b, rtol=1e-5 if a.dtype.itemsize // (2 if a.dtype.kind == "c" else 1) == 4 else 1e-12, atol=0, equal_nan=True)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, slice):
        return a == b
    return a == b or (a != a and b != b)


def clobber(r, args):
    """Overwrites everything a caller could overwrite in a result."""
    if isinstance(r, np.ndarray):
        if r.flags.writeable and not any(np.may_share_memory(r, a) for a in args):
            r.fill(77)
    elif isinstance(r, (list, tuple)):
        for v in r:
            clobber(v, args)
        if isinstance(r, list):
            r[:] = [77]
    elif isinstance(r, dict):
        for v in r.values():
            clobber(v, args)
        r.clear()
        r["x"] = 77


class Proc:
    """One process's worth of calls."""

    def __init__(self):
        self.env = alphabet.Env()
        self.buf = {}
        np.seterr(all="warn")           # so that a change of any of numpy's settings is a change
        self.state = (np.geterr(), list(warnings.filters), np.get_printoptions())

    def args(self, data, reuse):
        seen = []

        def f(s):
            if isinstance(s, np.ndarray):
                if reuse:
                    k = (s.shape, s.dtype.str, len(seen))
                    b = self.buf.get(k)
                    if b is None:
                        b = self.buf[k] = np.empty(s.shape, s.dtype)
                    b[...] = s
                else:
                    b = s.copy()
                seen.append(b)
                return b
            if isinstance(s, (list, tuple)):
                return type(s)([f(v) for v in s])
            if isinstance(s, dict):
                return {k: f(v) for k, v in s.items()}
            return s
        return [f(d) for d in data], seen

    def call(self, c, reuse):
        a, arrays = self.args(c.data, reuse)
        try:
            r = c.fn(self.env, *a)
        except Exception as e:
            return ("raised", type(e).__name__, str(e)), None, arrays
        return None, r, arrays


def baseline(c):
    def f():
        c.data = [v() if isinstance(v, alphabet.Maker) else v for v in c.data]
        return c.data

    def g():
        exc, r, _ = Proc().call(c, False)
        return exc if exc is not None else plain(r)
    ok, data = in_child(f)
    if not ok:
        raise RuntimeError("cannot make the arguments of %s: %s" % (c.label, data))
    c.data = data
    ok, r = in_child(g)
    return data, ok, r


def prepare():
    global CALLS, BASE
    if CALLS is not None:
        return
    calls = alphabet.calls()

    def part(k):
        return [baseline(c) for c in calls[k::8]]
    pipes = []
    for k in range(8):
        r, w = os.pipe()
        pid = os.fork()
        if not pid:
            os.close(r)
            with os.fdopen(w, "wb") as fh:
                fh.write(pickle.dumps(part(k)))
            os._exit(0)
        os.close(w)
        pipes.append((pid, r))
    BASE = [None] * len(calls)
    for k, (pid, r) in enumerate(pipes):
        with os.fdopen(r, "rb") as fh:
            for j, (data, ok, b) in enumerate(pickle.loads(fh.read())):
                calls[k + 8 * j].data = data
                BASE[k + 8 * j] = (ok, b)
        os.waitpid(pid, 0)
    CALLS = calls


def core(n):
    c = [i for i, x in enumerate(CALLS) if x.core]
    if n >= len(c):
        return c
    step = len(c) / n
    return [c[int(i * step)] for i in range(n)]


def debruijn(k, n):
    a = [0] * k * n
    seq = []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    return seq + seq[:n - 1]


def cases(tier, seed):
    with Quiet():
        prepare()
    out = [["after", i, c.label] for i, c in enumerate(CALLS)]
    k = TRI if tier == "quick" else 160
    n = k ** 3 + 2
    parts = 64 if tier == "quick" else 1024
    return [["triples", k, n * j // parts, min(n, n * (j + 1) // parts + 2)] for j in range(parts)] + out


class Wrong(Exception):
    def __init__(self, msg, **detail):
        super().__init__(msg)
        self.msg, self.detail = msg, detail


def one(p, i, reuse, history):
    c = CALLS[i]
    exc, r, arrays = p.call(c, reuse)
    ok, want = BASE[i]
    got = exc if exc is not None else r
    if exc is None:
        good = same_plain(r, want)
    else:
        good = exc == want
    if not good:
        raise Wrong("the result of a call depends on the calls before it", call=c.label, first=CALLS[history[0]].label, before=[CALLS[j].label for j in history[-4:]],
                    array_objects="reused" if reuse else "fresh", calls_before=len(history), got=repr(got)[:500], alone=repr(want)[:500])
    if exc is None:
        clobber(r, arrays)
    if (np.geterr(), list(warnings.filters), np.get_printoptions()) != p.state:
        raise Wrong("a call changed the floating-point error handling, the warning filters or the print options", call=c.label)
    history.append(i)


def same_plain(r, want):
    if isinstance(r, (np.ndarray, list, tuple, dict)):
        if type(r) is not type(want):
            return False
        if isinstance(r, np.ndarray):
            return same(r, want)
        if isinstance(r, dict):
            return list(r) == list(want) and all(same_plain(r[k], want[k]) for k in r)
        return len(r) == len(want) and all(map(same_plain, r, want))
    return same(plain(r), want)


def check(case, ctx):
    with Quiet():
        prepare()
        thorough = ctx.tier == "thorough"
        if case[0] == "after":
            a = case[1]
            ok, r = BASE[a]
            ctx.require(ok, "the call alone crashes", call=case[2], what=r)

            def f():
                p = Proc()
                h = [a]
                one(p, a, False, h)
                ca = CALLS[a]
                ga = GROUP.get(ca.group, ca.group)
                for b, c in enumerate(CALLS):
                    near = ga == GROUP.get(c.group, c.group) or (ca.core and c.core)
                    if not thorough and not (near or c.core or (ca.core and c.group != "data")):
                        continue
                    near = near or (thorough and c.group != "data" != ca.group)
                    if near and b >= a and h[-1] != a:
                        one(p, a, bool(b & 1), h)
                    one(p, b, bool((a + b) & 1), h)
                    if near and b >= a:
                        one(p, a, not b & 1, h)
                return len(h) - 1
        else:
            def f():
                ids = core(case[1])
                p = Proc()
                h = [ids[0]]
                for n, k in enumerate(debruijn(len(ids), 3)[case[2]:case[3]]):
                    one(p, ids[k], bool(n & 1), h)
                return len(h) - 1
        ctx.step(case[0], case[1])
        ok, r = in_child(f)
        if not ok:
            ctx.fail(r[0], **(r[1] or {}))
            return
        ctx.states += r
        ctx.transitions += r
        ctx.traces += r
