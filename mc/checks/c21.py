"""C21: every call of the bounded space is executed on a build of /repo with AddressSanitizer and UndefinedBehaviorSanitizer,
with every array in a heap block of exactly its own size that starts out filled with NaN bytes. Any access outside a block, use
after free or undefined operation ends the process (a violation); a NaN in the result of a finite call is a read of memory that
was never written; a number of live bytes that grows with every repetition of a call is a leak.
Spaces: the native kernels over every filter length x mode x data length around the filter length x dtype x contiguity; the
stationary kernels up to expanded filters of more than 2^16 taps; the catalogues of valid public calls (C19) with their layouts, of
invalid calls and of shape vectors (C23); wavelet construction, all names and lengths; every one of them repeated for leaks."""
import gc
import itertools
import os
import signal

import numpy as np
import pywt

import common
import memhook
import ops
from checks import c19, c23
from engine import Violation

ID = "C21"
VARIANT = "asan"
BOUNDS = dict(
    quick="17 filter lengths 2..102 x 9 modes x all data lengths 1..min(F+3, 24) and F/2, F-1..F+1, 2F-1..2F+1 x 4 dtypes x "
          "{contiguous, strided first axis, strided last axis}; swt levels up to 17; 700 valid calls x 4 dtypes x 5 layouts; "
          "invalid values of 65 entry points; shape vectors of C23 (haar and db2); 21 repetitions of each valid call",
    thorough="all filter lengths, all data lengths 1..2F+2 (F<=20) and 1..44, every layout of C19, pairs of invalid values, all C23 spaces")
ASSUMPTIONS = ["AddressSanitizer sees an access outside a block when it lands within 256 bytes of it or in another freed block",
               "numpy itself is not instrumented"]
CHUNK = 1
CASE_TIMEOUT = 150
REPS = 6


def setup_worker(ctx):
    c23.setup_worker(ctx)
    memhook.load().install()
    assert not np.isfinite(np.empty(7)).any()


class Only:
    """Stands in for the context of another check: its functional verdicts are not this check's business."""

    def __init__(self, ctx):
        self.__dict__["c"] = ctx

    def __getattr__(self, k):
        return getattr(self.c, k)

    def __setattr__(self, k, v):
        setattr(self.c, k, v)

    def fail(self, msg, **kw):
        pass

    def require(self, *a, **k):
        self.c.traces += 1

    close = same = require


def by_length():
    d = {}
    for n in common.DISCRETE:
        d.setdefault(pywt.Wavelet(n).dec_len, n)
    return d


def cases(tier, seed):
    th = tier == "thorough"
    bl = by_length()
    for F, name in sorted(bl.items()):
        if not th and F not in (2, 4, 6, 8, 10, 12, 14, 16, 18, 20, 24, 30, 40, 62, 72, 76, 102):
            continue
        for mode in common.MODES:
            yield ["native", name, mode, 44 if th else 24]
        yield ["stationary", name, 40 if th else 24]
    for F in range(1, 24 if not th else 60):
        yield ["custom", F]
    for name, k in (("coif17", 11),) + ((("coif17", 12), ("db38", 11), ("dmey", 12), ("db8", 14), ("bior6.8", 13), ("haar", 12)) if th else ()):
        for cols in (0, 1) + ((2,) if th else ()):
            yield ["deep", name, k, cols]
    names = common.DISCRETE + pywt.wavelist(kind="continuous")
    for i in range(0, len(names), 4):
        yield ["wavelets", names[i:i + 4], th]
    for op in range(len(ops.catalog())):
        yield ["op", op, ops.catalog()[op].name, th]
    for var in ("f8", "f4", "c16", "c8") if th else ("c8",):
        for name in c23.table(var):
            for p in c23.table(var)[name][2]:
                yield ["c23", ["single", var, name, p]]
    for c in c23.cases(tier, seed):
        if c[0] in ("single", "tiny") or (c[0] == "multi" and not th):
            continue
        if not th and len(c) > 1 and c[1] not in ("haar", "db2") and c[0] in (
                "waverec", "waverec2", "waverec2b", "waverecn", "idwt", "idwt2", "swt", "iswt", "swtn", "iswt2", "level"):
            continue
        yield ["c23", c]
    for wav in ("haar", "db3", "coif1") + (("dmey", "db38") if th else ()):
        for mode in common.MODES:
            yield ["c23", ["tiny", wav, mode, 8 if th else 5]]
    if th:
        for i, o in enumerate(ops.catalog()):
            yield ["c19", [i, o.name]]


def check(case, ctx):
    signal.alarm(0)
    globals()["_" + case[0]](ctx, *case[1:])


def _c23(ctx, case):
    try:
        c23.check(case, Only(ctx))
    except Violation:
        pass


def _c19(ctx, case):
    ctx.step("C19 case", case)
    try:
        c19.check(case, Only(ctx))
    except (Violation, AssertionError, TypeError, ValueError):
        pass


def arrays(r, depth=0):
    if isinstance(r, np.ndarray):
        yield r
    elif isinstance(r, dict):
        for v in r.values():
            yield from arrays(v, depth + 1)
    elif isinstance(r, (list, tuple)) and depth < 6:
        for v in r:
            yield from arrays(v, depth + 1)


def run(ctx, what, f, *a, **k):
    """One instrumented call; result must be finite (the inputs are) or an ordinary exception."""
    ctx.transitions += 1
    ctx.step(what)
    try:
        r = f(*a, **k)
    except (ValueError, TypeError, RuntimeError, IndexError, KeyError, AttributeError) as e:
        ctx.extra["rejected"] += 1
        return None
    ctx.states += 1
    for v in arrays(r):
        ctx.traces += 1
        if v.dtype.kind in "fc" and not np.isfinite(v).all():
            ctx.fail("a finite call gives values that are not finite: memory that was never written is read", call=what, result=v)
    return r


def data(shape, dt):
    n = int(np.prod(shape))
    v = (np.arange(n) % 7 - 3.0).reshape(shape)
    return (v * (1 + 2j) if np.dtype(dt).kind == "c" else v).astype(dt)


def lengths(F, top):
    s = set(range(1, min(F + 4, top + 1))) | {F // 2 - 1, F // 2, F // 2 + 1, F - 1, F, F + 1, 2 * F - 1, 2 * F, 2 * F + 1}
    if top > 40 and F <= 20:
        s |= set(range(1, 2 * F + 3))
    return sorted(n for n in s if n > 0)


def _native(ctx, name, mode, top):
    w = pywt.Wavelet(name)
    F = w.dec_len
    for dt in common.DTYPES:
        for n in lengths(F, top):
            what = "%s %s %s n=%d" % (name, mode, dt, n)
            x = data((n,), dt)
            run(ctx, "dwt " + what, pywt.dwt, x, w, mode)
            xf, xc = np.asfortranarray(data((n, 2), dt)), data((n, 2), dt)
            run(ctx, "dwt axis 0 strided " + what, pywt.dwt, xc, w, mode, 0)
            run(ctx, "dwt axis 0 contiguous " + what, pywt.dwt, xf, w, mode, 0)
            run(ctx, "dwt axis 1 strided " + what, pywt.dwt, xf.T.copy("F"), w, mode, 1)
            run(ctx, "dwt reversed " + what, pywt.dwt, xc[::-1], w, mode, 0)
            for part in "ad":
                run(ctx, "downcoef " + what, pywt.downcoef, part, x, w, mode, 1)
                if n <= 8:
                    run(ctx, "downcoef 3 " + what, pywt.downcoef, part, x, w, mode, 3)
            run(ctx, "idwt " + what, pywt.idwt, x, x, w, mode)
            run(ctx, "idwt a " + what, pywt.idwt, x, None, w, mode)
            run(ctx, "idwt d " + what, pywt.idwt, None, x, w, mode)
            run(ctx, "idwt axis 0 strided " + what, pywt.idwt, xc, xc, w, mode, 0)
            run(ctx, "idwt axis 0 mixed " + what, pywt.idwt, xc, xf, w, mode, 0)
            run(ctx, "idwt axis 0 a " + what, pywt.idwt, xf, None, w, mode, 0)
            run(ctx, "idwt axis 0 d " + what, pywt.idwt, None, xc, w, mode, 0)
            run(ctx, "idwt axis 1 " + what, pywt.idwt, xf.T.copy("F"), xc.T.copy("C"), w, mode, 1)
            if mode in ("zero", "symmetric"):
                for part in "ad":
                    for lv in (1, 2) + ((3,) if n < 6 else ()):
                        r = run(ctx, "upcoef %d " % lv + what, pywt.upcoef, part, x, w, lv)
                        m = 0 if r is None else r.size
                        for take in {1, n, m - 1, m, m + 1, m + 5}:
                            if take > 0:
                                run(ctx, "upcoef %d take %d " % (lv, take) + what, pywt.upcoef, part, x, w, lv, take)
            if n <= 10 or n in (F, F + 1):
                run(ctx, "wavedec " + what, pywt.wavedec, x, w, mode, 3)
                run(ctx, "WaveletPacket " + what, lambda: [q.data for q in pywt.WaveletPacket(x, w, mode).get_level(1)])


def _stationary(ctx, name, top):
    w = pywt.Wavelet(name)
    F = w.dec_len
    for dt in common.DTYPES:
        for n in range(2, top + 1, 2):
            mx = pywt.swt_max_level(n)
            for start in range(mx):
                for lv in range(1, mx - start + 1):
                    what = "%s %s n=%d level=%d start=%d" % (name, dt, n, lv, start)
                    for trim, norm in ((False, False), (True, True)):
                        c = run(ctx, "swt " + what, pywt.swt, data((n,), dt), w, lv, start, -1, trim, norm)
                        if c is not None and start == 0:
                            run(ctx, "iswt " + what, pywt.iswt, c, w, norm)
                    for x, ax in ((data((n, 2), dt), 0), (np.asfortranarray(data((n, 2), dt)), 0),
                                  (np.asfortranarray(data((2, n), dt)), 1)):
                        run(ctx, "swt axis %d " % ax + what, pywt.swt, x, w, lv, start, ax)


def _deep(ctx, name, k, cols):
    """Expanded filters with more than 2**16 taps."""
    n = 2 ** k
    for dt in common.DTYPES:
        x = data((n,), dt)
        for lv in (1, 2):
            what = "%s %s n=2**%d level %d start %d" % (name, dt, k, lv, k - lv)
            if cols:
                run(ctx, "swt_axis " + what, pywt.swt, data((n, cols), dt), name, lv, k - lv, 0)
            else:
                run(ctx, "swt " + what, pywt.swt, x, name, lv, k - lv)


def _custom(ctx, F):
    """Filter banks of any length, odd ones included."""
    rng = [[(i * 3 + j * 5) % 7 - 3.0 for i in range(F)] for j in range(4)]
    for given in (rng, [np.array(r) for r in rng], [np.array(r, "f4")[::-1] for r in rng], np.array(rng), np.asfortranarray(rng)):
        w = run(ctx, "Wavelet of %d taps" % F, pywt.Wavelet, "own", given)
        if w is None:
            continue
        run(ctx, "filter banks of %d taps" % F, lambda: [w.filter_bank, w.inverse_filter_bank, w.dec_lo, w.dec_hi, w.rec_lo, w.rec_hi,
                                                         w.dec_len, w.rec_len, str(w), repr(w), len(w)])
    w = pywt.Wavelet("own", rng)
    for lv in (1, 2, 4):
        for o, b in ((False, False), (True, False), (False, True)):
            w.orthogonal, w.biorthogonal = o, b
            run(ctx, "wavefun(%d) of %d taps" % (lv, F), w.wavefun, lv)
    for mode in common.MODES:
        for n in range(1, 2 * F + 3 if F < 12 else 6):
            what = "own %d taps %s n=%d" % (F, mode, n)
            for dt in ("float64", "complex64"):
                x = data((n,), dt)
                r = run(ctx, "dwt " + what, pywt.dwt, x, w, mode)
                run(ctx, "dwt axis 0 " + what, pywt.dwt, data((n, 2), dt), w, mode, 0)
                run(ctx, "idwt " + what, pywt.idwt, x, x, w, mode)
                run(ctx, "idwt axis 0 " + what, pywt.idwt, data((n, 2), dt), data((n, 2), dt), w, mode, 0)
                run(ctx, "downcoef " + what, pywt.downcoef, "d", x, w, mode, 2)
                if mode == "zero":
                    run(ctx, "upcoef " + what, pywt.upcoef, "a", x, w, 2)
                    run(ctx, "swt " + what, pywt.swt, x, w)


def _wavelets(ctx, names, th):
    seen = [x for f in pywt.families() for x in (pywt.wavelist(f)[0], pywt.wavelist(f)[-1])]
    import copy
    import pickle
    for name in names:
        cont = name in pywt.wavelist(kind="continuous")

        def mk(name=name, cont=cont, dt=np.float64):
            return pywt.ContinuousWavelet(name, dt) if cont else pywt.Wavelet(name)

        def use(levels=(1, 2), name=name, cont=cont):
            out = []
            for dt in (np.float64, np.float32) if cont else (None,):
                w = mk(name, cont, dt)
                out += [str(w), repr(w)]
                for lv in levels:
                    out.append(w.wavefun(lv))
                if cont:
                    for ln in (1, 2, 3, 17):
                        out.append(w.wavefun(4, length=ln))
                    out += [w.lower_bound, w.upper_bound, w.center_frequency, w.bandwidth_frequency, w.fbsp_order]
                else:
                    out += [w.filter_bank, w.inverse_filter_bank, w.dec_len, w.rec_len]
                out += [w.family_name, w.short_family_name, w.symmetry, w.orthogonal, w.biorthogonal]
                v = pickle.loads(pickle.dumps(w))
                v2 = copy.deepcopy(w)
                out += [v.wavefun(3), v2.wavefun(3), v == w, v2 != w, hash(w)]
                if not cont:
                    del w
                    out += [v.filter_bank]
            out.append(pywt.integrate_wavelet(name, levels[-1]))
            out.append(pywt.central_frequency(name, levels[-1]))
            return out
        run(ctx, "wavelet " + name, use, (1, 2, 3, 5, 8))
        if th or name in seen:
            leak(ctx, "wavelet " + name, use)
        run(ctx, "unknown " + name, pywt.Wavelet if not cont else pywt.ContinuousWavelet, name + "x")
        leak(ctx, "unknown " + name, lambda: run(ctx, "unknown", pywt.Wavelet if not cont else pywt.ContinuousWavelet, name + "x"))


def leak(ctx, what, f):
    """Live bytes must not grow with repetitions of f()."""
    ctx.step("repeated " + what)

    def quiet():
        try:
            f()
        except Exception:
            pass
    for _ in range(2):
        quiet()
    # the interpreter's own caches fill up in the first calls; a leak never stops growing
    for reps in (REPS, REPS, 30, 100, 300, 1000, 3000):
        gc.collect()
        m = [memhook.allocated()]
        for _ in range(2):
            for _ in range(reps):
                quiet()
            gc.collect()
            m.append(memhook.allocated())
        ctx.transitions += 2 * reps
        ctx.traces += 1
        # a leak grows by at least one block (16 bytes or more) per call in both rounds
        if not (m[1] - m[0] >= 8 * reps and m[2] - m[1] >= 8 * reps):
            return
    ctx.fail("live memory grows with every call", call=what, bytes=m, calls_per_round=reps)


LAYOUTS = ["C", "F", "reversed", "gaps", "swapped"]


def relayout(a, kind):
    if kind == "F":
        return np.asfortranarray(a)
    if kind == "reversed":
        return a[tuple(slice(None, None, -1) for _ in a.shape)].copy()[tuple(slice(None, None, -1) for _ in a.shape)]
    if kind == "gaps":
        b = np.zeros(tuple(max(1, 2 * s - 1) for s in a.shape), a.dtype)
        v = b[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if kind == "swapped":
        return a.astype(a.dtype.newbyteorder())
    return a.copy()


def _op(ctx, i, name, th):
    op = ops.catalog()[i]
    assert op.name == name
    ctx.step("preparing " + name)
    dts = [d for d in common.DTYPES if np.dtype(d).kind != "c" or op.complex_ok]
    for dt in dts:
        base = op.make(dt)
        for k, lay in enumerate(LAYOUTS):
            if th or k == 0 or (k + i) % 2:
                args = ops.mapped(base, lambda p, a: relayout(a, lay))
                r = run(ctx, "%s %s %s" % (name, dt, lay), op.call, args)
                del r
    for k, dt in enumerate(dts):
        for j, lay in enumerate("CF"):
            if th or (i % len(dts) == k and i // 4 % 2 == j):
                args = ops.mapped(op.make(dt), lambda p, a: relayout(a, lay))
                leak(ctx, "%s %s %s" % (name, dt, lay), lambda: op.call(args))
