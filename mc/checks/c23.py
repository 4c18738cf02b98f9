"""C23: invalid arguments raise, and every call returns. Three exhaustive explorations of the real functions:
(1) every public function x every parameter x every value of a catalogue of values outside the documented domain,
alone and in pairs, over several valid base calls: the call must raise an ordinary exception, leave every argument
as it was, and the valid call made next must give its usual result;
(2) acceptance regions: the reconstruction, stationary, n-D and filter-bank functions are called for every vector of
array shapes, axes tuple, level, or filter lengths inside a bound, and must accept exactly the vectors a small
model of the documented domain accepts;
(3) every function on every tiny size, mode and level must return or raise an ordinary exception in bounded time."""
import itertools
import os
import signal
import warnings

import numpy as np
import pywt

import badargs

ID = "C23"
BOUNDS = dict(
    quick="one bad value at a time and all pairs, 65 entry points, base calls in float64 (float32 and complex128 for "
          "single values); shape vectors up to 3 levels with sizes up to 7; axes tuples of length <= ndim+1, ndim <= 3; "
          "levels -2..max+2; sizes 0..6 x 9 modes x 6 wavelets",
    thorough="also triples of bad values, all five base dtypes for pairs, sizes up to 10, ndim <= 4, sizes 0..12 x all modes "
             "x 14 wavelets")
ASSUMPTIONS = ["values the documentation leaves open (floats for integers, zero-size untransformed axes, repeated axes in "
               "dwt2/dwtn, lists holding None) may be accepted or rejected",
               "levels large enough to exhaust memory or time by design (wavedec level=2**70) are not called"]
CHUNK = 1
CASE_TIMEOUT = 120
ODD = (SystemError, MemoryError, RecursionError, UnboundLocalError, AssertionError, NameError, KeyboardInterrupt)
MODES = ["zero", "constant", "symmetric", "periodic", "smooth", "periodization", "reflect", "antisymmetric", "antireflect"]
NAMES = ("wavelet", "mode", "transform", "method", "part", "output_format", "name")
_tables = {}


class Hang(BaseException):
    pass


def _alarm(*a):
    raise Hang()


def setup_worker(ctx):
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    signal.signal(signal.SIGALRM, _alarm)
    # failures that are expected to be rejected print nothing
    fd = os.open(os.devnull, os.O_WRONLY)
    os.dup2(fd, 1)


def table(variant):
    if variant not in _tables:
        warnings.simplefilter("ignore")
        _tables[variant] = badargs.table(variant)
    return _tables[variant]


def fp(x, depth=0):
    """A comparable value for arguments and results."""
    if depth > 8:
        return "..."
    if isinstance(x, np.ndarray):
        return ("nd", x.shape, x.dtype.str, x.strides if depth < 0 else None,
                x.tobytes() if x.dtype.kind != "O" else repr(x.tolist()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(fp(v, depth + 1) for v in x)
    if isinstance(x, dict):
        return ("dict",) + tuple((repr(k), fp(v, depth + 1)) for k, v in x.items())
    if isinstance(x, pywt.FswavedecnResult):
        return ("fsw", fp(x.coeffs), repr(x.axes), repr(x.modes))
    if isinstance(x, pywt.Wavelet):
        return ("W", x.name, tuple(map(tuple, x.filter_bank)))
    if isinstance(x, (np.generic, float, complex)):
        return (type(x).__name__, repr(x))
    return (type(x).__name__, repr(x)[:200])


def fpd(kw):
    return tuple((k, fp(v)) for k, v in kw.items())


def call(ctx, f, kw, what, limit=10):
    """-> ('ok', result) or ('exc', exception); anything else is a violation."""
    ctx.transitions += 1
    ctx.step(what)
    signal.alarm(limit)
    try:
        try:
            r = ("ok", f(**kw) if isinstance(kw, dict) else f(*kw))
        except ODD as e:
            r = ("odd", e)
        except Exception as e:
            r = ("exc", e)
        except Hang:
            r = ("hang", None)
        finally:
            signal.alarm(0)
    except Hang:
        r = ("hang", None)
    if r[0] == "hang":
        ctx.fail("the call does not return within %d s" % limit, call=what)
    if r[0] == "odd":
        ctx.fail("the call fails with %s, which is not an error report to the caller" % type(r[1]).__name__,
                 call=what, error=repr(r[1])[:300])
    ctx.states += 1
    ctx.outcomes.add(hash(type(r[1]).__name__ if r[0] == "exc" else "ok"))
    return r


# ---------------------------------------------------------------- (1) catalogue
def cases(tier, seed):
    th = tier == "thorough"
    fns = table("f8")
    for var in ("f8", "f4", "c16") + (("c8", "i8") if th else ()):
        for name in table(var):
            bad = table(var)[name][2]
            for p in bad:
                yield ["single", var, name, p]
            if var == "f8" or th:
                for p, q in itertools.combinations(bad, 2):
                    yield ["multi", var, name, [p, q]]
    if th:
        for name in fns:
            for c in itertools.combinations(fns[name][2], 3):
                for i in range(len(fns[name][2][c[0]])):
                    yield ["multi", "f8", name, list(c), i]
    for wav in ("haar", "db2", "bior1.3") + (("db5", "sym3") if th else ()):
        for mode in ("zero", "periodization"):
            for la in range(0, 11 if th else 8):
                yield ["waverec", wav, mode, la, 10 if th else 7]
            for a in itertools.product((2, 3, 4), repeat=2):
                yield ["waverec2", wav, mode, list(a)]
                yield ["waverec2b", wav, mode, list(a)]
            for a in itertools.product((2, 3), repeat=3):
                for axes in ([0, 1], [0, 2], [2, 1], [-1, -3], [0, 1, 2], [1]):
                    yield ["waverecn", wav, mode, list(a), axes]
            yield ["idwt", wav, mode, 6 if th else 5]
            for a in itertools.product((1, 2, 3), repeat=2):
                yield ["idwt2", wav, mode, list(a)]
    for wav in ("haar", "db2", "db4"):
        for n in range(0, 66 if th else 34):
            yield ["swt", wav, n]
            yield ["iswt", wav, n]
        for s in itertools.product(range(0, 9 if th else 7), repeat=2):
            yield ["swtn", wav, list(s)]
        for s in itertools.product((2, 4), repeat=2):
            yield ["iswt2", wav, list(s)]
    yield ["fb"]
    for nd in range(1, 5 if th else 4):
        for f in AXES:
            yield ["axes", f, nd]
    for n in range(1, 13 if th else 10):
        for wav in ("haar", "db2", "db4", "bior1.3"):
            yield ["level", wav, n]
    wavs = ["haar", "db2", "db3", "bior1.3", "coif1", "dmey"] + \
        (["db7", "sym4", "bior2.2", "rbio3.1", "coif2", "db20", "bior6.8", "db38"] if th else [])
    for wav in wavs:
        for mode in MODES:
            yield ["tiny", wav, mode, 12 if th else 6]


def check(case, ctx):
    globals()["_" + case[0]](ctx, *case[1:])


def unwrap(v):
    return (v.v, True) if isinstance(v, badargs.L) else (v, False)


def reject(ctx, f, base, over, loose, what, want):
    kw = dict(base, **over)
    before = fpd(kw)
    r = call(ctx, f, kw, what)
    ctx.traces += 1
    if fpd(kw) != before:
        ctx.fail("a rejected or odd call changed its arguments", call=what)
    if r[0] == "ok" and not loose:
        ctx.fail("an argument outside the documented domain is accepted", call=what, result=repr(r[1])[:300])
    if want is not None:
        g = call(ctx, f, base, what + " then the valid call")
        if g[0] != "ok" or fp(g[1]) != want:
            ctx.fail("the valid call changes after a call with an invalid argument", call=what, got=repr(g[1])[:300])
    return r


def _single(ctx, var, name, param):
    f, base, bad = table(var)[name]
    g = call(ctx, f, base, name + " valid")
    if g[0] != "ok":
        ctx.fail("the valid base call raises", call=name, error=repr(g[1])[:300])
    want = fp(g[1])
    for v in bad[param]:
        v, loose = unwrap(v)
        reject(ctx, f, base, {param: v}, loose, "%s(%s=%s) [%s]" % (name, param, repr(v)[:120], var), want)


def _multi(ctx, var, name, params, first=None):
    f, base, bad = table(var)[name]
    vals = [bad[p] for p in params]
    if first is not None:
        vals[0] = vals[0][first:first + 1]
    g = call(ctx, f, base, name + " valid")
    want = fp(g[1])
    for c in itertools.product(*vals):
        u = [unwrap(v) for v in c]
        over = {p: v for p, (v, _) in zip(params, u)}
        loose = any(k for _, k in u)
        # whether a shape, axis or level is out of the domain can depend on the other one; a name cannot become right
        loose = loose or not any(p in NAMES and not isinstance(over[p], (list, tuple)) for p in params)
        reject(ctx, f, base, over, loose, "%s(%s) [%s]" % (name, ", ".join("%s=%s" % (p, repr(v)[:60]) for p, v in over.items()),
                                                           var), None)
    g = call(ctx, f, base, name + " valid")
    if g[0] != "ok" or fp(g[1]) != want:
        ctx.fail("the valid call changes after calls with invalid arguments", call=name, params=params)


# ---------------------------------------------------------------- (2) acceptance regions
def expect(ctx, f, args, ok, what, kw=None):
    """ok: True accept, False reject, None either."""
    g = (lambda *a: f(*a, **(kw or {})))
    r = call(ctx, g, args, what)
    ctx.traces += 1
    if ok is True and r[0] != "ok":
        ctx.fail("a valid call is rejected", call=what, error=repr(r[1])[:300])
    if ok is False and r[0] == "ok":
        ctx.fail("an invalid call is accepted", call=what, result=repr(r[1])[:300])
    return r


def rec_len(n, F, mode):
    """Length idwt makes of n coefficients, or None when it must reject them."""
    if n < 1:
        return None
    m = 2 * n if mode == "periodization" else 2 * n - F + 2
    return m if m >= 1 else None


def _waverec(ctx, wav, mode, la, top):
    F = pywt.Wavelet(wav).rec_len
    arr = {n: np.arange(1., n + 1) for n in range(0, top + 8)}

    def step(cur, ld):
        if cur is None:
            return None
        if cur == ld + 1:
            cur = ld
        return rec_len(cur, F, mode) if cur == ld else None
    for l1 in range(0, top + 1):
        ok1 = step(la, l1)
        expect(ctx, pywt.waverec, ([arr[la], arr[l1]], wav, mode), ok1 is not None, "waverec lengths %s %s %s" % ((la, l1), wav, mode))
        seconds = range(0, top + 1) if ok1 is None else range(max(0, ok1 - 3), ok1 + 3)
        for l2 in seconds:
            a2 = np.ones(l2)
            ok2 = step(ok1, l2)
            expect(ctx, pywt.waverec, ([arr[la], arr[l1], a2], wav, mode), ok2 is not None,
                   "waverec lengths %s %s %s" % ((la, l1, l2), wav, mode))
            if ok2 is not None:
                for l3 in range(max(0, ok2 - 3), ok2 + 3):
                    expect(ctx, pywt.waverec, ([arr[la], arr[l1], a2, np.ones(l3)], wav, mode), step(ok2, l3) is not None,
                           "waverec lengths %s %s %s" % ((la, l1, l2, l3), wav, mode))
                    # 2-D arrays: the other axis must agree exactly
                for o in (1, 2, 3):
                    expect(ctx, pywt.waverec, ([np.ones((2, la)), np.ones((2, l1)), np.ones((o, l2))], wav, mode), o == 2,
                           "waverec 2-D arrays, other axis %s of 2, lengths %s" % (o, (la, l1, l2)))
                    expect(ctx, pywt.waverec, ([np.ones((la, 2)), np.ones((l1, o)), np.ones((l2, 2))], wav, mode, 0), o == 2,
                           "waverec axis 0, other axis %s of 2, lengths %s" % (o, (la, l1, l2)))


def nd_step(cur, shapes, axes, F, mode):
    """Model of one level of waverec2/waverecn: cur trimmed by at most one along the transformed axes."""
    if cur is None or len(set(shapes)) != 1 or len(cur) != len(shapes[0]):
        return None
    d = shapes[0]
    axes = [a % len(cur) for a in axes]
    out = list(d)
    trimmed = False
    for i, (x, y) in enumerate(zip(cur, d)):
        if x != y:
            if not (i in axes and x == y + 1):
                return None
            trimmed = True
    for a in axes:
        out[a] = rec_len(d[a], F, mode)
        if out[a] is None:
            return None
    return tuple(out)


def _waverec2(ctx, wav, mode, a):
    F = pywt.Wavelet(wav).rec_len
    sizes = list(itertools.product((2, 3, 4), repeat=2))
    arr = {s: np.ones(s) for s in sizes}
    aa = np.ones(a)
    for s in itertools.product(sizes, repeat=3):
        ok = nd_step(tuple(a), s, (0, 1), F, mode) is not None
        what = "a %s, details %s, %s %s" % (a, s, wav, mode)
        expect(ctx, pywt.waverec2, ([aa, tuple(arr[q] for q in s)], wav, mode), ok, "waverec2 " + what)
        # whether waverecn may trim the coarsest approximation is not documented
        expect(ctx, pywt.waverecn, ([aa, dict(zip(("ad", "da", "dd"), (arr[q] for q in s)))], wav, mode),
               None if ok and tuple(a) != s[0] else ok, "waverecn " + what)


def _waverec2b(ctx, wav, mode, a):
    F = pywt.Wavelet(wav).rec_len
    sizes = list(itertools.product((2, 3, 4), repeat=2))
    for s in sizes:
        r = nd_step(tuple(a), (s,), (0, 1), F, mode)
        second = [(r[0] + i, r[1] + j) for i in range(-3, 3) for j in range(-3, 3)] if r else sizes
        for t in second:
            if min(t) < 0:
                continue
            ok = nd_step(r, (t,), (0, 1), F, mode) is not None
            c2 = [np.ones(a), (np.ones(s),) * 3, (np.ones(t),) * 3]
            cn = [np.ones(a)] + [{k: np.ones(q) for k in ("ad", "da", "dd")} for q in (s, t)]
            what = "shapes %s %s %s, %s %s" % (a, s, t, wav, mode)
            for axes in ((0, 1), (-1, -2)):
                expect(ctx, pywt.waverec2, (c2, wav, mode, axes), ok, "waverec2 " + what)
                expect(ctx, pywt.waverecn, (cn, wav, mode, axes), None if ok and tuple(a) != s else ok, "waverecn " + what)


def _waverecn(ctx, wav, mode, a, axes):
    F = pywt.Wavelet(wav).rec_len
    sizes = list(itertools.product((2, 3), repeat=3)) + [(2, 2), (2,), (2, 2, 2, 2)]
    arr = {s: np.ones(s) for s in sizes}
    keys = ["".join(k) for k in itertools.product("ad", repeat=len(axes))][1:]
    aa = np.ones(a)
    for s in sizes:
        for t in sizes:
            # all bands of shape s but one of shape t
            for which in keys[:3] if len(keys) > 1 else keys:
                d = {k: arr[s] for k in keys}
                d[which] = arr[t]
                ok = nd_step(tuple(a), tuple(v.shape for v in d.values()), axes, F, mode) is not None
                if ok and {v.shape for v in d.values()} != {tuple(a)}:
                    ok = None
                expect(ctx, pywt.waverecn, ([aa, d], wav, mode, axes), ok,
                       "waverecn a %s details %s (%s: %s) axes %s %s %s" % (a, s, which, t, axes, wav, mode))
                dd = {"a" * len(axes): aa, **d}
                sh = {v.shape for v in dd.values()}
                ok = len(sh) == 1 and nd_step(tuple(a), (tuple(a),), axes, F, mode) is not None
                expect(ctx, pywt.idwtn, (dd, wav, mode, axes), ok,
                       "idwtn a %s details %s (%s: %s) axes %s %s %s" % (a, s, which, t, axes, wav, mode))


def _idwt(ctx, wav, mode, top):
    F = pywt.Wavelet(wav).rec_len
    for m, n in itertools.product(range(0, 2 * top), repeat=2):
        ok = m == n and rec_len(m, F, mode) is not None
        expect(ctx, pywt.idwt, (np.ones(m), np.ones(n), wav, mode), ok, "idwt lengths %s %s %s" % ((m, n), wav, mode))
    for n in range(0, 2 * top):
        ok = rec_len(n, F, mode) is not None
        expect(ctx, pywt.idwt, (None, np.ones(n), wav, mode), ok, "idwt(None, length %s) %s %s" % (n, wav, mode))
        expect(ctx, pywt.idwt, (np.ones(n), None, wav, mode), ok, "idwt(length %s, None) %s %s" % (n, wav, mode))
    for s, t in itertools.product(itertools.product(range(1, top), repeat=2), repeat=2):
        for ax in (0, 1):
            ok = s == t and rec_len(s[ax], F, mode) is not None
            expect(ctx, pywt.idwt, (np.ones(s), np.ones(t), wav, mode, ax), ok, "idwt shapes %s %s axis %s %s %s" % (s, t, ax, wav, mode))


def _idwt2(ctx, wav, mode, a):
    F = pywt.Wavelet(wav).rec_len
    sizes = list(itertools.product((1, 2, 3), repeat=2))
    arr = {s: np.ones(s) for s in sizes}
    aa = np.ones(a)
    for s in itertools.product(sizes, repeat=3):
        ok = set(s) == {tuple(a)} and nd_step(tuple(a), (tuple(a),), (0, 1), F, mode) is not None
        expect(ctx, pywt.idwt2, ((aa, tuple(arr[q] for q in s)), wav, mode), ok, "idwt2 %s %s %s %s" % (a, s, wav, mode))


def v2(n):
    k = 0
    while n and n % 2 == 0:
        n //= 2
        k += 1
    return k


def _swt(ctx, wav, n):
    mx = v2(n)
    x = np.arange(1., n + 1)
    x2 = np.ones((3, n))
    for level in range(-2, 9):
        for start in range(-2, 9):
            ok = n > 0 and level >= 1 and start >= 0 and level + start <= mx
            what = "n=%d level=%d start_level=%d %s" % (n, level, start, wav)
            for trim in (False, True):
                for norm in (False, True):
                    expect(ctx, pywt.swt, (x, wav, level, start, -1, trim, norm), ok, "swt " + what)
            expect(ctx, pywt.swt, (x2, wav, level, start), ok, "swt 2-D axis -1 " + what)
            expect(ctx, pywt.swt, (x2.T, wav, level, start, 0), ok, "swt 2-D axis 0 " + what)
    if n:
        r = call(ctx, lambda: pywt.swt_max_level(n), (), "swt_max_level(%d)" % n)
        ctx.same(r[1] if r[0] == "ok" else repr(r[1]), mx, "swt_max_level")


def _iswt(ctx, wav, n):
    for level in range(1, 6):
        ok = (n > 0 and n % (2 ** level) == 0) or (None if n == 0 else False)
        if n == 0:
            ok = False
        c = [(np.ones(n), np.ones(n))] * level
        expect(ctx, pywt.iswt, (c, wav), ok, "iswt %d levels of length %d %s" % (level, n, wav))
        expect(ctx, pywt.iswt, ([np.ones(n)] + [np.ones(n)] * level, wav), ok, "iswt trimmed %d levels of length %d %s" % (level, n, wav))
        cn = [{k: np.ones((n, 4)) for k in "ad"} for _ in range(level)]
        expect(ctx, pywt.iswtn, (cn, wav, (0,)), ok if n else None, "iswtn axes=(0,) %d levels of length %d %s" % (level, n, wav))
        if not n:
            continue
        # one array of another length
        for which in range(level):
            for m in (1, n // 2, n - 1, n + 1, 2 * n):
                if m == n or m < 1:
                    continue
                for pos in (0, 1):
                    c = [(np.ones(n), np.ones(n)) for _ in range(level)]
                    c[which] = (np.ones(m), np.ones(n)) if pos == 0 else (np.ones(n), np.ones(m))
                    # the approximations of the finer levels are documented as unused
                    ok = None if pos == 0 and which > 0 else False
                    expect(ctx, pywt.iswt, (c, wav), ok, "iswt %d levels of length %d, %s of level %d has %d %s"
                           % (level, n, "cA" if pos == 0 else "cD", which, m, wav))


def _swtn(ctx, wav, s):
    mx = min(v2(q) for q in s)
    x = np.ones(s)
    for level in range(-2, 5):
        for start in range(-2, 4):
            if start < 0 or level < 0 or 0 in s:
                ok = False
            elif level == 0:
                ok = None
            else:
                ok = level + start <= mx
            if level == 0 and ok is False:
                ok = None
            what = "shape=%s level=%d start_level=%d %s" % (s, level, start, wav)
            expect(ctx, pywt.swtn, (x, wav, level, start), ok, "swtn " + what)
            expect(ctx, pywt.swt2, (x, wav, level, start), ok, "swt2 " + what)
            for ax in (0, 1):
                o2 = ok
                if level >= 1 and start >= 0 and 0 not in s:
                    o2 = level + start <= v2(s[ax])
                if 0 in s:
                    o2 = None
                expect(ctx, pywt.swtn, (x, wav, level, start, (ax,)), o2, "swtn axes=(%d,) " % ax + what)


def _iswt2(ctx, wav, s):
    sizes = [(2, 2), (2, 4), (4, 2), (4, 4), (1, 4), (8, 4)]
    for t in itertools.product(sizes, repeat=3):
        arrs = [np.ones(s)] + [np.ones(q) for q in t]
        ok = set(t) == {tuple(s)}
        expect(ctx, pywt.iswt2, ([(arrs[0], tuple(arrs[1:]))], wav), ok, "iswt2 %s %s %s" % (s, t, wav))
        expect(ctx, pywt.iswtn, ([dict(zip(("aa", "ad", "da", "dd"), arrs))], wav), ok, "iswtn %s %s %s" % (s, t, wav))
        if len(set(t)) == 1:
            two = [(np.ones(s), (np.ones(s),) * 3), (np.ones(t[0]), tuple(arrs[1:]))]
            o2 = ok and min(s) >= 4
            expect(ctx, pywt.iswt2, (two, wav), o2, "iswt2 two levels %s %s %s" % (s, t, wav))
            twn = [dict(zip(("aa", "ad", "da", "dd"), [np.ones(s)] * 4)), {k: np.ones(t[0]) for k in ("ad", "da", "dd")}]
            expect(ctx, pywt.iswtn, (twn, wav), o2, "iswtn two levels %s %s %s" % (s, t, wav))


def _fb(ctx):
    for n in range(0, 7):
        for t in itertools.product(range(0, 5 if n <= 4 else 2), repeat=n):
            fb = [list(map(float, range(1, k + 1))) for k in t]
            ok = n == 4 and len(set(t)) == 1 and t[0] > 0
            r = expect(ctx, pywt.Wavelet, ("own", fb), ok, "Wavelet(filter_bank of lengths %s)" % (t,))
            expect(ctx, pywt.Wavelet, ("own", tuple(np.array(q) for q in fb)), ok, "Wavelet(filter_bank of lengths %s)" % (t,))
            if n == 4:
                fbo = type("FB", (), {"filter_bank": fb})()
                expect(ctx, pywt.Wavelet, ("own", fbo), ok, "Wavelet(object with filter_bank of lengths %s)" % (t,))
            if ok and t[0] % 2 == 0:
                ctx.same([list(q) for q in r[1].filter_bank], fb, "the filters given are kept")
    for n in range(1, 12):
        expect(ctx, pywt.orthogonal_filter_bank, (list(range(1, n + 1)),), n % 2 == 0, "orthogonal_filter_bank length %d" % n)
    # one filter of another dimension
    for i in range(4):
        fb = [[1., 2.]] * 4
        fb[i] = [[1., 2.]]
        expect(ctx, pywt.Wavelet, ("own", fb), False, "Wavelet(filter %d is 2-D)" % i)
        fb[i] = 1.0
        expect(ctx, pywt.Wavelet, ("own", fb), False, "Wavelet(filter %d is 0-D)" % i)


def _cube(nd):
    return np.arange(float(4 ** nd)).reshape((4,) * nd)


def _lab(k):
    return ["".join(q) for q in itertools.product("ad", repeat=k)]


# name -> (kind, repeated axes: False reject / None open, callable(x, axes))
AXES = {
    "dwt": ("one", lambda x, a: pywt.dwt(x, "haar", axis=a)),
    "idwt": ("one", lambda x, a: pywt.idwt(x, x, "haar", axis=a)),
    "idwt_none": ("one", lambda x, a: pywt.idwt(None, x, "haar", axis=a)),
    "wavedec": ("one", lambda x, a: pywt.wavedec(x, "haar", level=1, axis=a)),
    "wavedec_default": ("one", lambda x, a: pywt.wavedec(x, "haar", axis=a)),
    "waverec": ("one", lambda x, a: pywt.waverec([x, x], "haar", axis=a)),
    "swt": ("one", lambda x, a: pywt.swt(x, "haar", 1, axis=a)),
    "swt_default": ("one", lambda x, a: pywt.swt(x, "haar", axis=a)),
    "iswt": ("one", lambda x, a: pywt.iswt([(x, x)], "haar", axis=a)),
    "mra": ("one", lambda x, a: pywt.mra(x, "haar", 1, axis=a)),
    "mra_dwt": ("one", lambda x, a: pywt.mra(x, "haar", 1, axis=a, transform="dwt")),
    "cwt": ("cwt", lambda x, a: pywt.cwt(x, [1, 2], "mexh", axis=a)),
    "cwt_fft": ("cwt", lambda x, a: pywt.cwt(x, [1, 2], "mexh", method="fft", axis=a)),
    "WaveletPacket": ("one", lambda x, a: pywt.WaveletPacket(x, "haar", axis=a)["a"].data),
    "dwt2": ("two?", lambda x, a: pywt.dwt2(x, "haar", axes=a)),
    "idwt2": ("two?", lambda x, a: pywt.idwt2((x, (x, x, x)), "haar", axes=a)),
    "wavedec2": ("two", lambda x, a: pywt.wavedec2(x, "haar", level=1, axes=a)),
    "wavedec2_default": ("two", lambda x, a: pywt.wavedec2(x, "haar", axes=a)),
    "waverec2": ("two*", lambda x, a: pywt.waverec2([x, (x, x, x)], "haar", axes=a)),
    "swt2": ("two", lambda x, a: pywt.swt2(x, "haar", 1, axes=a)),
    "iswt2": ("two", lambda x, a: pywt.iswt2([(x, (x, x, x))], "haar", axes=a)),
    "mra2": ("two", lambda x, a: pywt.mra2(x, "haar", 1, axes=a)),
    "mra2_dwt": ("two", lambda x, a: pywt.mra2(x, "haar", 1, axes=a, transform="dwt2")),
    "WaveletPacket2D": ("two?", lambda x, a: pywt.WaveletPacket2D(x, "haar", axes=a)["a"].data),
    "dwtn": ("n?", lambda x, a: pywt.dwtn(x, "haar", axes=a)),
    "wavedecn": ("n", lambda x, a: pywt.wavedecn(x, "haar", level=1, axes=a)),
    "wavedecn_default": ("n", lambda x, a: pywt.wavedecn(x, "haar", axes=a)),
    "fswavedecn": ("n", lambda x, a: pywt.fswavedecn(x, "haar", levels=1, axes=a)),
    "fswavedecn_default": ("n", lambda x, a: pywt.fswavedecn(x, "haar", axes=a)),
    "swtn": ("n", lambda x, a: pywt.swtn(x, "haar", 1, axes=a)),
    "mran": ("n", lambda x, a: pywt.mran(x, "haar", 1, axes=a)),
    "mran_dwt": ("n", lambda x, a: pywt.mran(x, "haar", 1, axes=a, transform="dwtn")),
    "WaveletPacketND": ("n?", lambda x, a: pywt.WaveletPacketND(x, "haar", axes=a)["a" * len(a)].data),
    "dwtn_max_level": ("n", lambda x, a: pywt.dwtn_max_level(x.shape, "haar", a)),
    "wavedecn_shapes": ("n", lambda x, a: pywt.wavedecn_shapes(x.shape, "haar", level=1, axes=a)),
    "idwtn": ("n?", lambda x, a: pywt.idwtn({k: x for k in _lab(len(a))}, "haar", axes=a)),
    "waverecn": ("n*", lambda x, a: pywt.waverecn([x, {k: x for k in _lab(len(a))[1:]}], "haar", axes=a)),
    "iswtn": ("n", lambda x, a: pywt.iswtn([{k: x for k in _lab(len(a))}], "haar", axes=a)),
    # wrong number of axes for the keys
    "idwtn_extra": ("never", lambda x, a: pywt.idwtn({k: x for k in _lab(len(a) + 1)}, "haar", axes=a)),
    "waverecn_extra": ("never", lambda x, a: pywt.waverecn([x, {k: x for k in _lab(len(a) + 1)[1:]}], "haar", axes=a)),
    "iswtn_extra": ("never", lambda x, a: pywt.iswtn([{k: x for k in _lab(len(a) + 1)}], "haar", axes=a)),
}


def _axes(ctx, name, nd):
    kind, f = AXES[name]
    x = _cube(nd)
    if kind in ("one", "cwt"):
        for a in range(-nd - 4, nd + 5):
            ok = -nd <= a < nd
            if kind == "cwt" and nd == 1 and not ok:
                ok = None
            expect(ctx, f, (x, a), ok, "%s axis=%d of %d-D" % (name, a, nd))
        return
    lens = (0, 1, 2, 3) if kind.startswith("two") else range(1, nd + 2)
    for k in lens:
        for axes in itertools.product(range(-nd - 1, nd + 1), repeat=k):
            inr = all(-nd <= a < nd for a in axes)
            rep = inr and len({a % nd for a in axes}) < k
            literal = len(set(axes)) < k
            if kind == "never":
                ok = False
            elif kind.startswith("two") and k != 2:
                ok = False
                if inr and rep and kind == "two?":
                    ok = None
            elif not inr:
                ok = False
            elif rep:
                ok = None if "?" in kind or ("*" in kind and not literal) else False
            else:
                ok = True
            if k > nd and ok is None:
                continue
            expect(ctx, f, (x, axes), ok, "%s axes=%s of %d-D" % (name, axes, nd))


def _level(ctx, wav, n):
    w = pywt.Wavelet(wav)
    mx = pywt.dwt_max_level(n, w)
    x = np.arange(1., n + 1)
    x2 = np.ones((n, n))
    for lv in range(-3, mx + 3):
        ok = lv >= 0
        what = "n=%d level=%d %s" % (n, lv, wav)
        for mode in ("symmetric", "periodization"):
            expect(ctx, pywt.wavedec, (x, wav, mode, lv), ok, "wavedec " + what)
            expect(ctx, pywt.wavedec2, (x2, wav, mode, lv), ok, "wavedec2 " + what)
            expect(ctx, pywt.wavedecn, (x2, wav, mode, lv), ok, "wavedecn " + what)
            expect(ctx, pywt.fswavedecn, (x2, wav, mode, lv), ok, "fswavedecn " + what)
            expect(ctx, pywt.fswavedecn, (x2, wav, mode, (0, lv)), ok, "fswavedecn (0, lv) " + what)
            expect(ctx, pywt.wavedecn_shapes, (x2.shape, wav, mode, lv), ok, "wavedecn_shapes " + what)
            expect(ctx, pywt.downcoef, ("d", x, wav, mode, lv), lv >= 1, "downcoef " + what)
        expect(ctx, pywt.upcoef, ("a", x, wav, lv), lv >= 1, "upcoef " + what)
    # packet trees: no node below maxlevel
    for ml in (1, 2, 3):
        t = pywt.WaveletPacket(x, wav, "symmetric", maxlevel=ml)
        for path in ("a" * k for k in range(1, 6)):
            expect(ctx, lambda p: t[p].data, (path,), len(path) <= ml, "packet node %s with maxlevel %d n=%d %s" % (path, ml, n, wav))
        for lv in range(-1, 6):
            r = expect(ctx, t.get_level, (lv,), True if 0 <= lv <= ml else (None if lv < 0 else False),
                       "get_level(%d) with maxlevel %d n=%d %s" % (lv, ml, n, wav))


# ---------------------------------------------------------------- (3) tiny sizes: return or raise
def _tiny(ctx, wav, mode, top):
    for n in range(0, top + 1):
        x = np.arange(1., n + 1)
        what = "n=%d %s %s" % (n, wav, mode)
        ok = None if n else False
        expect(ctx, pywt.dwt, (x, wav, mode), ok, "dwt " + what)
        expect(ctx, pywt.wavedec, (x, wav, mode), None, "wavedec " + what)
        expect(ctx, pywt.dwt2, (np.ones((n, 2)), wav, mode), ok, "dwt2 " + what)
        expect(ctx, pywt.dwtn, (np.ones((2, n)), wav, mode), ok, "dwtn " + what)
        expect(ctx, pywt.wavedec2, (np.ones((n, n)), wav, mode), None, "wavedec2 " + what)
        expect(ctx, pywt.wavedecn, (np.ones((n, 3)), wav, mode), None, "wavedecn " + what)
        expect(ctx, pywt.fswavedecn, (np.ones((n, 3)), wav, mode), None, "fswavedecn " + what)
        for lv in range(1, 5):
            for part in "ad":
                expect(ctx, pywt.downcoef, (part, x, wav, mode, lv), ok, "downcoef level %d " % lv + what)
                if mode == "zero":
                    expect(ctx, pywt.upcoef, (part, x, wav, lv), ok, "upcoef level %d " % lv + what)
            expect(ctx, pywt.wavedec, (x, wav, mode, lv), ok, "wavedec level %d " % lv + what)
        for pl in range(0, 2 * top + 1):
            expect(ctx, pywt.pad, (x, (pl, 2 * top - pl), mode), True if n and mode != "antireflect" or n > 1 else None,
                   "pad (%d, %d) " % (pl, 2 * top - pl) + what)
        if n:
            expect(ctx, lambda: [q.data for q in pywt.WaveletPacket(x, wav, mode).get_level(1)], (), None, "packet " + what)
        expect(ctx, pywt.dwt_coeff_len, (n, pywt.Wavelet(wav).dec_len, mode), n > 0, "dwt_coeff_len " + what)
        expect(ctx, pywt.dwt_max_level, (n, wav), None, "dwt_max_level " + what)
