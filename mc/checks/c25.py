"""C25: level and length arithmetic, exhaustively for small numbers and at every boundary up to the platform limit."""
import itertools
import warnings

import numpy as np
import pywt

from common import DISCRETE, MODES, wav

ID = "C25"
BOUNDS = dict(
    quick="dwt_max_level: all N <= 3000 x F <= 110; all (F-1)*2**k + {-2..2} below 2**63 for F <= 260 and 40 large F, as 6 integer types, name and Wavelet; "
          "swt_max_level: all N <= 30000 and all c*2**k below 2**63 for odd c <= 301; dwt_coeff_len: N, F <= 160 x 9 modes, boundaries to 2**63-1; levels chosen by 14 "
          "functions for every N <= 160 x 12 wavelets, shapes to 3-D",
    thorough="N <= 12000, functions for N <= 500 x 106 wavelets")
ASSUMPTIONS = ["numbers up to 2**63 - 1, the largest length an array can have"]
CHUNK = 2
TOP = 2 ** 63 - 1


def max_level(n, f):
    k = 0
    while n >= (f - 1) * 2 ** (k + 1):
        k += 1
    return k if n >= f - 1 else 0


def cases(tier, seed):
    q = tier == "quick"
    names = ["haar", "db2", "db3", "db4", "bior1.5", "sym6", "rbio3.7", "coif3", "db10", "bior6.8", "db38", "dmey"]
    for w in names if q else sorted(DISCRETE):
        yield ["funcs", w]
        yield ["nd", w]
    for f in range(0, 111, 10):
        yield ["small", f, 3000 if q else 12000]
    for f in range(2, 261, 10):
        yield ["big", f]
    yield ["bigf"]
    yield ["names"]
    for m in MODES:
        yield ["clen", m]
    yield ["swt"]
    yield ["bad"]


def check(case, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        globals()["chk_" + case[0]](case, ctx)


def eq(ctx, got, want, what, *args):
    ctx.transitions += 1
    ctx.traces += 1
    if got != want or isinstance(got, float):
        ctx.fail(what, got=got, want=want, args=args)


def chk_small(case, ctx):
    for f in range(max(case[1], 2), case[1] + 10):
        want, k = 0, 0
        for n in range(0, case[2] + 1):
            if n == (f - 1) * 2 ** (k + 1):
                k += 1
            ctx.states += 1
            eq(ctx, pywt.dwt_max_level(n, f), k if n >= f - 1 else 0, "dwt_max_level", n, f)
            ctx.outcomes.add(k)


def chk_big(case, ctx):
    for f in range(case[1], case[1] + 10):
        one(ctx, f)


def one(ctx, f):
    b = f - 1
    while b <= TOP + 4:
        for d in (-2, -1, 0, 1, 2):
            n = b + d
            if 0 <= n <= TOP:
                ctx.states += 1
                w = max_level(n, f)
                eq(ctx, pywt.dwt_max_level(n, f), w, "dwt_max_level", n, f)
                if d in (-1, 0):
                    for t in (np.int64, np.uint64):
                        eq(ctx, pywt.dwt_max_level(t(n), t(f)), w, "dwt_max_level of NumPy integers", n, f)
                    for t in (np.int8, np.uint8, np.int16, np.int32):
                        if f <= np.iinfo(t).max and n <= np.iinfo(t).max:
                            eq(ctx, pywt.dwt_max_level(t(n), t(f)), w, "dwt_max_level of small NumPy integers", n, f)
        b *= 2
    eq(ctx, pywt.dwt_max_level(TOP, f), max_level(TOP, f), "dwt_max_level", TOP, f)


def chk_bigf(case, ctx):
    for e in range(9, 63, 3):
        for f in (2 ** e - 1, 2 ** e, 2 ** e + 1, 3 * 2 ** (e - 1), 2 ** e + 2):
            if f <= TOP:
                one(ctx, f)
    one(ctx, TOP)
    one(ctx, TOP - 1)


def chk_names(case, ctx):
    for w in DISCRETE:
        L = pywt.Wavelet(w).dec_len
        for n in list(range(0, 300)) + [10 ** 6, 2 ** 40 * (L - 1), 2 ** 40 * (L - 1) - 1]:
            ctx.states += 1
            want = max_level(n, L)
            eq(ctx, pywt.dwt_max_level(n, w), want, "dwt_max_level with a name", n, w)
            eq(ctx, pywt.dwt_max_level(n, wav(w)), want, "dwt_max_level with a Wavelet", n, w)
            eq(ctx, pywt.dwt_max_level(data_len=n, filter_len=L), want, "dwt_max_level with keywords", n, w)
    for F in (2, 6, 10):
        w = pywt.Wavelet("custom", filter_bank=[[1.0] * F] * 4)
        eq(ctx, pywt.dwt_max_level(100, w), max_level(100, F), "dwt_max_level with a custom Wavelet", F)


def chk_clen(case, ctx):
    mode = case[1]
    enum = getattr(pywt.Modes, mode)

    def want(n, f):
        return (n + 1) // 2 if mode == "periodization" else (n + f - 1) // 2
    for n in range(1, 161):
        for f in range(1, 161):
            ctx.states += 1
            eq(ctx, pywt.dwt_coeff_len(n, f, mode), want(n, f), "dwt_coeff_len", n, f, mode)
    for e in range(8, 63):
        for n in (2 ** e - 1, 2 ** e, 2 ** e + 1, 3 * 2 ** (e - 1)):
            for f in (1, 2, 3, 20, 102, 2 ** 20, 2 ** e, 2 ** e - 1):
                if n <= TOP and f <= TOP:
                    ctx.states += 1
                    for m in (mode, enum):
                        eq(ctx, pywt.dwt_coeff_len(n, f, m), want(n, f), "dwt_coeff_len", n, f, mode)
                        eq(ctx, pywt.dwt_coeff_len(np.int64(n), np.int64(f), m), want(n, f), "dwt_coeff_len of NumPy integers", n, f, mode)
    eq(ctx, pywt.dwt_coeff_len(TOP, TOP, mode), want(TOP, TOP), "dwt_coeff_len", TOP, TOP, mode)
    for w in DISCRETE:
        L = wav(w).dec_len
        for n in (1, 2, 3, 7, 8, 50, 101):
            eq(ctx, pywt.dwt_coeff_len(n, wav(w), mode), want(n, L), "dwt_coeff_len with a Wavelet", n, w, mode)
            eq(ctx, pywt.dwt_coeff_len(data_len=n, filter_len=L, mode=mode), want(n, L), "dwt_coeff_len with keywords", n, w, mode)
            if n > 1 or mode not in ("reflect", "antireflect"):
                a, d = pywt.dwt(np.zeros(n), wav(w), mode)
                eq(ctx, (len(a), len(d)), (want(n, L),) * 2, "number of coefficients of dwt", n, w, mode)


def chk_swt(case, ctx):
    def v2(n):
        return (n & -n).bit_length() - 1
    for n in range(1, 30001):
        ctx.states += 1
        eq(ctx, pywt.swt_max_level(n), v2(n), "swt_max_level", n)
    for c in range(1, 302, 2):
        n = c
        while n <= TOP:
            ctx.states += 1
            eq(ctx, pywt.swt_max_level(n), v2(n), "swt_max_level", n)
            eq(ctx, pywt.swt_max_level(np.int64(n)), v2(n), "swt_max_level", n)
            n *= 2
    for n in (TOP, TOP - 1, TOP - 3, TOP - 7):
        eq(ctx, pywt.swt_max_level(n), v2(n), "swt_max_level", n)
    for n in range(1, 40):
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter("always")
            pywt.swt_max_level(n)
        eq(ctx, len(rec), n % 2, "swt_max_level warns exactly for odd lengths", n)


def chk_funcs(case, ctx):
    """The multilevel transforms choose these levels, and warn exactly above them."""
    w = wav(case[1])
    F = w.dec_len
    for n in list(range(1, 161 if ctx.tier == "quick" else 501)) + [(F - 1) * 2 ** k + d for k in range(5) for d in (-1, 0, 1)]:
        if n < 1:
            continue
        L = max_level(n, F)
        x = np.zeros(n)
        ctx.states += 1
        ctx.step("levels", case[1], n)
        c = pywt.wavedec(x, w)
        eq(ctx, len(c) - 1, L, "default level of wavedec", n, case[1])
        m, want = n, []
        for i in range(L):
            m = (m + F - 1) // 2
            want.insert(0, m)
        eq(ctx, [len(v) for v in c], ([m] + want), "lengths of wavedec", n, case[1])
        eq(ctx, len(pywt.wavedecn(x, w)) - 1, L, "default level of wavedecn", n, case[1])
        eq(ctx, pywt.dwtn_max_level((n,), w), L, "dwtn_max_level", n, case[1])
        eq(ctx, len(pywt.wavedecn_shapes((n,), w)) - 1, L, "default level of wavedecn_shapes", n, case[1])
        eq(ctx, len(pywt.mra(x, w, transform="dwt")) - 1, L, "default level of mra", n, case[1])
        eq(ctx, pywt.WaveletPacket(x, w).maxlevel, L, "maxlevel of WaveletPacket", n, case[1])
        r = pywt.fswavedecn(x, w)
        eq(ctx, [tuple(r.levels)], [(L,)], "default levels of fswavedecn", n, case[1])
        S = (n & -n).bit_length() - 1
        if S:
            eq(ctx, len(pywt.swt(x, w)), S, "default level of swt", n, case[1])
            eq(ctx, len(pywt.mra(x, w, transform="swt")) - 1, S, "default level of mra (swt)", n, case[1])
        for lev in range(0, L + 3):
            for name, f in (("wavedec", lambda: pywt.wavedec(x, w, level=lev)), ("wavedecn", lambda: pywt.wavedecn(x, w, level=lev)),
                            ("wavedec2", lambda: pywt.wavedec2(x.reshape(1, -1).repeat(n, 0) if n < 12 else None, w, level=lev))):
                if name == "wavedec2" and n >= 12:
                    continue
                with warnings.catch_warnings(record=True) as rec:
                    warnings.simplefilter("always")
                    c = f()
                ctx.transitions += 1
                eq(ctx, (len(c) - 1, len([r for r in rec if "too high" in str(r.message)]) > 0), (lev, lev > L), "level and warning of " + name, n, lev, case[1])
        for f in (pywt.wavedec, pywt.wavedecn):
            try:
                f(x, w, level=-1)
            except ValueError:
                continue
            ctx.fail("negative level accepted", n=n)


def chk_nd(case, ctx):
    w = wav(case[1])
    w2 = wav("db2")
    F = w.dec_len
    sizes = sorted({1, 2, 3, 5, 8, 12, F - 1, F, 2 * F - 3, 2 * F - 2, min(4 * F - 4, 64)})
    for sh in itertools.chain(itertools.product(sizes, repeat=2), itertools.product(sizes[1:7:2], repeat=3)):
        nd = len(sh)
        x = np.zeros(sh)
        for axes in [None] + [t for k in range(1, nd + 1) for t in itertools.permutations(range(nd), k)] + [(-1,), (-2, -1)]:
            ax = tuple(range(nd)) if axes is None else tuple(a % nd for a in axes)
            ctx.states += 1
            ls = [max_level(sh[a], F) for a in ax]
            L = min(ls)
            ctx.step("nd", sh, axes)
            eq(ctx, pywt.dwtn_max_level(sh, w, axes), L, "dwtn_max_level", sh, axes, case[1])
            eq(ctx, pywt.dwtn_max_level(sh, case[1], axes), L, "dwtn_max_level by name", sh, axes, case[1])
            eq(ctx, len(pywt.wavedecn(x, w, axes=axes)) - 1, L, "default level of wavedecn", sh, axes, case[1])
            eq(ctx, len(pywt.wavedecn_shapes(sh, w, axes=axes)) - 1, L, "default level of wavedecn_shapes", sh, axes, case[1])
            eq(ctx, tuple(pywt.fswavedecn(x, w, axes=axes).levels), tuple(ls), "default levels of fswavedecn", sh, axes, case[1])
            eq(ctx, pywt.WaveletPacketND(x, w, axes=axes).maxlevel, L, "maxlevel of WaveletPacketND", sh, axes, case[1])
            eq(ctx, len(pywt.mran(x, w, axes=axes, transform="dwtn")) - 1, L, "default level of mran", sh, axes, case[1])
            per = [w if i % 2 else w2 for i in range(len(ax))]
            lp = [max_level(sh[a], p.dec_len) for a, p in zip(ax, per)]
            eq(ctx, pywt.dwtn_max_level(sh, per, axes), min(lp), "dwtn_max_level, wavelet per axis", sh, axes, case[1])
            eq(ctx, len(pywt.wavedecn(x, per, axes=axes)) - 1, min(lp), "default level of wavedecn, wavelet per axis", sh, axes, case[1])
            eq(ctx, tuple(pywt.fswavedecn(x, per, axes=axes).levels), tuple(lp), "default levels of fswavedecn, wavelet per axis", sh, axes, case[1])
            if len(ax) == 2:
                eq(ctx, len(pywt.wavedec2(x, w, axes=ax)) - 1, L, "default level of wavedec2", sh, axes, case[1])
                eq(ctx, len(pywt.wavedec2(x, per, axes=ax)) - 1, min(lp), "default level of wavedec2, wavelet per axis", sh, axes, case[1])
                eq(ctx, pywt.WaveletPacket2D(x, w, axes=ax).maxlevel, L, "maxlevel of WaveletPacket2D", sh, axes, case[1])
                eq(ctx, len(pywt.mra2(x, w, axes=ax, transform="dwt2")) - 1, L, "default level of mra2", sh, axes, case[1])
            if len(ax) == 1:
                eq(ctx, len(pywt.wavedec(x, w, axis=ax[0])) - 1, L, "default level of wavedec", sh, axes, case[1])
                eq(ctx, len(pywt.mra(x, w, axis=ax[0], transform="dwt")) - 1, L, "default level of mra", sh, axes, case[1])
                eq(ctx, pywt.WaveletPacket(x, w, axis=ax[0]).maxlevel, L, "maxlevel of WaveletPacket", sh, axes, case[1])


def chk_bad(case, ctx):
    exc = (ValueError, TypeError, OverflowError)
    bad = [lambda: pywt.dwt_max_level(-1, 4), lambda: pywt.dwt_max_level(10, 1), lambda: pywt.dwt_max_level(10, 0), lambda: pywt.dwt_max_level(10, -4),
           lambda: pywt.dwt_max_level(10, 3.3), lambda: pywt.dwt_max_level(10, "nope"), lambda: pywt.dwt_max_level(10, None), lambda: pywt.dwt_max_level(10, ""),
           lambda: pywt.dwt_max_level(10, "mexh"), lambda: pywt.dwt_max_level(2 ** 64, 4), lambda: pywt.dwt_max_level(10, 2 ** 64),
           lambda: pywt.dwt_max_level("10", 4), lambda: pywt.dwt_max_level(None, 4), lambda: pywt.dwt_max_level(10, pywt.ContinuousWavelet("mexh")),
           lambda: pywt.dwt_coeff_len(0, 4, "zero"), lambda: pywt.dwt_coeff_len(-1, 4, "zero"), lambda: pywt.dwt_coeff_len(4, 0, "zero"),
           lambda: pywt.dwt_coeff_len(4, -2, "zero"), lambda: pywt.dwt_coeff_len(4, 4, "nope"), lambda: pywt.dwt_coeff_len(4, 4, 99),
           lambda: pywt.dwt_coeff_len(4, 4, -1), lambda: pywt.dwt_coeff_len(2 ** 64, 4, "zero"), lambda: pywt.dwt_coeff_len(4, 4, None),
           lambda: pywt.swt_max_level(0), lambda: pywt.swt_max_level(-8), lambda: pywt.swt_max_level(2 ** 64),
           lambda: pywt.swt_max_level(None), lambda: pywt.dwtn_max_level((3, 4), "nope"),
           lambda: pywt.dwtn_max_level((3, 4), ["db1"] * 3), lambda: pywt.dwtn_max_level((3, 4), "mexh")]
    for i, f in enumerate(bad):
        ctx.transitions += 1
        ctx.states += 1
        try:
            r = f()
        except exc:
            continue
        ctx.fail("invalid argument accepted", which=i, got=r)
