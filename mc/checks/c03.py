"""C03: wavedec equals the iterated reference dwt and waverec the iterated reference synthesis, over every
(wavelet, mode, length, level, axis) of the bounded space and every pattern of zeroed bands."""
import itertools

import numpy as np

import ref
from common import CUSTOM, DISCRETE, MODES, bank, tol_for, wav, api as pywt, exact, prec
from checks.c01 import ok

ID = "C03"
BOUNDS = dict(
    quick="106 wavelets and 7 custom banks x 9 modes x lengths {1,2,3,F-1..F+1,2F-3..2F,4F-5..4F-3,8F-9..8F-6} (capped at 160; 15 short "
          "wavelets: every length 1..40) x every level 0..max+1, all unit vectors, default level, every subset of "
          "zeroed bands, every axis of 1-D..4-D shapes; long signals (up to 2**16+1) to level 16",
    thorough="lengths not capped, every length 1..80 for F<=12, levels to max+2")
ASSUMPTIONS = ["the filters of each wavelet are read from the Wavelet object (C12 decides those)",
               "perfect reconstruction is asserted to 1e-9 of the extended samples' magnitude (dmey: 2e-2)"]
CHUNK = 4
SHORT = ["haar", "db2", "db3", "db4", "bior1.3", "bior2.2", "bior2.4", "bior3.1", "bior3.3", "rbio1.3", "rbio2.2",
         "rbio3.1", "sym3", "coif1", "rbio2.4"]


def lengths(w, tier):
    F = wav(w).dec_len
    s = {1, 2, 3, F - 1, F, F + 1}
    for k in (2, 4, 8) + ((16,) if tier == "thorough" else ()):
        s |= {k * (F - 1) + i for i in (-1, 0, 1, 2)}
    if tier != "thorough":
        s = {n for n in s if n <= 160}
    if w in SHORT:
        s |= set(range(1, 41))
    if tier == "thorough" and F <= 12:
        s |= set(range(1, 81))
    return sorted(n for n in s if n >= 1)


def cases(tier, seed):
    for w in ["haar", "db2", "bior2.2", "db20", "sym5"]:
        for n in (1000, 4097, 65536) if tier == "quick" else (1000, 4097, 16383, 65536, 65537, 1 << 17):
            yield ["large", w, n]
    shapes = [(9, 16), (16, 9), (7, 3, 12), (12, 2, 7), (5, 8, 3, 6), (1, 13), (13, 1), (0, 9), (8, 1, 8, 1)]
    for w in ["haar", "db2", "bior2.2", "sym4"]:
        for s in shapes:
            yield ["nd", w, list(s)]
    for w in sorted(DISCRETE + CUSTOM, key=lambda w: -wav(w).dec_len):
        for n in lengths(w, tier):
            yield ["lin", w, n]
    for w in ["haar", "db2", "bior1.3", "bior3.1"]:
        for n in (2, 5, 8, 11, 16, 17, 23):
            yield ["none", w, n]


def levels_ok(n, F, mode, level):
    for _ in range(level):
        if not ok(n, mode):
            return False
        n = ref.coeff_len(n, F, mode)
    return True


def mags(n, b, mode, level):
    """bounds of the coefficients per level when |x| <= 1"""
    m, out = 1.0, []
    for _ in range(level):
        g = max(ref.dwt_mag(n, b.dec_lo, mode).max(), ref.dwt_mag(n, b.dec_hi, mode).max())
        m *= g
        out.append(m)
        n = ref.coeff_len(n, b.f, mode)
    return out


def cmp_list(ctx, got, want, tols, msg, **kw):
    ctx.require(isinstance(got, list) and len(got) == len(want), msg + ": number of arrays", got=len(got),
                want=len(want), **kw)
    for i, (g, v) in enumerate(zip(got, want)):
        t = tols[-1] if i == 0 else tols[len(want) - 1 - i] if tols else 0
        ctx.close(g, v, t, msg + (" approximation" if i == 0 else " detail"), pos=i, **kw)


def chk_lin(ctx, w, n):
    b, W = bank(w), wav(w)
    mx = ref.max_level(n, b.f)
    eye = np.eye(n)
    x = ref.dense(n, ctx.seed)
    xc = ref.dense(n, ctx.seed, True)
    for mode in MODES:
        top = mx + (2 if ctx.tier == "thorough" else 1)
        for level in range(0, top + 1):
            if not levels_ok(n, b.f, mode, level):
                continue
            ctx.states += 1
            ctx.step("wavedec", w, mode, n, level)
            M = mags(n, b, mode, level)
            T = [tol_for("float64", 4 * m) for m in M] or [0.0]
            want = ref.wavedec(eye, b, mode, level, 0)
            ctx.transitions += 3
            cmp_list(ctx, pywt.wavedec(eye, W, mode, level, axis=0), want, T, "wavedec axis 0", mode=mode, level=level)
            wd = [c @ x for c in want]
            got = pywt.wavedec(x, w, mode=mode, level=level)
            cmp_list(ctx, got, wd, T, "wavedec", mode=mode, level=level)
            T4 = [tol_for("complex64", 8 * m) for m in M] or [1e-6]
            got4 = pywt.wavedec(xc.astype("complex64"), W, mode, level=level)
            cmp_list(ctx, got4, [c @ xc for c in want], T4, "wavedec complex64", mode=mode, level=level)
            if level == mx:
                ctx.transitions += 2
                cmp_list(ctx, pywt.wavedec(x, W, mode), wd, T, "wavedec default level", mode=mode)
                cmp_list(ctx, pywt.wavedec(eye, W, mode, axis=0), want, T, "wavedec default level axis 0", mode=mode)
            # inverse
            g = np.prod([1.0] + [np.abs(b.rec_lo).sum() + np.abs(b.rec_hi).sum()] * level)
            mag = (M[-1] if M else 1.0) * g
            ctx.step("waverec", w, mode, n, level)
            ctx.transitions += 2
            r = pywt.waverec(got, W, mode)
            wr = ref.waverec(wd, b, mode)
            t = tol_for("float64", 4 * mag)
            ctx.close(r, wr, t, "waverec", mode=mode, level=level)
            ctx.same(len(r), n + (n % 2 if level else 0), "round trip length", mode=mode, level=level)
            ctx.close(r[:n], x, t + prec(w, 2e-2, 1e-9) * (1 + (M[-1] if M else 0)), "round trip", mode=mode,
                      level=level)
            r = pywt.waverec(list(want), W, mode, axis=0)
            ctx.close(r[:n], eye, t + prec(w, 2e-2, 1e-9) * (1 + (M[-1] if M else 0)), "round trip axis 0", mode=mode,
                      level=level)
            if level:
                # arbitrary coefficients
                c = [ref.dense(v.shape[0], ctx.seed, False, i) for i, v in enumerate(want)]
                ctx.transitions += 1
                ctx.close(pywt.waverec(c, w, mode), ref.waverec(c, b, mode), tol_for("float64", 4 * g),
                          "waverec, arbitrary coefficients", mode=mode, level=level)


def chk_none(ctx, w, n):
    """A band of zeros contributes nothing; None is the same where the other arrays determine its size."""
    b = bank(w)
    for mode in MODES:
        for level in range(1, min(4, ref.max_level(n, b.f) + 2)):
            if not levels_ok(n, b.f, mode, level):
                continue
            x = ref.dense(n, ctx.seed)
            M = mags(n, b, mode, level)
            g = np.prod([np.abs(b.rec_lo).sum() + np.abs(b.rec_hi).sum()] * level)
            c = ref.wavedec(x, b, mode, level)
            # sizes follow from each other without trimming
            even = all(ref.idwt_len(len(v), b.f, mode) == (len(c[i + 2]) if i + 2 < len(c) else n)
                       for i, v in enumerate(c[1:]))
            for pat in itertools.product([0, 1], repeat=level + 1):
                cz = [0 * v if p else v for v, p in zip(c, pat)]
                first = next((i for i, p in enumerate(pat) if not p), 99)
                T = tol_for("float64", 8 * M[-1] * g)
                want = ref.waverec(cz, b, mode)
                ctx.states += 1
                ctx.step("waverec", w, mode, n, pat)
                for axis, f in ((0, lambda v: np.stack([v, v], 1)), (-1, lambda v: v)):
                    ctx.transitions += 1
                    got = pywt.waverec([f(v) for v in cz], w, mode, axis=axis)
                    got = got[:, 1] if axis == 0 else got
                    ctx.close(got, want, T, "waverec with bands of zeros", mode=mode, pat=pat, axis=axis)
                    # some array is needed to start from
                    if even and first < 2:
                        ctx.transitions += 1
                        got = pywt.waverec([None if p else f(v) for v, p in zip(c, pat)], w, mode, axis=axis)
                        got = got[:, 1] if axis == 0 else got
                        ctx.close(got, want, T, "waverec with bands None", mode=mode, pat=pat, axis=axis)


def chk_nd(ctx, w, shape):
    b = bank(w)
    shape = tuple(shape)
    for dt in ("float64", "complex64"):
        x = ref.ndense(shape, ctx.seed, dt[0] == "c").astype(dt)
        wt = "complex128" if dt[0] == "c" else "float64"
        for ax in range(len(shape)):
            n = shape[ax]
            if n == 0:
                continue
            mx = ref.max_level(n, b.f)
            for mode in MODES:
                for level in [None] + list(range(0, mx + 2)):
                    lev = mx if level is None else level
                    if not levels_ok(n, b.f, mode, lev):
                        continue
                    ctx.states += 1
                    want = ref.wavedec(x.astype(wt), b, mode, lev, ax)
                    M = mags(n, b, mode, lev) or [1.0]
                    T = [tol_for(dt, 8 * m) for m in M]
                    g = np.prod([1.0] + [np.abs(b.rec_lo).sum() + np.abs(b.rec_hi).sum()] * lev)
                    for axis in (ax, ax - len(shape)):
                        ctx.transitions += 2
                        ctx.step("wavedec", w, mode, shape, level, axis)
                        got = pywt.wavedec(x, w, mode, level, axis)
                        cmp_list(ctx, got, want, T, "wavedec N-D", mode=mode, level=level, axis=axis)
                        r = pywt.waverec(got, w, mode, axis)
                        ctx.close(r, ref.waverec(want, b, mode, ax), tol_for(dt, 16 * M[-1] * g), "waverec N-D",
                                  mode=mode, level=level, axis=axis)


def chk_large(ctx, w, n):
    b = bank(w)
    x = ref.dense(n, ctx.seed)
    mx = ref.max_level(n, b.f)
    ctx.same(pywt.dwt_max_level(n, b.f), mx, "dwt_max_level")
    for mode in MODES:
        ctx.states += 1
        ctx.step("wavedec", w, mode, n)
        want, a, m = [], x, 1.0
        T = []
        for _ in range(mx):
            m *= max(ref.dwt_mag(min(len(a), 2 * b.f + 8), b.dec_lo, mode).max(), 1.5)
            T.append(tol_for("float64", 8 * m))
            want.append(ref.dwt_direct(a, b.dec_hi, mode))
            a = ref.dwt_direct(a, b.dec_lo, mode)
        want = [a] + want[::-1]
        ctx.transitions += 3
        got = pywt.wavedec(x, w, mode)
        cmp_list(ctx, got, want, T, "wavedec long", mode=mode)
        r = pywt.waverec(got, w, mode)
        ctx.same(len(r), n + n % 2, "round trip length", mode=mode)
        ctx.close(r[:n], x, 1e-9 * (1 + m * 1e-3), "round trip long", mode=mode)
        got = pywt.wavedec(np.stack([x, x], 1), w, mode, axis=0)
        cmp_list(ctx, [v[:, 1] for v in got], want, T, "wavedec long axis 0", mode=mode)


def check(case, ctx):
    globals()["chk_" + case[0]](ctx, *case[1:])
