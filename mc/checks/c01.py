"""C01: dwt against the definition, over the whole bounded space of (wavelet, mode, length, axis, dtype).

dwt is linear, so agreement on the N unit vectors decides it for every vector of that length up to data-dependent
shortcuts; those are explored with all vectors over a small alphabet, extreme scalings and dense vectors.
"""
import itertools

import numpy as np

import ref
from common import CUSTOM, DISCRETE, EPS, MODES, bank, tol_for, wav, api as pywt

ID = "C01"
BOUNDS = dict(
    quick="106 wavelets and 7 custom banks x 9 modes x every N in 1..2F+3 (F<=40; for longer filters every N<=12, F-3..F+3, 2F-3..2F+3) "
          "on all unit vectors (1-D and both axes of 2-D; float64), dense vectors in 4 dtypes, all {-1,0,2}^N for "
          "N<=5, scalings 2**+-300, lengths up to 2**17+1, shapes up to 6-D",
    thorough="the same with every N in 1..2F+3 for every wavelet, unit vectors in 4 dtypes and more long lengths")
ASSUMPTIONS = ["the filters of each wavelet are read from the Wavelet object (C12 decides those)",
               "lengths above the bound behave like the lengths explored (interior and edge loops both reached)"]
CHUNK = 4


def lengths(F, tier):
    if tier == "thorough" or F <= 40:
        return list(range(1, 2 * F + 4))
    return sorted(set(range(1, 13)) | set(range(F - 3, F + 4)) | set(range(2 * F - 3, 2 * F + 4)) |
                  {F // 2 - 1, F // 2, F // 2 + 1})


LARGE = [255, 256, 257, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384,
         16385, 32768, 65535, 65536, 65537, 131071, 131072, 131073]


def cases(tier, seed):
    shapes = [(3, 4), (1, 5), (5, 1), (2, 3, 4), (3, 1, 5), (2, 2, 2, 3), (1, 1, 7), (2, 3, 1, 2, 3),
              (2, 1, 2, 2, 1, 3), (70, 3), (3, 70), (33, 2, 9), (0, 3), (3, 0), (600, 2), (2, 600), (1030, 3)]
    for w in ["haar", "db3", "bior2.4"] + (["sym8", "rbio6.8", "coif2"] if tier == "thorough" else []):
        for s in shapes:
            yield ["nd", w, list(s)]
    for w in ["db2"]:
        for s in [(2, 3, 2, 2, 1, 2, 2, 3), (5000, 2), (2, 5000), (300, 300)]:
            yield ["nd", w, list(s)]
    big = LARGE if tier == "thorough" else [257, 1024, 2049, 4096, 8193, 16384, 32769, 65536, 65537, 131072]
    for w in ["haar", "db2", "bior2.2", "sym5", "bior6.8", "db20"]:
        for n in big:
            yield ["large", w, n]
    if tier == "thorough":
        for w in ["coif17", "dmey", "db38", "rbio3.9", "coif3"]:
            for n in big:
                yield ["large", w, n]
    for w in sorted(DISCRETE + CUSTOM, key=lambda w: -wav(w).dec_len):
        for n in lengths(wav(w).dec_len, tier):
            yield ["lin", w, n]
    for w in ["haar", "db2", "bior1.3", "db4", "rbio2.4"]:
        for n in range(1, 6):
            yield ["alpha", w, n]
    yield ["spell"]


def ok(n, mode):
    return n > 1 or mode not in ("reflect", "antireflect")


def call(ctx, x, w, mode, axis=-1):
    ctx.transitions += 1
    ctx.step("dwt", w if isinstance(w, str) else w.name, mode, x.shape, str(x.dtype), axis)
    return pywt.dwt(x, w, mode, axis=axis)


def chk_lin(ctx, w, n):
    b = bank(w)
    W = wav(w)
    eye = np.eye(n)
    thorough = ctx.tier == "thorough"
    for mode in MODES:
        if not ok(n, mode):
            continue
        ctx.states += 1
        L = ref.coeff_len(n, b.f, mode)
        ctx.same(pywt.dwt_coeff_len(n, W, mode), L, "dwt_coeff_len", w=w, n=n, mode=mode)
        lo, hi = b.dec(n, mode)
        ml, mh = ref.dwt_mag(n, b.dec_lo, mode), ref.dwt_mag(n, b.dec_hi, mode)
        tl, th = tol_for("float64", ml), tol_for("float64", mh)
        # 1-D path, all unit vectors
        ga, gd = np.empty((L, n)), np.empty((L, n))
        for i in range(n):
            a, d = call(ctx, eye[i], W, mode)
            if a.shape != (L,) or d.shape != (L,) or a.dtype != np.float64 or d.dtype != np.float64:
                ctx.fail("dwt: coefficient shape or dtype", got=[a.shape, d.shape, a.dtype, d.dtype], want=L, mode=mode)
            ga[:, i], gd[:, i] = a, d
        ctx.close(ga, lo, tl[:, None], "dwt approximation, unit vectors", mode=mode)
        ctx.close(gd, hi, th[:, None], "dwt detail, unit vectors", mode=mode)
        # N-D path, both axes
        a, d = call(ctx, eye, W, mode, 0)
        ctx.close(a, lo, tl[:, None], "dwt axis 0 approximation", mode=mode)
        ctx.close(d, hi, th[:, None], "dwt axis 0 detail", mode=mode)
        a, d = call(ctx, eye, w, mode, 1)
        ctx.close(a, lo.T, tl[None, :], "dwt axis 1 approximation", mode=mode)
        ctx.close(d, hi.T, th[None, :], "dwt axis 1 detail", mode=mode)
        # dense data, 4 dtypes, both code paths, and exact power-of-two scaling
        for dt in ("float64", "float32", "complex128", "complex64"):
            x = ref.dense(n, ctx.seed, dt.startswith("c")).astype(dt)
            wa, wd = lo @ x.astype("complex128" if dt[0] == "c" else "float64"), None
            wd = hi @ x.astype("complex128" if dt[0] == "c" else "float64")
            for xx, ax, f in ((x, -1, lambda v: v), (x.reshape(1, n), 1, lambda v: v[0]),
                              (x.reshape(n, 1), 0, lambda v: v[:, 0])):
                a, d = call(ctx, xx, W, mode, ax)
                if a.dtype != dt or d.dtype != dt:
                    ctx.fail("dwt dtype", got=[a.dtype, d.dtype], want=dt, mode=mode)
                ctx.close(f(a), wa, tol_for(dt, 2 * ml), "dwt approximation, dense " + dt, mode=mode, ndim=xx.ndim)
                ctx.close(f(d), wd, tol_for(dt, 2 * mh), "dwt detail, dense " + dt, mode=mode, ndim=xx.ndim)
        if thorough:
            for dt in ("float32", "complex128", "complex64"):
                f = 1 - 2j if dt[0] == "c" else 1.0
                for ax in (0, 1):
                    a, d = call(ctx, (eye * f).astype(dt), W, mode, ax)
                    ctx.close(a, (lo if ax == 0 else lo.T) * f, tol_for(dt, 3 * (tl if ax else tl[:, None]) /
                              tol_for("float64", 1)), "dwt axis approximation " + dt, mode=mode)
                    ctx.close(d, (hi if ax == 0 else hi.T) * f, tol_for(dt, 3 * (th if ax else th[:, None]) /
                              tol_for("float64", 1)), "dwt axis detail " + dt, mode=mode)
        for e in (300, -300):
            x = np.ldexp(ref.dense(n, ctx.seed), e)
            a, d = call(ctx, x, W, mode)
            ctx.close(np.ldexp(a, -e), lo @ ref.dense(n, ctx.seed), tol_for("float64", 2 * ml), "dwt, data * 2**%d" % e,
                      mode=mode)
            ctx.close(np.ldexp(d, -e), hi @ ref.dense(n, ctx.seed), tol_for("float64", 2 * mh), "dwt, data * 2**%d" % e,
                      mode=mode)


def chk_alpha(ctx, w, n):
    b = bank(w)
    X = np.array(list(itertools.product([-1.0, 0.0, 2.0], repeat=n)))
    for mode in MODES:
        if not ok(n, mode):
            continue
        lo, hi = b.dec(n, mode)
        tl = tol_for("float64", 2 * ref.dwt_mag(n, b.dec_lo, mode))
        th = tol_for("float64", 2 * ref.dwt_mag(n, b.dec_hi, mode))
        for x in X:
            ctx.states += 1
            a, d = call(ctx, x, w, mode)
            ctx.close(a, lo @ x, tl, "dwt approximation, small alphabet", mode=mode, x=x)
            ctx.close(d, hi @ x, th, "dwt detail, small alphabet", mode=mode, x=x)
        a, d = call(ctx, X, w, mode, 1)
        ctx.close(a, X @ lo.T, tl, "dwt approximation, all lines", mode=mode)
        ctx.close(d, X @ hi.T, th, "dwt detail, all lines", mode=mode)
        a, d = call(ctx, X.T, w, mode, 0)
        ctx.close(a, lo @ X.T, tl[:, None], "dwt approximation, all columns", mode=mode)
        ctx.close(d, hi @ X.T, th[:, None], "dwt detail, all columns", mode=mode)
        xi = np.array([3, -1, 4, 1, -5][:n])
        a, d = call(ctx, xi, w, mode)
        ctx.close(a, lo @ xi, 10 * tl, "dwt approximation, integers", mode=mode)
        ctx.close(d, hi @ xi, 10 * th, "dwt detail, integers", mode=mode)


def chk_large(ctx, w, n):
    b = bank(w)
    x = ref.dense(n, ctx.seed)
    for mode in MODES:
        ctx.states += 1
        wa, wd = ref.dwt_direct(x, b.dec_lo, mode), ref.dwt_direct(x, b.dec_hi, mode)
        mag = 2 * (b.f + 2) ** 2
        for dt in ("float64", "float32"):
            a, d = call(ctx, x.astype(dt), w, mode)
            ctx.close(a, wa, tol_for(dt, mag), "dwt approximation, long", mode=mode, dt=dt)
            ctx.close(d, wd, tol_for(dt, mag), "dwt detail, long", mode=mode, dt=dt)
        X = np.stack([x, 2 * x[::-1]], axis=1)
        a, d = call(ctx, X, w, mode, 0)
        ctx.close(a[:, 0], wa, tol_for("float64", mag), "dwt approximation, long axis", mode=mode)
        ctx.close(d[:, 0], wd, tol_for("float64", mag), "dwt detail, long axis", mode=mode)
        wa, wd = ref.dwt_direct(X[:, 1], b.dec_lo, mode), ref.dwt_direct(X[:, 1], b.dec_hi, mode)
        ctx.close(a[:, 1], wa, tol_for("float64", 2 * mag), "dwt approximation, long axis", mode=mode)
        ctx.close(d[:, 1], wd, tol_for("float64", 2 * mag), "dwt detail, long axis", mode=mode)


def chk_nd(ctx, w, shape):
    b = bank(w)
    shape = tuple(shape)
    for dt in ("float64", "complex64"):
        x = ref.ndense(shape, ctx.seed, dt[0] == "c").astype(dt)
        for ax in range(len(shape)):
            if shape[ax] == 0 or shape[ax] > 1100:
                continue
            for mode in MODES if max(shape) < 200 else ("symmetric", "periodization", "antireflect"):
                if not ok(shape[ax], mode):
                    continue
                ctx.states += 1
                lo, hi = b.dec(shape[ax], mode)
                mag = 4 * max(ref.dwt_mag(shape[ax], b.dec_lo, mode).max(), ref.dwt_mag(shape[ax], b.dec_hi, mode).max())
                for axis in (ax, ax - len(shape)):
                    a, d = call(ctx, x, w, mode, axis)
                    ctx.close(a, ref.along(lo, x, ax), tol_for(dt, mag), "dwt approximation, N-D", mode=mode, axis=axis)
                    ctx.close(d, ref.along(hi, x, ax), tol_for(dt, mag), "dwt detail, N-D", mode=mode, axis=axis)
                # every line as on its own
                if 0 < np.prod(shape) <= 40:
                    xm = np.moveaxis(x, ax, -1).reshape(-1, shape[ax])
                    am, dm = (np.moveaxis(v, ax, -1).reshape(len(xm), -1) for v in (a, d))
                    for i, line in enumerate(xm):
                        a1, d1 = call(ctx, line, w, mode)
                        ctx.close(am[i], a1, tol_for(dt, mag), "line of N-D approximation vs 1-D", mode=mode, axis=ax)
                        ctx.close(dm[i], d1, tol_for(dt, mag), "line of N-D detail vs 1-D", mode=mode, axis=ax)


def chk_spell(ctx):
    """Every accepted way of naming the same mode and wavelet gives the same result."""
    x = ref.dense(7, ctx.seed)
    for mode in MODES:
        m = getattr(pywt.Modes, mode)
        ctx.same(pywt.Modes.from_object(mode), m, "Modes.from_object(name)")
        ctx.same(pywt.Modes.from_object(m), m, "Modes.from_object(enum)")
        for w in DISCRETE:
            want = call(ctx, x, wav(w), mode)
            ctx.states += 1
            b = bank(w)
            lo, hi = b.dec(7, mode)
            mag = ref.dwt_mag(7, b.dec_lo, mode).max() + ref.dwt_mag(7, b.dec_hi, mode).max()
            for spelling in (w, w.upper(), pywt.Wavelet(w)):
                for mm in (mode, m):
                    a, d = call(ctx, x, spelling, mm)
                    ctx.close(a, lo @ x, tol_for("float64", 2 * mag), "dwt by another spelling", w=w, mode=mode)
                    ctx.close(d, hi @ x, tol_for("float64", 2 * mag), "dwt by another spelling", w=w, mode=mode)
                    ctx.same(a.tobytes() + d.tobytes(), want[0].tobytes() + want[1].tobytes(), "dwt spelling, bitwise")
    for w in ("haar", "db1", "bior1.1", "rbio1.1"):
        a, d = call(ctx, x, w, "symmetric")
        want = call(ctx, x, "haar", "symmetric")
        ctx.close(a, want[0], 1e-14, "haar aliases")
        ctx.close(d, want[1], 1e-14, "haar aliases")


def check(case, ctx):
    globals()["chk_" + case[0]](ctx, *case[1:])
