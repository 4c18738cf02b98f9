"""C02: idwt against the synthesis definition on all unit coefficient vectors, and the dwt/idwt round trip."""
import itertools

import numpy as np

import ref
from common import CUSTOM, DISCRETE, MODES, bank, tol_for, wav, api as pywt, exact, prec
from checks.c01 import lengths, ok

ID = "C02"
BOUNDS = dict(
    quick="106 wavelets and 7 custom banks x 9 modes x every coefficient count n in 1..F+2 with a non-empty reconstruction (subset for F>40) "
          "on all unit cA and cD (1-D and both axes of 2-D), None on either side, dense in 4 dtypes and all 16 dtype "
          "pairs; round trip for every N in 1..2F+3 (subset for F>40); {-1,0,2}^n for n<=4; lengths up to 2**16+1; "
          "shapes up to 6-D; 20 pairs of different "
          "layouts of cA and cD",
    thorough="the same without the subsets")
ASSUMPTIONS = ["the filters of each wavelet are read from the Wavelet object (C12 decides those)",
               "perfect reconstruction is asserted to 1e-10 (dmey: 5e-3, its filters are approximate)"]
CHUNK = 4


def counts(F, mode, tier):
    lo = 1 if mode == "periodization" else max(1, F // 2)
    hi = F + 3
    if tier == "thorough" or F <= 40:
        return range(lo, hi)
    h = F // 2
    return sorted({n for n in set(range(1, 8)) | set(range(h - 2, h + 4)) | set(range(hi - 3, hi)) if n >= lo})


def cases(tier, seed):
    shapes = [(6, 7), (9, 6), (5, 6, 4), (4, 1, 7), (4, 4, 5, 3), (2, 3, 4, 1, 5), (2, 1, 6, 2, 1, 4), (70, 6), (6, 70),
              (0, 6), (6, 0), (600, 4), (4, 600)]
    for w in ["haar", "db3", "bior2.2"] + (["sym4", "rbio2.4", "coif1"] if tier == "thorough" else []):
        for s in shapes:
            yield ["nd", w, list(s)]
    yield ["nd", "db2", [2, 3, 2, 2, 1, 2, 3, 3]]
    big = [255, 256, 1025, 2048, 4097, 16384, 32769, 65536]
    for w in ["haar", "db2", "sym5", "bior6.8", "db20"] + (["coif17", "dmey", "db38"] if tier == "thorough" else []):
        for n in big:
            yield ["large", w, n]
    for w in sorted(DISCRETE + CUSTOM, key=lambda w: -wav(w).dec_len):
        F = wav(w).dec_len
        for n in sorted(set(counts(F, "periodization", tier)) | set(counts(F, "zero", tier))):
            yield ["lin", w, n]
        for n in lengths(F, tier):
            yield ["pr", w, n]
    for w in ["haar", "db2", "bior2.2"]:
        for n in range(1, 5):
            yield ["alpha", w, n]


def call(ctx, a, d, w, mode, axis=-1):
    ctx.transitions += 1
    ctx.step("idwt", w if isinstance(w, str) else w.name, mode, None if a is None else (a.shape, str(a.dtype)),
             None if d is None else (d.shape, str(d.dtype)), axis)
    return pywt.idwt(a, d, w, mode, axis=axis)


def valid(n, F, mode):
    return mode == "periodization" or 2 * n - F + 2 >= 1


def chk_lin(ctx, w, n):
    b, W = bank(w), wav(w)
    eye = np.eye(n)
    for mode in MODES:
        if not valid(n, b.f, mode):
            continue
        ctx.states += 1
        lo, hi = b.rec(n, mode)
        ml, mh = np.abs(lo).sum(axis=1), np.abs(hi).sum(axis=1)
        mm = max(ml.max(), mh.max())
        T = tol_for("float64", mm)
        ra, rd = np.empty(lo.shape), np.empty(hi.shape)
        for i in range(n):
            r = call(ctx, eye[i], None, W, mode)
            s = call(ctx, None, eye[i], W, mode)
            if r.shape != (lo.shape[0],) or s.shape != r.shape or r.dtype != np.float64:
                ctx.fail("idwt: shape or dtype", got=[r.shape, s.shape, r.dtype], want=lo.shape[0], mode=mode)
            ra[:, i], rd[:, i] = r, s
        ctx.close(ra, lo, T, "idwt of unit cA", mode=mode)
        ctx.close(rd, hi, T, "idwt of unit cD", mode=mode)
        Z = np.zeros((n, n))
        ctx.close(call(ctx, eye, None, W, mode, 0), lo, T, "idwt axis 0, unit cA", mode=mode)
        ctx.close(call(ctx, None, eye, w, mode, 0), hi, T, "idwt axis 0, unit cD", mode=mode)
        ctx.close(call(ctx, eye, Z, W, mode, 1), lo.T, T, "idwt axis 1, unit cA, zero cD", mode=mode)
        ctx.close(call(ctx, Z, eye, W, mode, -1), hi.T, T, "idwt axis 1, unit cD, zero cA", mode=mode)
        for dt in ("float64", "float32", "complex128", "complex64"):
            wt = "complex128" if dt[0] == "c" else "float64"
            A = ref.dense(n, ctx.seed, dt[0] == "c").astype(dt)
            D = ref.dense(n, ctx.seed, dt[0] == "c", 5).astype(dt)
            want = lo @ A.astype(wt) + hi @ D.astype(wt)
            t = tol_for(dt, 4 * mm)
            ctx.close(call(ctx, A, D, W, mode), want, t, "idwt dense " + dt, mode=mode)
            ctx.close(call(ctx, A[:, None], D[:, None], W, mode, 0)[:, 0], want, t, "idwt axis dense " + dt, mode=mode)
            ctx.close(call(ctx, A[None], D[None], W, mode)[0], want, t, "idwt axis dense " + dt, mode=mode)
            ctx.close(call(ctx, A, None, W, mode), lo @ A.astype(wt), t, "idwt cD None " + dt, mode=mode)
            ctx.close(call(ctx, None, D, W, mode), hi @ D.astype(wt), t, "idwt cA None " + dt, mode=mode)
        for e in (300, -300):
            A, D = ref.dense(n, ctx.seed), ref.dense(n, ctx.seed, False, 5)
            r = call(ctx, np.ldexp(A, e), np.ldexp(D, e), W, mode)
            ctx.close(np.ldexp(r, -e), lo @ A + hi @ D, 4 * T, "idwt, data * 2**%d" % e, mode=mode)


def chk_pr(ctx, w, n):
    b, W = bank(w), wav(w)
    for mode in MODES:
        if not ok(n, mode):
            continue
        ctx.states += 1
        x = ref.dense(n, ctx.seed)
        mag = max(ref.dwt_mag(n, b.dec_lo, mode).max(), ref.dwt_mag(n, b.dec_hi, mode).max())
        mag *= np.abs(b.rec_lo).sum() + np.abs(b.rec_hi).sum()
        # dmey's tabulated filters reconstruct only approximately: its error scales with the extended samples
        eps = prec(w, 5e-3 * mag, 1e-10)
        T = eps + tol_for("float64", mag)
        lo, hi = b.dec(n, mode)
        rl, rh = b.rec(lo.shape[0], mode)
        exact = rl @ (lo @ x) + rh @ (hi @ x)
        ctx.transitions += 1
        ctx.step("idwt(dwt)", w, mode, n)
        r = pywt.idwt(*pywt.dwt(x, W, mode), W, mode)
        want_len = n + n % 2
        if r.shape != (want_len,):
            ctx.fail("round trip length", got=r.shape, want=want_len, mode=mode)
        ctx.close(r[:n], x, T, "round trip", mode=mode)
        ctx.close(r, exact, tol_for("float64", mag), "round trip vs reference synthesis of reference analysis", mode=mode)
        X = np.stack([x, x[::-1], x * 0 + 1])
        for axis, Y in ((0, X.T), (1, X), (-1, X)):
            ctx.transitions += 1
            r = pywt.idwt(*pywt.dwt(Y, W, mode, axis), W, mode, axis)
            r = r[:n] if axis == 0 else r[:, :n]
            ctx.close(r, Y, T, "round trip along axis", mode=mode, axis=axis)
        x4 = x.astype(np.float32)
        r = pywt.idwt(*pywt.dwt(x4, W, mode), W, mode)
        ctx.transitions += 1
        ctx.close(r[:n], x4, eps + tol_for("float32", mag), "round trip float32", mode=mode)


def chk_alpha(ctx, w, n):
    b = bank(w)
    X = np.array(list(itertools.product([-1.0, 0.0, 2.0], repeat=n)))
    for mode in MODES:
        if not valid(n, b.f, mode):
            continue
        lo, hi = b.rec(n, mode)
        T = tol_for("float64", 4 * (np.abs(lo).sum(axis=1).max() + np.abs(hi).sum(axis=1).max()))
        for i, a in enumerate(X):
            for j in range(0, len(X), 1 if n < 4 else 5):
                d = X[j]
                ctx.states += 1
                ctx.close(call(ctx, a, d, w, mode), lo @ a + hi @ d, T, "idwt, small alphabet", mode=mode, a=a, d=d)
        D = X[::-1]
        ctx.close(call(ctx, X, D, w, mode, 1), X @ lo.T + D @ hi.T, T, "idwt all lines", mode=mode)
        ctx.close(call(ctx, X.T, D.T, w, mode, 0), lo @ X.T + hi @ D.T, T, "idwt all columns", mode=mode)
    # every pair of dtypes
    kinds = ["float64", "float32", "complex128", "complex64", "int64", "int8", "bool", "float16", "uint8"]
    for da, dd in itertools.product(kinds, repeat=2):
        a = np.array([1, 0, 3, 2][:n]).astype(da)
        d = np.array([0, 1, 1, 2][:n]).astype(dd)
        if da[0] == "c":
            a = a + 2j
        a = a.astype(da)
        for mode in ("symmetric", "periodization"):
            if valid(n, b.f, mode):
                lo, hi = b.rec(n, mode)
                for f in (lambda v: v, lambda v: v.reshape(1, n)):
                    r = call(ctx, f(a), f(d), w, mode)
                    ctx.close(r.ravel(), lo @ a.astype(complex) + hi @ d.astype(complex), tol_for("float32", 40),
                              "idwt mixed dtypes", mode=mode, da=da, dd=dd)


def chk_large(ctx, w, n):
    b = bank(w)
    A, D = ref.dense(n, ctx.seed), ref.dense(n, ctx.seed, False, 3)
    for mode in ("symmetric", "periodization", "zero"):
        ctx.states += 1
        # upsample-and-filter by direct convolution
        full = np.zeros(2 * n)
        up = lambda c: np.stack([c, 0 * c], axis=1).ravel()
        cv = np.convolve(up(A), b.rec_lo) + np.convolve(up(D), b.rec_hi)       # length 2n+F-1
        F = b.f
        if mode == "periodization":
            full[:] = cv[:2 * n]
            full[:len(cv) - 2 * n] += cv[2 * n:]
            want = np.roll(full, -(F // 2 - 1))
        else:
            want = cv[F - 2:F - 2 + 2 * n - F + 2]
        for dt in ("float64", "float32"):
            T = tol_for(dt, 8 * F)
            ctx.close(call(ctx, A.astype(dt), D.astype(dt), w, mode), want, T, "idwt long", mode=mode)
            r = call(ctx, np.stack([A, D], 1).astype(dt), np.stack([D, A], 1).astype(dt), w, mode, 0)
            ctx.close(r[:, 0], want, T, "idwt long axis", mode=mode)
    for mode in MODES:
        for N in (2 * n, 2 * n - 1):
            ctx.states += 1
            ctx.transitions += 1
            x = ref.dense(N, ctx.seed)
            r = pywt.idwt(*pywt.dwt(x, w, mode), w, mode)
            ctx.same(len(r), N + N % 2, "round trip length")
            ctx.close(r[:N], x, prec(w, 1.0, 1e-10), "round trip long", mode=mode)


LAYS = [(a, d) for a in "CFRGU" for d in "CFRGU" if a != d]


def lay(x, k):
    """The same values: C order, Fortran order, reversed axes, gaps, the last two axes swapped in memory."""
    if k == "C":
        return x.copy()
    if k == "F":
        return np.asfortranarray(x)
    if k == "R":
        f = (slice(None, None, -1),) * x.ndim
        return x[f].copy()[f]
    if k == "U":
        return x.swapaxes(-1, -2).copy().swapaxes(-1, -2) if x.ndim > 1 else x.copy()
    b = np.full([2 * n for n in x.shape], 7, x.dtype)
    v = b[(slice(None, None, 2),) * x.ndim]
    v[...] = x
    return v


def chk_nd(ctx, w, shape):
    b = bank(w)
    shape = tuple(shape)
    for dt in ("float64", "complex64"):
        A = ref.ndense(shape, ctx.seed, dt[0] == "c").astype(dt)
        D = ref.ndense(shape, ctx.seed, dt[0] == "c", 4).astype(dt)
        for ax in range(len(shape)):
            if shape[ax] == 0:
                continue
            for mode in MODES:
                if not valid(shape[ax], b.f, mode):
                    continue
                ctx.states += 1
                lo, hi = b.rec(shape[ax], mode)
                wt = "complex128" if dt[0] == "c" else "float64"
                wa, wd = ref.along(lo, A.astype(wt), ax), ref.along(hi, D.astype(wt), ax)
                T = tol_for(dt, 8 * np.abs(lo).sum(axis=1).max())
                for axis in (ax, ax - len(shape)):
                    ctx.close(call(ctx, A, D, w, mode, axis), wa + wd, T, "idwt N-D", mode=mode, axis=axis)
                if len(shape) <= 4 and A.size < 2000:
                    for la, ld in LAYS:
                        ctx.close(call(ctx, lay(A, la), lay(D, ld), w, mode, ax), wa + wd, T, "idwt N-D, layouts", mode=mode, axis=ax, layouts=[la, ld])
                ctx.close(call(ctx, A, None, w, mode, ax), wa, T, "idwt N-D cD None", mode=mode, axis=ax)
                ctx.close(call(ctx, None, D, w, mode, ax), wd, T, "idwt N-D cA None", mode=mode, axis=ax)


def check(case, ctx):
    globals()["chk_" + case[0]](ctx, *case[1:])
