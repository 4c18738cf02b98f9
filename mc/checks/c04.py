"""C04: dwt2/dwtn/idwt2/idwtn against the separable reference over shapes x axes x per-axis wavelets and modes x None sets.

All unit tensors of a shape are transformed at once by adding one untransformed axis, so each (shape, axes, wavelets,
modes) point decides the whole linear map."""
import itertools

import numpy as np

import ref
from common import CUSTOM, DISCRETE, MODES, bank, tol_for, wav, api as pywt, exact, prec
from checks.c01 import ok

ID = "C04"
BOUNDS = dict(
    quick="all unit tensors of every 2-D shape in {1..6}^2, of 9 3-D and 4 4-D shapes; every ordered tuple of distinct "
          "axes, positive and negative, repeated axes; all 81 mode pairs; 106 wavelets and 7 custom banks on either axis; all 16 (2 axes) "
          "and 255 (3 axes) sets of missing bands; 4 dtypes and mixed dtypes",
    thorough="2-D shapes {1..9}^2, 20 3-D shapes, more wavelet pairs")
ASSUMPTIONS = ["the filters of each wavelet are read from the Wavelet object (C12 decides those)"]
CHUNK = 2
SH3 = [(2, 3, 4), (4, 3, 2), (5, 1, 4), (1, 5, 3), (3, 4, 1), (4, 4, 3), (3, 5, 5), (6, 2, 3), (2, 7, 2)]
SH4 = [(2, 3, 4, 5), (3, 1, 4, 2), (4, 2, 3, 3), (1, 2, 1, 5)]


def cases(tier, seed):
    hi = 7 if tier == "quick" else 10
    for s in SH4:
        for w in (["haar", "db2", "bior1.3", "rbio2.2"],):
            yield ["lin", list(s), w]
    for s in SH3 + ([(7, 6, 5), (9, 4, 8), (5, 8, 6), (8, 8, 8), (6, 9, 2)] if tier == "thorough" else []):
        for w in (["db2", "haar", "bior2.2"], ["haar", "haar", "haar"], ["rbio1.3", "db3", "db2"]):
            yield ["lin", list(s), w]
    pairs = [["haar", "db2"], ["bior1.3", "db3"], ["db2", "db2"], ["@c3", "@p10"]]
    if tier == "thorough":
        pairs += [["sym4", "rbio2.4"], ["coif1", "haar"], ["bior3.1", "bior2.2"]]
    for s in itertools.product(range(1, hi), repeat=2):
        for w in pairs:
            yield ["lin", list(s), w]
    for s in [(4, 6), (5, 3), (7, 8), (6, 5)]:
        for i in range(9):
            yield ["modes", list(s), i]
    for i in range(0, len(DISCRETE + CUSTOM), 2):
        yield ["wav", (DISCRETE + CUSTOM)[i:i + 2]]
    for s in [(4, 6), (5, 3), (6, 7)]:
        for w in (["haar", "db2"], ["bior2.2", "haar"]):
            yield ["none", list(s), w]
    for s in [(4, 6, 2), (3, 5, 7)]:
        yield ["none", list(s), ["haar", "db2", "bior1.3"]]
    yield ["none", [7], ["db2"]]
    yield ["mixed"]
    for s in [(64, 3), (3, 64), (33, 65), (130, 129), (17, 9, 33), (5, 200, 4), (256, 257), (1, 2000), (3000, 2), (2, 3, 33, 34), (2, 1, 20, 2, 21)]:
        yield ["big", list(s)]


def mag(shape, banks, modes, axes):
    m, shape = 1.0, list(shape)
    for ax, b, mode in zip(axes, banks, modes):
        m *= max(ref.dwt_mag(shape[ax], b.dec_lo, mode).max(), ref.dwt_mag(shape[ax], b.dec_hi, mode).max())
        shape[ax] = ref.coeff_len(shape[ax], b.f, mode)
    return m


def rmag(banks):
    return float(np.prod([np.abs(b.rec_lo).sum() + np.abs(b.rec_hi).sum() for b in banks]))


def usable(shape, banks, modes, axes):
    shape = list(shape)
    for ax, b, mode in zip(axes, banks, modes):
        if not ok(shape[ax], mode):
            return False
        shape[ax] = ref.coeff_len(shape[ax], b.f, mode)
    return True


def one(ctx, x, ws, modes, axes, dt, call_axes=None, scalar_args=False):
    """forward vs reference, then inverse of arbitrary coefficients and round trip vs reference"""
    banks = [bank(w) for w in ws]
    x = x.astype(dt)
    if not usable(x.shape, banks, modes, axes):
        return
    ctx.states += 1
    ctx.transitions += 2
    call_axes = axes if call_axes is None else call_axes
    ctx.step("dwtn", ws, modes, x.shape, dt, call_axes)
    wt = "complex128" if dt[0] == "c" else "float64"
    want = ref.dwtn(x.astype(wt), banks, modes, axes)
    m = mag(x.shape, banks, modes, axes) * 2
    W, M = (ws[0], modes[0]) if scalar_args else (tuple(wav(w) for w in ws), tuple(modes))
    got = pywt.dwtn(x, W, M, call_axes)
    kw = dict(axes=call_axes, modes=modes, ws=ws, dt=dt)
    ctx.same(sorted(got), sorted(want), "dwtn keys", **kw)
    for k in want:
        ctx.close(got[k], want[k], tol_for(dt, m), "dwtn band", key=k, **kw)
        if got[k].dtype != np.dtype(dt):
            ctx.fail("dwtn dtype", got=got[k].dtype, **kw)
    T = tol_for(dt, m * rmag(banks))
    r = pywt.idwtn(got, W, M, call_axes)
    back = ref.idwtn(want, banks, modes, axes)
    ctx.close(r, back, T, "idwtn of dwtn", **kw)
    if all(map(exact, ws)) and len(set(axes)) == len(axes):
        sl = tuple(slice(0, n) for n in x.shape)
        ctx.close(r[sl], x, T + 1e-9 * m, "round trip", **kw)
        for i, (a, b) in enumerate(zip(r.shape, x.shape)):
            ctx.require(a == b + (b % 2 if i in axes else 0), "round trip shape", got=r.shape, want=x.shape, **kw)
    if len(axes) == 2:
        ctx.transitions += 2
        c = pywt.dwt2(x, W, M, call_axes)
        for k, v in (("aa", c[0]), ("da", c[1][0]), ("ad", c[1][1]), ("dd", c[1][2])):
            ctx.close(v, want[k], tol_for(dt, m), "dwt2 band", key=k, **kw)
        ctx.close(pywt.idwt2(c, W, M, call_axes), back, T, "idwt2", **kw)


def chk_lin(ctx, shape, ws):
    shape = tuple(shape)
    nd = len(shape)
    n = int(np.prod(shape))
    X = np.eye(n).reshape(shape + (n,))
    xd = ref.ndense(shape, ctx.seed)
    xc = ref.ndense(shape, ctx.seed, True)
    combos = []
    for r in range(1, nd + 1):
        combos += list(itertools.permutations(range(nd), r))
    for i in range(nd):
        combos += [(i, i)] if n < 40 else []
    for axes in combos:
        for j, mode in enumerate(MODES):
            modes = [MODES[(j + 2 * q) % 9] for q in range(len(axes))]
            neg = tuple(a - nd if (j + a) % 2 else a for a in axes)
            w = [ws[a] for a in axes]
            if n <= 130:
                one(ctx, X, w, modes, axes, "float64")
            one(ctx, xd, w, modes, axes, "float64", neg)
            one(ctx, xc, w, [mode] * len(axes), axes, "complex64", neg)
            one(ctx, xd, [w[0]] * len(axes), [mode] * len(axes), axes, "float32", neg, True)
            if axes == tuple(range(nd)):
                ctx.transitions += 2
                c = pywt.dwtn(xd, w[0], mode) if usable(shape, [bank(w[0])] * nd, [mode] * nd, axes) else None
                if c is not None:
                    want = ref.dwtn(xd, [bank(w[0])] * nd, [mode] * nd, axes)
                    m = mag(shape, [bank(w[0])] * nd, [mode] * nd, axes)
                    for k in want:
                        ctx.close(c[k], want[k], tol_for("float64", 4 * m), "dwtn default axes", mode=mode)
                    ctx.close(pywt.idwtn(c, w[0], mode), ref.idwtn(want, [bank(w[0])] * nd, [mode] * nd, axes),
                              tol_for("float64", 4 * m * rmag([bank(w[0])] * nd)), "idwtn default axes", mode=mode)
            if nd >= 2 and axes == (nd - 2, nd - 1) and usable(shape, [bank(ws[0])] * 2, [mode] * 2, axes):
                ctx.transitions += 2
                c = pywt.dwt2(xd, ws[0], mode)
                bb = [bank(ws[0])] * 2
                want = ref.dwtn(xd, bb, [mode] * 2, axes)
                m = mag(shape, bb, [mode] * 2, axes)
                for k, v in (("aa", c[0]), ("da", c[1][0]), ("ad", c[1][1]), ("dd", c[1][2])):
                    ctx.close(v, want[k], tol_for("float64", 4 * m), "dwt2 default axes", key=k, mode=mode)
                ctx.close(pywt.idwt2(c, ws[0], mode), ref.idwtn(want, bb, [mode] * 2, axes),
                          tol_for("float64", 4 * m * rmag(bb)), "idwt2 default axes", mode=mode)


def chk_modes(ctx, shape, i):
    shape = tuple(shape)
    n = int(np.prod(shape))
    X = np.eye(n).reshape(shape + (n,))
    for m1 in MODES:
        for axes in ((0, 1), (1, 0)):
            for ws in (["db2", "haar"], ["bior2.2", "db2"]):
                one(ctx, X, ws, [MODES[i], m1], axes, "float64")


def chk_wav(ctx, ws):
    for w in ws:
        F = wav(w).dec_len
        for shape in [(3, min(F, 24) + 1), (min(F, 24), 4)]:
            x = ref.ndense(shape, ctx.seed)
            for j, mode in enumerate(MODES):
                one(ctx, x, [w, w], [mode, mode], (0, 1), "float64", None, True)
                one(ctx, x, [w, "haar"], [mode, MODES[(j + 1) % 9]], (1, 0), "float64")
                one(ctx, x, ["db2", w], [mode, MODES[(j + 3) % 9]], (0, 1), "float64")


def chk_none(ctx, shape, ws):
    shape = tuple(shape)
    nd = len(shape)
    banks = [bank(w) for w in ws]
    keys = ["".join(k) for k in itertools.product("ad", repeat=nd)]
    for j, mode in enumerate(MODES):
        modes = [MODES[(j + q) % 9] for q in range(nd)]
        if not all(m == "periodization" or 2 * s - b.f + 2 >= 1 for s, b, m in zip(shape, banks, modes)):
            continue
        c = {k: ref.ndense(shape, ctx.seed, False, i) for i, k in enumerate(keys)}
        T = tol_for("float64", 4 * rmag(banks))
        for pat in itertools.product([0, 1], repeat=len(keys)):
            if all(pat):
                continue
            ctx.states += 1
            ctx.transitions += 2
            ctx.step("idwtn", ws, modes, shape, pat)
            none = {k: None if p else c[k] for k, p in zip(keys, pat)}
            missing = {k: c[k] for k, p in zip(keys, pat) if not p}
            want = ref.idwtn({k: 0 * c[k] if p else c[k] for k, p in zip(keys, pat)}, banks, modes, range(nd))
            W = tuple(ws)
            kw = dict(pat=pat, modes=modes)
            ctx.close(pywt.idwtn(none, W, tuple(modes), axes=tuple(range(nd))), want, T, "idwtn with None", **kw)
            ctx.close(pywt.idwtn(missing, W, tuple(modes)), want, T, "idwtn with missing keys", **kw)
            if nd == 2:
                ctx.transitions += 1
                g = pywt.idwt2((none["aa"], (none["da"], none["ad"], none["dd"])), W, tuple(modes))
                ctx.close(g, want, T, "idwt2 with None", **kw)


def chk_mixed(ctx):
    """idwtn with bands of different dtypes."""
    banks = [bank("db2"), bank("haar")]
    shape = (4, 5)
    kinds = ["float64", "float32", "complex128", "complex64", "int32", "float16"]
    for dts in itertools.product(kinds, repeat=4):
        c = {}
        for k, dt in zip(("aa", "ad", "da", "dd"), dts):
            v = ref.ndense(shape, ctx.seed, True, len(c)) * 3
            c[k] = v.astype(dt) if dt[0] == "c" else v.real.astype(dt)
        ctx.states += 1
        ctx.transitions += 1
        ctx.step("idwtn", dts)
        want = ref.idwtn({k: v.astype(complex) for k, v in c.items()}, banks, ["symmetric"] * 2, (0, 1))
        got = pywt.idwtn(c, ("db2", "haar"))
        ctx.close(got, want, tol_for("float32", 60), "idwtn mixed dtypes", dts=dts)
        cplx = any(d[0] == "c" for d in dts)
        ctx.require((got.dtype.kind == "c") == cplx, "idwtn mixed dtypes: kind", got=got.dtype, dts=dts)


def chk_big(ctx, shape):
    x = ref.ndense(tuple(shape), ctx.seed)
    nd = len(shape)
    for axes in itertools.permutations(range(nd), 2):
        for mode in MODES:
            one(ctx, x, ["db2", "bior2.2"], [mode, mode], axes, "float64")
            one(ctx, x + 1j * x[::-1], ["sym4", "haar"], [mode, mode], axes, "complex128")


def check(case, ctx):
    globals()["chk_" + case[0]](ctx, *case[1:])
