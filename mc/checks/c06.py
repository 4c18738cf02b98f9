"""C06: fswavedecn/fswaverecn/FswavedecnResult against the tensor-product reference, including every short history of
block reads and assignments."""
import itertools

import numpy as np

import ref
from common import CUSTOM, DISCRETE, MODES, bank, tol_for, wav, api as pywt, exact, prec
from checks.c03 import levels_ok

ID = "C06"
BOUNDS = dict(
    quick="2-D shapes {1..6,8,11}^2, 7 3-D, 2 4-D, 1-D, 10 large shapes up to 80000 samples; ordered axis tuples (positive and negative) and None; all tuples "
          "of per-axis levels 0..max+1 and None; per-axis wavelets and modes; every level key read; every history of 2 "
          "(3 on small results) assignments/replacements/rejected assignments followed by fswaverecn",
    thorough="2-D shapes {1..10,13}^2, histories of 3 everywhere small")
ASSUMPTIONS = ["the filters of each wavelet are read from the Wavelet object (C12 decides those)"]
CHUNK = 2


BIG = [((1025, 3), (0, 1), (3, 1)), ((3, 2049), (1, 0), (5, 0)), ((129, 150), (1, 0), (4, 2)), ((30, 31, 32), (2, 0, 1), (2, 1, 3)), ((65, 4, 70), (0, 2), (1, 4)),
       ((9, 10, 7, 8), (3, 1, 0, 2), (1, 2, 1, 1)), ((4, 3, 2, 3, 4), (4, 0, 1, 3), (1, 2, 1, 1)), ((20000, 2), (0,), (6,)), ((2, 20000), (1,), (9,)), ((20001,), (0,), (None,))]


def cases(tier, seed):
    for i in range(len(BIG)):
        for w in ("haar", "db2"):
            yield ["big", i, w]
    for s in [(5, 2, 7, 4), (4, 4, 3, 6)]:
        yield ["nd", list(s), ["haar", "db2", "haar", "bior1.3"]]
    for s in [(4, 5, 6), (8, 3, 5), (2, 9, 4), (1, 6, 7), (5, 5, 5), (8, 8, 2), (3, 12, 5)]:
        yield ["nd", list(s), ["db2", "haar", "bior2.2"]]
        yield ["nd", list(s), ["haar", "haar", "haar"]]
    side = [1, 2, 3, 4, 5, 6, 8, 11] if tier == "quick" else list(range(1, 11)) + [13]
    for s in itertools.product(side, repeat=2):
        for ws in (["haar", "db2"], ["haar", "haar"], ["bior1.3", "haar"]):
            yield ["nd", list(s), ws]
    for n in side + [32, 37]:
        yield ["nd", [n], ["db2"]]
        yield ["nd", [n], ["haar"]]
    for s in [(64, 37), (100, 9), (17, 64)]:
        yield ["nd", list(s), ["sym4", "bior2.2"]]
    for i in range(0, len(DISCRETE + CUSTOM), 3):
        yield ["wav", (DISCRETE + CUSTOM)[i:i + 3]]
    for s, ax, lv in [((4, 4), (0, 1), (1, 1)), ((5, 4), (1, 0), (1, 2)), ((7, 3), (0,), (2,)), ((3, 7), (-1,), (2,)),
                      ((4, 2, 6), (2, 0), (2, 1)), ((2, 3, 4), (0, 1, 2), (1, 1, 1))]:
        for w in ("haar", "db2"):
            for i in range(3):
                yield ["hist", list(s), list(ax), list(lv), w, i]


def forward(x, banks, modes, axes, levels):
    slices = []
    for ax, b, m, lev in zip(axes, banks, modes, levels):
        c = ref.wavedec(x, b, m, lev, ax)
        off = np.cumsum([0] + [v.shape[ax] for v in c])
        slices.append([(int(off[i]), int(off[i + 1])) for i in range(len(c))])
        x = np.concatenate(c, axis=ax)
    return x, slices


def backward(arr, slices, banks, modes, axes):
    for ax, b, m, sl in zip(axes, banks, modes, slices):
        c = [np.take(arr, range(s, e), axis=ax) for s, e in sl]
        arr = ref.waverec(c, b, m, ax)
    return arr


def mags(shape, banks, modes, axes, levels):
    m = g = 1.0
    for ax, b, mode, lev in zip(axes, banks, modes, levels):
        n = shape[ax]
        for _ in range(lev):
            m *= max(1.0, ref.dwt_mag(n, b.dec_lo, mode).max(), ref.dwt_mag(n, b.dec_hi, mode).max())
            g *= np.abs(b.rec_lo).sum() + np.abs(b.rec_hi).sum()
            n = ref.coeff_len(n, b.f, mode)
    return m, g


def block(slices, axes, nd, key):
    sl = [slice(None)] * nd
    for s, ax, k in zip(slices, axes, key):
        sl[ax] = slice(*s[k])
    return tuple(sl)


def one(ctx, x, ws, modes, axes, levels, dt, call=None):
    """call: (wavelet, mode, levels, axes) arguments as passed"""
    banks = [bank(w) for w in ws]
    x = x.astype(dt)
    nd = x.ndim
    tops = [ref.max_level(x.shape[a], b.f) for a, b in zip(axes, banks)]
    lev = tops if levels is None else [t if l is None else l for l, t in zip(levels, tops)]
    if not all(levels_ok(x.shape[a], b.f, m, l) for a, b, m, l in zip(axes, banks, modes, lev)):
        return
    ctx.states += 1
    ctx.transitions += 2
    pos = [a % nd for a in axes]
    kw = dict(ws=ws, modes=modes, axes=axes, levels=levels, dt=dt, shape=x.shape)
    ctx.step("fswavedecn", kw)
    wt = "complex128" if dt[0] == "c" else "float64"
    want, slices = forward(x.astype(wt), banks, modes, pos, lev)
    if call is None:
        call = dict(wavelet=tuple(wav(w) for w in ws), mode=tuple(modes), levels=levels, axes=axes)
    r = pywt.fswavedecn(x, **call)
    m, g = mags(x.shape, banks, modes, pos, lev)
    T = tol_for(dt, 4 * m)
    ctx.close(r.coeffs, want, T, "coeffs", **kw)
    ctx.require(r.coeffs.dtype == np.dtype(dt), "dtype", got=r.coeffs.dtype, **kw)
    ctx.same([[(int(s.start), int(s.stop)) for s in q] for q in r.coeff_slices], slices, "coeff_slices", **kw)
    ctx.same([int(v) for v in r.levels], list(lev), "levels", **kw)
    ctx.same(list(r.modes), list(modes), "modes", **kw)
    ctx.same(list(r.wavelet_names), list(ws), "wavelet_names", **kw)
    ctx.same([int(a) for a in r.axes], list(axes), "axes", **kw)
    ctx.same((r.ndim, r.ndim_transform), (nd, len(axes)), "ndim", **kw)
    keys = list(itertools.product(*[range(l + 1) for l in lev]))
    ctx.same([tuple(int(i) for i in k) for k in r.detail_keys()], sorted(keys)[1:], "detail_keys", **kw)
    for k in keys:
        b = want[block(slices, pos, nd, k)]
        ctx.close(r[k], b, T, "block", key=k, **kw)
        if not any(k):
            ctx.close(r.approx, b, T, "approx", **kw)
    ctx.close(pywt.fswaverecn(r), backward(want, slices, banks, modes, pos), tol_for(dt, 4 * m * g), "fswaverecn", **kw)
    if all(map(exact, ws)):
        ctx.close(pywt.fswaverecn(r)[tuple(slice(n) for n in x.shape)], x, tol_for(dt, 4 * m * g) + 1e-9 * m,
                  "round trip", **kw)
    return r


def chk_nd(ctx, shape, ws):
    shape = tuple(shape)
    nd = len(shape)
    x, xc = ref.ndense(shape, ctx.seed), ref.ndense(shape, ctx.seed, True)
    for r in range(1, nd + 1):
        for axes in itertools.permutations(range(nd), r):
            w = [ws[a] for a in axes]
            tops = [ref.max_level(shape[a], bank(q).f) for a, q in zip(axes, w)]
            neg = tuple(a - nd if a % 2 == 0 else a for a in axes)
            lv = list(itertools.product(*[[None] + list(range(min(t, 3) + 2)) for t in tops]))
            if len(lv) > 30:
                lv = [v for i, v in enumerate(lv) if i % (len(lv) // 30 + 1) == 0 or len(set(v)) == 1]
            for i, levels in enumerate(lv):
                for j in range(0, 9, 1 if nd < 3 else 3):
                    modes = [MODES[(j + 2 * q + i) % 9] for q in range(r)]
                    one(ctx, x, w, modes, neg if j % 2 else axes, levels, "float64")
                    if j % 4 == 0:
                        one(ctx, xc, w, modes, axes, levels, "complex64")
            for j, mode in enumerate(MODES):
                one(ctx, x, [w[0]] * r, [mode] * r, axes, None, "float32",
                    dict(wavelet=w[0], mode=mode, axes=axes))
                one(ctx, x, [w[0]] * r, [mode] * r, axes, [1] * r, "float64",
                    dict(wavelet=wav(w[0]), mode=mode, levels=1, axes=axes))
                if axes == tuple(range(nd)):
                    one(ctx, x, [w[0]] * r, [mode] * r, axes, None, "float64", dict(wavelet=w[0], mode=mode))


def chk_big(ctx, i, w):
    shape, axes, levels = BIG[i]
    x, xc = ref.ndense(shape, ctx.seed), ref.ndense(shape, ctx.seed, True)
    w = [(w, "bior2.2")[q % 2] for q in range(len(axes))]
    for j in (0, 2, 5, 8):
        modes = [MODES[(j + 2 * q) % 9] for q in range(len(axes))]
        one(ctx, x, w, modes, axes, levels, "float64")
        one(ctx, x, w, modes, axes, None, "float64")
        one(ctx, xc, w, modes, tuple(a - len(shape) for a in axes), [1] * len(axes), "complex64")


def chk_wav(ctx, ws):
    for w in ws:
        F = min(wav(w).dec_len, 30)
        for shape in [(2 * F - 1, F + 3), (5, 2 * F)]:
            x = ref.ndense(shape, ctx.seed)
            for j, mode in enumerate(MODES):
                one(ctx, x, [w, w], [mode, mode], (0, 1), None, "float64")
                one(ctx, x, [w, "haar"], [mode, MODES[(j + 1) % 9]], (1, 0), (2, 1), "float64")


def chk_hist(ctx, shape, axes, levels, w, rot):
    """Every history of k operations; the model is a plain array with the reference block positions."""
    shape, axes, levels = tuple(shape), tuple(axes), tuple(levels)
    nd = len(shape)
    x = ref.ndense(shape, ctx.seed)
    banks, pos = [bank(w)] * len(axes), [a % nd for a in axes]
    mode = ("symmetric", "periodization", "smooth")[rot]
    modes = [mode] * len(axes)
    if not all(levels_ok(x.shape[a], b.f, m, l) for a, b, m, l in zip(pos, banks, modes, levels)):
        return
    want0, slices = forward(x, banks, modes, pos, levels)
    m, g = mags(shape, banks, modes, pos, levels)
    keys = list(itertools.product(*[range(l + 1) for l in levels]))
    ops = [("set", k) for k in keys] + [("approx",), ("coeffs",), ("badset", keys[-1]), ("badapprox",), ("badcoeffs",),
                                        ("badkey",), ("view", keys[-1]), ("set32", keys[0])]
    depth = 3 if (len(ops) <= 13 or ctx.tier == "thorough") and len(ops) <= 20 else 2
    for hist in itertools.product(ops, repeat=depth):
        ctx.states += 1
        ctx.step("fswavedecn history", shape, axes, levels, w, hist)
        r = pywt.fswavedecn(x, w, mode, levels, axes)
        model = want0.copy()
        for i, op in enumerate(hist):
            ctx.transitions += 1
            raised = False
            val = lambda s: ref.ndense(s, ctx.seed, False, 7 + i)
            try:
                if op[0] in ("set", "set32"):
                    sl = block(slices, pos, nd, op[1])
                    v = val(model[sl].shape)
                    if op[0] == "set32":
                        v = v.astype(np.float32)
                    r[op[1]] = v
                    model[sl] = v
                elif op[0] == "approx":
                    sl = block(slices, pos, nd, keys[0])
                    v = val(model[sl].shape)
                    r.approx = v
                    model[sl] = v
                elif op[0] == "coeffs":
                    model = val(model.shape)
                    r.coeffs = model.copy()
                elif op[0] == "view":
                    v = r[op[1]]
                    v *= 2
                    model[block(slices, pos, nd, op[1])] *= 2
                elif op[0] == "badset":
                    r[op[1]] = np.zeros([s + 1 for s in model[block(slices, pos, nd, op[1])].shape])
                elif op[0] == "badapprox":
                    r.approx = np.zeros([s + 1 for s in model[block(slices, pos, nd, keys[0])].shape])
                elif op[0] == "badcoeffs":
                    r.coeffs = np.zeros([s + 1 for s in model.shape])
                elif op[0] == "badkey":
                    r[tuple(l + 1 for l in levels)]
            except ValueError:
                raised = True
            ctx.same(raised, op[0].startswith("bad"), "raises", hist=hist, op=i)
        T = tol_for("float64", 16 * m)
        for k in keys:
            ctx.close(r[k], model[block(slices, pos, nd, k)], T, "block after history", hist=hist, key=k)
        ctx.close(r.approx, model[block(slices, pos, nd, keys[0])], T, "approx after history", hist=hist)
        ctx.close(r.coeffs, model, T, "coeffs after history", hist=hist)
        ctx.close(pywt.fswaverecn(r), backward(model, slices, banks, modes, pos), tol_for("float64", 16 * m * g),
                  "fswaverecn after history", hist=hist)


def check(case, ctx):
    globals()["chk_" + case[0]](ctx, *case[1:])
