"""C05: wavedec2/wavedecn/waverec2/waverecn against the iterated separable reference over shapes x axes x levels x
per-axis wavelets and modes."""
import itertools

import numpy as np

import ref
from common import CUSTOM, DISCRETE, MODES, bank, tol_for, wav, api as pywt, exact, prec
from checks.c03 import levels_ok
from checks.c04 import rmag

ID = "C05"
BOUNDS = dict(
    quick="2-D shapes {1..9}^2 and 8 larger, 9 3-D and 3 4-D shapes, 12 large shapes up to 420000 samples and 7 axes; every ordered tuple of distinct axes (positive and "
          "negative), axes=None; levels 0..max+1 and default; per-axis wavelets and modes; 106 wavelets and 7 custom banks; unit tensors "
          "for small shapes; arbitrary coefficients into the inverses; 4 dtypes",
    thorough="2-D shapes {1..13}^2, more wavelet pairs")
ASSUMPTIONS = ["the filters of each wavelet are read from the Wavelet object (C12 decides those)"]
CHUNK = 2
SH3 = [(4, 5, 6), (8, 3, 5), (2, 9, 4), (1, 6, 7), (7, 1, 8), (5, 5, 5), (8, 8, 2), (3, 12, 5), (11, 4, 6)]
SH4 = [(4, 3, 5, 2), (2, 6, 1, 7), (5, 4, 4, 3)]


BIG = [((1025, 3), (0, 1)), ((3, 2049), (1, 0)), ((513, 260), (1, 0)), ((300, 301), (0, 1)), ((600, 700), (0, 1)), ((40, 41, 42), (2, 0, 1)),
       ((70, 6, 65), (0, 2)), ((12, 11, 10, 9), (3, 1, 0, 2)), ((3, 3, 3, 3, 3, 3), (5, 0, 3, 1, 4, 2)), ((2, 3, 1, 2, 3, 1, 2), (6, 1, 4)), ((1 << 15, 2), (0,)),
       ((2, 1 << 15), (1, 0))]


def cases(tier, seed):
    for i in range(len(BIG)):
        for w in ("haar", "db2", "bior3.5")[:2 if i == 8 else 3]:
            yield ["big", i, w]
    for s in [(64, 37), (33, 64), (100, 9), (17, 19), (40, 41), (16, 128), (128, 16), (257, 130)]:
        for ws in (["haar", "db2"], ["db3", "bior2.2"], ["sym4", "sym4"], ["@p10", "@c6"]):
            yield ["nd", list(s), ws]
    for s in SH4:
        yield ["nd", list(s), ["haar", "db2", "bior1.3", "rbio2.2"]]
        yield ["nd", list(s), ["haar"] * 4]
    for s in SH3:
        for ws in (["db2", "haar", "bior2.2"], ["haar"] * 3, ["rbio1.3", "db3", "haar"]):
            yield ["nd", list(s), ws]
    for i in range(0, len(DISCRETE + CUSTOM), 2):
        yield ["wav", (DISCRETE + CUSTOM)[i:i + 2]]
    hi = 10 if tier == "quick" else 14
    for s in itertools.product(range(1, hi), repeat=2):
        for ws in (["haar", "db2"], ["haar", "haar"], ["bior1.3", "haar"]) + (
                (["bior2.2", "db2"], ["rbio2.2", "bior3.1"]) if tier == "thorough" else ()):
            yield ["nd", list(s), ws]
    for n in (1, 2, 5, 8, 13, 32):
        yield ["nd", [n], ["db2"]]
        yield ["nd", [n], ["haar"]]


def maglev(shape, banks, modes, axes, level):
    m = 1.0
    shape = list(shape)
    for _ in range(level):
        for ax, b, mode in zip(axes, banks, modes):
            m *= max(ref.dwt_mag(shape[ax], b.dec_lo, mode).max(), ref.dwt_mag(shape[ax], b.dec_hi, mode).max())
            shape[ax] = ref.coeff_len(shape[ax], b.f, mode)
    return m


def compare(ctx, got, want, tol, **kw):
    ctx.require(isinstance(got, list) and len(got) == len(want), "number of levels", got=len(got), want=len(want), **kw)
    ctx.close(got[0], want[0], tol, "approximation", **kw)
    for i, (g, v) in enumerate(zip(got[1:], want[1:])):
        if isinstance(g, tuple):
            ctx.same(len(g), 3, "three details", **kw)
            g = dict(zip(("da", "ad", "dd"), g))
        ctx.same(sorted(g), sorted(v), "detail keys", pos=i, **kw)
        for k in v:
            ctx.close(g[k], v[k], tol, "detail", pos=i, key=k, **kw)


def one(ctx, x, ws, modes, axes, level, dt, call_axes="same", scalars=False, two=False):
    banks = [bank(w) for w in ws]
    x = x.astype(dt)
    top = min([ref.max_level(x.shape[a], b.f) for a, b in zip(axes, banks)])
    lev = top if level is None else level
    if not all(levels_ok(x.shape[a], b.f, m, lev) for a, b, m in zip(axes, banks, modes)):
        return
    call_axes = axes if call_axes == "same" else call_axes
    W, M = (ws[0], modes[0]) if scalars else (tuple(wav(w) for w in ws), tuple(modes))
    wt = "complex128" if dt[0] == "c" else "float64"
    ctx.states += 1
    ctx.transitions += 2
    kw = dict(ws=ws, modes=modes, axes=call_axes, level=level, dt=dt, shape=x.shape)
    ctx.step("wavedec2" if two else "wavedecn", kw)
    want = ref.wavedecn(x.astype(wt), banks, modes, axes, lev)
    m = 2 * maglev(x.shape, banks, modes, axes, lev)
    T = tol_for(dt, m)
    args = dict(mode=M, level=level)
    if call_axes is not None:
        args["axes"] = call_axes
    got = (pywt.wavedec2 if two else pywt.wavedecn)(x, W, **args)
    compare(ctx, got, want, T, **kw)
    rargs = {k: v for k, v in args.items() if k != "level"}
    g = rmag(banks) ** lev
    r = (pywt.waverec2 if two else pywt.waverecn)(got, W, **rargs)
    back = ref.waverecn([want[0]] + [dict(d) for d in want[1:]], banks, modes, axes)
    ctx.close(r, back, tol_for(dt, m * g), "reconstruction", **kw)
    if all(map(exact, ws)):
        ctx.close(r[tuple(slice(0, n) for n in x.shape)], x, tol_for(dt, m * g) + 1e-9 * m, "round trip", **kw)
    for i, (a, b) in enumerate(zip(r.shape, x.shape)):
        ctx.require(a == b + (b % 2 if i in axes and lev else 0), "round trip shape", got=r.shape, **kw)
    if lev and dt == "float64":
        # arbitrary coefficients: the inverse is the iterated synthesis
        ctx.transitions += 1
        c = [ref.ndense(want[0].shape, ctx.seed)]
        for i, d in enumerate(want[1:]):
            c.append({k: ref.ndense(v.shape, ctx.seed, False, 3 * i + ord(k[0]) + len(k)) for k, v in d.items()})
        arg = [c[0]] + [tuple(d[k] for k in ("da", "ad", "dd")) if two else dict(d) for d in c[1:]]
        r = (pywt.waverec2 if two else pywt.waverecn)(arg, W, **rargs)
        ctx.close(r, ref.waverecn([c[0]] + [dict(d) for d in c[1:]], banks, modes, axes), tol_for(dt, 4 * g * 2 ** lev),
                  "inverse of arbitrary coefficients", **kw)


def chk_nd(ctx, shape, ws):
    shape = tuple(shape)
    nd = len(shape)
    n = int(np.prod(shape))
    xd, xc = ref.ndense(shape, ctx.seed), ref.ndense(shape, ctx.seed, True)
    X = np.eye(n).reshape(shape + (n,)) if n <= 30 else None
    small = n <= 400
    for r in range(1, nd + 1):
        for axes in itertools.permutations(range(nd), r):
            w = [ws[a] for a in axes]
            top = min(ref.max_level(shape[a], bank(q).f) for a, q in zip(axes, w))
            ctx.same(int(pywt.dwtn_max_level(shape, tuple(w), axes)), top, "dwtn_max_level")
            neg = tuple(a - nd if a % 2 == 0 else a for a in axes)
            for level in [None] + list(range(top + 2)):
                for j in range(9) if small else (0, 2, 5, 8):
                    modes = [MODES[(j + 2 * q) % 9] for q in range(r)]
                    same = [MODES[j]] * r
                    one(ctx, xd, w, modes, axes, level, "float64", neg)
                    if X is not None:
                        one(ctx, X, w, modes, axes, level, "float64")
                    if j % 3 == 0:
                        one(ctx, xc, w, same, axes, level, "complex64", neg)
                        one(ctx, xd, [w[0]] * r, same, axes, level, "float32", axes, True)
                    if r == 2:
                        one(ctx, xd, w, modes, axes, level, "float64", neg, False, True)
                        one(ctx, xc, [w[0]] * r, same, axes, level, "complex128", axes, True, True)
                        if axes == (nd - 2, nd - 1):
                            one(ctx, xd, [w[0]] * r, same, axes, level, "float64", None, True, True)
                    if r == nd and axes == tuple(range(nd)):
                        one(ctx, xd, [w[0]] * r, same, axes, level, "float64", None, True)
                        one(ctx, xd, w, modes, axes, level, "float64", None)


def chk_big(ctx, i, w):
    shape, axes = BIG[i]
    x, xc = ref.ndense(shape, ctx.seed), ref.ndense(shape, ctx.seed, True)
    other = {"haar": "db2", "db2": "rbio2.2", "bior3.5": "sym5"}[w]
    mixed = [(w, other)[q % 2] for q in range(len(axes))]
    for j in (0, 2, 5, 6, 8):
        modes = [MODES[(j + 2 * q) % 9] for q in range(len(axes))]
        for level in (None, 1, 2):
            one(ctx, x, mixed, modes, axes, level, "float64")
            if j % 2 == 0:
                one(ctx, xc, [w] * len(axes), [MODES[j]] * len(axes), axes, level, "complex64", "same", True, len(axes) == 2)


def chk_wav(ctx, ws):
    for w in ws:
        F = min(wav(w).dec_len, 30)
        for shape in [(2 * F - 1, F + 3), (5, 2 * F)]:
            x = ref.ndense(shape, ctx.seed)
            for j, mode in enumerate(MODES):
                for level in (None, 1, 2):
                    one(ctx, x, [w, w], [mode, mode], (0, 1), level, "float64", None, True, True)
                    one(ctx, x, [w, "haar"], [mode, MODES[(j + 1) % 9]], (1, 0), level, "float64")


def check(case, ctx):
    globals()["chk_" + case[0]](ctx, *case[1:])
