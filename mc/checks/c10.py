"""C10: mra/mra2/mran/imra/imra2/imran: every component against the reference projection, and the sum."""
import itertools

import numpy as np

import ref
from common import CUSTOM, DISCRETE, MODES, bank, tol_for, wav, api as pywt, exact, prec
from checks.c03 import levels_ok
from checks.c08 import max_lev
from checks.c09 import rmag

ID = "C10"
BOUNDS = dict(
    quick="1-D: 106 wavelets and 7 custom banks x lengths {2,5,8,11,16,F+1 (<=40)}; 2-D shapes {1,2,3,4,5,6,8}^2 + 4; 5 3-D; 8 large ones; both transform "
          "families, all modes, ordered axis tuples, levels 0..max+1 and default, per-axis wavelets and modes, all unit "
          "vectors in 1-D, 4 dtypes, array_like input",
    thorough="2-D shapes {1..10}^2")
ASSUMPTIONS = ["the filters of each wavelet are read from the Wavelet object (C12 decides those)",
               "components sum to the data to 1e-9 (dmey: 1e-1) of the extended samples' magnitude"]
CHUNK = 2


BIG = [((720, 2), (0,)), ((2, 1026), (1,)), ((4100,), (0,)), ((66, 68), (1, 0)), ((12, 16, 8), (2, 0, 1)), ((32, 3, 20), (0, 2)), ((8, 10, 4, 6), (3, 1, 0, 2)),
       ((2, 3, 2, 2, 3, 2), (5, 0, 3))]


def cases(tier, seed):
    for i in range(len(BIG)):
        for ws in (["haar", "db2"], ["db3", "bior2.4"]):
            yield ["big", i, ws]
    for s in [(4, 8, 2), (5, 4, 8), (2, 3, 6), (8, 4, 4), (3, 5, 7)]:
        for ws in (["haar", "db2", "bior1.3"], ["db2"] * 3):
            yield ["nd", list(s), ws]
    side = [1, 2, 3, 4, 5, 6, 8] if tier == "quick" else list(range(1, 11))
    for s in list(itertools.product(side, repeat=2)) + [(16, 4), (4, 16), (9, 12), (12, 8)]:
        for ws in (["haar", "db2"], ["bior2.2", "haar"]):
            yield ["nd", list(s), ws]
    for w in sorted(DISCRETE + CUSTOM, key=lambda w: -wav(w).dec_len):
        for n in sorted({2, 5, 8, 11, 16, min(40, wav(w).dec_len + 1)}):
            yield ["lin", w, n]


def unit(c, j):
    return [v if i == j else 0 * v for i, v in enumerate(c)]


def cut(v, shape):
    return v[tuple(slice(0, s) for s in shape)]


def ref_mra(x, b, level, axis, transform, mode):
    if transform == "swt":
        bf, bi = b.scaled(1 / np.sqrt(2)), b.scaled(np.sqrt(2))
        p = ref.swt(x, bf, level, 0, axis)
        c = [p[0][0]] + [d for _, d in p]
        return [ref.iswt(u[0], u[1:], bi, axis) for u in (unit(c, j) for j in range(len(c)))]
    c = ref.wavedec(x, b, mode, level, axis)
    return [cut(ref.waverec(unit(c, j), b, mode, axis), x.shape) for j in range(len(c))]


def magn(shape, banks, modes, axes, level):
    m = g = 1.0
    shape = list(shape)
    for _ in range(level):
        for ax, b, mode in zip(axes, banks, modes):
            m *= max(1.0, ref.dwt_mag(shape[ax], b.dec_lo, mode).max(), ref.dwt_mag(shape[ax], b.dec_hi, mode).max())
            g *= np.abs(b.rec_lo).sum() + np.abs(b.rec_hi).sum()
            shape[ax] = ref.coeff_len(shape[ax], b.f, mode)
    return m, g


def todo(tops, swt_tops):
    out = [("swt", "periodization", l) for l in ([None] if swt_tops else []) + list(range(1, swt_tops + 1))]
    for mode in MODES:
        out += [("dwt", mode, l) for l in [None] + list(range(0, tops + 2))]
    return out


def chk_lin(ctx, w, n):
    b, W = bank(w), wav(w)
    eye, x, xc = np.eye(n), ref.dense(n, ctx.seed), ref.dense(n, ctx.seed, True)
    eps = prec(w, 1e-1, 1e-9)
    for tr, mode, level in todo(ref.max_level(n, b.f), max_lev(n)):
        lev = level if level is not None else (max_lev(n) if tr == "swt" else ref.max_level(n, b.f))
        if tr == "dwt" and not levels_ok(n, b.f, mode, lev):
            continue
        ctx.states += 1
        kw = dict(transform=tr, mode=mode, level=level)
        want = ref_mra(eye, b, lev, 0, tr, mode)
        m, g = magn((n,), [b], [mode], [0], lev)
        args = dict(level=level, transform=tr, mode=mode)
        ctx.step("mra", w, n, kw)
        got = pywt.mra(eye, W, axis=0, **args)
        ctx.transitions += 2
        ctx.same(len(got), len(want), "number of components", **kw)
        for j, (a, v) in enumerate(zip(got, want)):
            ctx.close(a, v, tol_for("float64", 2 * m * g), "mra component, unit vectors", j=j, **kw)
        ctx.close(pywt.imra(got), eye, tol_for("float64", 2 * m * g) + eps * m, "imra(mra(x))", **kw)
        for dt in ("float64", "float32", "complex64", "list"):
            d = xc if dt[0] == "c" else x
            got = pywt.mra(d.tolist() if dt == "list" else d.astype(dt), w, **args)
            T = tol_for("float64" if dt == "list" else dt, 4 * m * g)
            ctx.transitions += 2
            for j, (a, v) in enumerate(zip(got, want)):
                ctx.close(a, v @ d, T, "mra component", j=j, dt=dt, **kw)
                if dt != "list" and lev:
                    ctx.require(a.dtype == np.dtype(dt), "mra dtype", got=a.dtype, dt=dt, **kw)
            keep = [np.array(a) for a in got]
            ctx.close(pywt.imra(got), d, T + eps * m, "imra(mra(x))", dt=dt, **kw)
            ctx.require(all(np.array_equal(a, v) for a, v in zip(got, keep)), "imra modified its input", **kw)
    # arbitrary components
    c = [ref.dense(n, ctx.seed, False, i) for i in range(3)]
    keep = [v.copy() for v in c]
    ctx.close(pywt.imra(c), c[0] + c[1] + c[2], 1e-14, "imra of arbitrary components")
    ctx.require(all(np.array_equal(a, v) for a, v in zip(c, keep)), "imra modified its input")


def ref_mran(x, banks, level, axes, tr, modes):
    A = "a" * len(axes)
    out = []
    if tr == "swt":
        bf, bi = [b.scaled(1 / np.sqrt(2)) for b in banks], [b.scaled(np.sqrt(2)) for b in banks]
        c = ref.swtn(x, bf, axes, level)
        a, ds = c[0][A], [{k: v for k, v in d.items() if k != A} for d in c]
        inv = lambda a, ds: ref.iswtn(a, ds, bi, axes)
    else:
        c = ref.wavedecn(x, banks, modes, axes, level)
        a, ds = c[0], c[1:]
        inv = lambda a, ds: cut(ref.waverecn([a] + [dict(d) for d in ds], banks, modes, axes), x.shape)
    z = [{k: 0 * v for k, v in d.items()} for d in ds]
    out.append(inv(a, z))
    for j, d in enumerate(ds):
        e = {}
        for k in d:
            zz = [dict(q) for q in z]
            zz[j][k] = d[k]
            e[k] = inv(0 * a, zz)
        out.append(e)
    return out


def cmp(ctx, got, want, T, kw):
    ctx.same(len(got), len(want), "number of components", **kw)
    ctx.close(got[0], want[0], T, "approximation component", **kw)
    for j, (g, v) in enumerate(zip(got[1:], want[1:])):
        if isinstance(g, tuple):
            ctx.same(len(g), 3, "three details", **kw)
            g = dict(zip(("da", "ad", "dd"), g))
        ctx.same(sorted(g), sorted(v), "component keys", **kw)
        for k in v:
            ctx.close(g[k], v[k], T, "detail component", j=j, key=k, **kw)


def copy(c):
    return [{k: v.copy() for k, v in d.items()} if isinstance(d, dict) else
            tuple(v.copy() for v in d) if isinstance(d, tuple) else d.copy() for d in c]


def eq(a, b):
    f = lambda c: [v for d in c for v in (d.values() if isinstance(d, dict) else d if isinstance(d, tuple) else [d])]
    return all(np.array_equal(x, y) for x, y in zip(f(a), f(b)))


def chk_big(ctx, i, ws):
    chk_nd(ctx, BIG[i][0], [ws[a % 2] for a in range(len(BIG[i][0]))], BIG[i][1])


def chk_nd(ctx, shape, ws, only=None):
    shape = tuple(shape)
    nd = len(shape)
    xd, xc = ref.ndense(shape, ctx.seed), ref.ndense(shape, ctx.seed, True)
    for r in range(1, nd + 1):
        for axes in itertools.permutations(range(nd), r):
            if only and only != axes:
                continue
            w = [ws[a] for a in axes]
            neg = tuple(a - nd if a % 2 else a for a in axes)
            for same in (False, True):
                ww = [w[0]] * r if same else w
                banks = [bank(q) for q in ww]
                W = ww[0] if same else tuple(wav(q) for q in ww)
                top = min(ref.max_level(shape[a], b.f) for a, b in zip(axes, banks))
                stop = min(max_lev(shape[a]) for a in axes)
                for i, (tr, mode, level) in enumerate(todo(top, stop)):
                    if (nd > 2 or only) and mode not in ("periodization", "symmetric", "antireflect"):
                        continue
                    if only and level not in (None, 1, 2):
                        continue
                    lev = level if level is not None else (stop if tr == "swt" else top)
                    modes = [mode] * r if same or tr == "swt" else [MODES[(MODES.index(mode) + 2 * q) % 9] for q in range(r)]
                    if tr == "dwt" and not all(levels_ok(shape[a], b.f, q, lev) for a, b, q in zip(axes, banks, modes)):
                        continue
                    dt, x, ax = ("complex64", xc, neg) if i % 3 == 0 else ("float64", xd, axes if i % 2 else neg)
                    wt = "complex128" if dt[0] == "c" else "float64"
                    ctx.states += 1
                    kw = dict(shape=shape, w=ww, axes=ax, level=level, transform=tr, modes=modes, dt=dt)
                    ctx.step("mran", kw)
                    want = ref_mran(x.astype(dt).astype(wt), banks, lev, axes, tr, modes)
                    m, g = magn(shape, banks, modes, axes, lev)
                    T = tol_for(dt, 4 * m * g)
                    args = dict(level=level, mode=modes[0] if same or tr == "swt" else tuple(modes))
                    calls = [(pywt.mran, pywt.imran, dict(args, axes=ax, transform=tr + "n"))]
                    if r == nd and axes == tuple(range(nd)):
                        calls.append((pywt.mran, pywt.imran, dict(args, transform=tr + "n")))
                    if r == 2:
                        calls.append((pywt.mra2, pywt.imra2, dict(args, axes=ax, transform=tr + "2")))
                        if axes == (nd - 2, nd - 1):
                            calls.append((pywt.mra2, pywt.imra2, dict(args, transform=tr + "2")))
                    if r == 1 and (same or True):
                        calls.append((pywt.mra, pywt.imra, dict(level=level, mode=modes[0], axis=ax[0], transform=tr)))
                    for f, inv, a in calls:
                        ctx.transitions += 2
                        got = f(x.astype(dt), ww[0] if f is pywt.mra else W, **a)
                        if f is pywt.mra:
                            got = [got[0]] + [{"d": v} for v in got[1:]]
                        cmp(ctx, got, want, T, kw)
                        if f is pywt.mra:
                            got = [got[0]] + [v["d"] for v in got[1:]]
                        keep = copy(got)
                        ctx.close(inv(got), x, T + 1e-9 * m, "sum of the components", **kw)
                        ctx.require(eq(got, keep), "inverse modified its input", **kw)


def check(case, ctx):
    globals()["chk_" + case[0]](ctx, *case[1:])
