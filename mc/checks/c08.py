"""C08: swt/swt2/swtn against the a trous definition (circulant matrices), so shift invariance is decided with it."""
import itertools

import numpy as np

import ref
from common import CUSTOM, DISCRETE, bank, tol_for, wav, api as pywt, exact, prec

ID = "C08"
BOUNDS = dict(
    quick="1-D: 106 wavelets and 7 custom banks x lengths {2,4,6,8,12,16,24,32} (all unit vectors, all level/start_level pairs), lengths up to "
          "4096 for 8 wavelets; N-D: 10 2-D, 6 3-D, 1 4-D and 9 large shapes x every ordered axis tuple x levels x start levels x "
          "trim_approx x norm, per-axis wavelets; 4 dtypes; every circular shift of dense data for small sizes",
    thorough="1-D lengths to 64 (every even), levels to 6")
ASSUMPTIONS = ["the filters of each wavelet are read from the Wavelet object (C12 decides those)"]
CHUNK = 2
R2 = 1 / np.sqrt(2)


BIG = [((1024, 3), (0,)), ((3, 2048), (1,)), ((136, 72), (1, 0)), ((1000, 20), (0, 1)), ((32, 24, 16), (2, 0, 1)), ((40, 3, 72), (0, 2)), ((8, 10, 4, 6), (3, 1, 0, 2)),
       ((2, 2, 2, 2, 2, 2), (5, 0, 3, 1)), ((2, 3, 1, 2, 3, 1, 4), (6, 3))]


def cases(tier, seed):
    for w in ["haar", "db2", "bior2.2", "sym5", "db20", "rbio3.5", "dmey", "coif2"]:
        for n in (64, 96, 256, 1024, 4096):
            yield ["large", w, n]
    for i in range(len(BIG)):
        for ws in (["haar", "db2"], ["db3", "bior2.4"]):
            yield ["big", i, ws]
    for s in [(8, 4), (4, 8), (16, 6), (2, 12), (8, 8), (3, 8), (8, 5), (1, 4), (4, 1), (32, 16)]:
        for ws in (["haar", "db2"], ["bior2.2", "db3"], ["sym4", "sym4"], ["@c3", "@p10"]):
            yield ["nd", list(s), ws]
    for s in [(4, 8, 2), (8, 3, 4), (5, 4, 8), (2, 2, 16), (8, 8, 8), (1, 8, 4)]:
        for ws in (["haar", "db2", "bior1.3"], ["db2"] * 3):
            yield ["nd", list(s), ws]
    yield ["nd", [4, 2, 8, 4], ["haar", "db2", "bior2.2", "db3"]]
    ns = [2, 4, 6, 8, 12, 16, 24, 32] if tier == "quick" else list(range(2, 65, 2))
    for w in sorted(DISCRETE + CUSTOM, key=lambda w: -wav(w).dec_len):
        for n in ns:
            yield ["lin", w, n]


def max_lev(n):
    k = 0
    while n and n % 2 == 0:
        n //= 2
        k += 1
    return k


def levs(n):
    top = max_lev(n)
    return [(lev, s) for s in range(top) for lev in range(1, top - s + 1)]


def mag(banks, level):
    m = 1.0
    for b in banks:
        m *= max(np.abs(b.dec_lo).sum(), np.abs(b.dec_hi).sum())
    return m ** level


def flat(c, trim):
    if trim:
        return list(c)
    return [v for pair in c for v in pair]


def chk_lin(ctx, w, n):
    W = wav(w)
    eye = np.eye(n)
    x, xc = ref.dense(n, ctx.seed), ref.dense(n, ctx.seed, True)
    ctx.same(int(pywt.swt_max_level(n)), max_lev(n), "swt_max_level")
    for lev, start in levs(n):
        for norm in (False, True):
            b = bank(w).scaled(R2) if norm else bank(w)
            want = ref.swt(eye, b, lev, start, 0)
            T = tol_for("float64", 4 * mag([b], lev))
            for trim in (False, True):
                ctx.states += 1
                ctx.transitions += 5
                kw = dict(level=lev, start=start, norm=norm, trim=trim)
                ctx.step("swt", w, n, kw)
                fw = [want[0][0]] + [d for _, d in want] if trim else [v for p in want for v in p]
                args = dict(level=lev, start_level=start, trim_approx=trim, norm=norm)
                got = pywt.swt(eye, W, axis=0, **args)
                ctx.same(len(got), lev + 1 if trim else lev, "swt length", **kw)
                for g, v in zip(flat(got, trim), fw):
                    ctx.close(g, v, T, "swt axis 0, unit vectors", **kw)
                for g, v in zip(flat(pywt.swt(eye, W, axis=-1, **args), trim), fw):
                    ctx.close(g, v.T, T, "swt axis -1, unit vectors", **kw)
                for dt, data in (("float64", x), ("float32", x), ("complex64", xc), ("complex128", xc)):
                    got = flat(pywt.swt(data.astype(dt), w, **args), trim)
                    for g, v in zip(got, fw):
                        ctx.close(g, v @ data, tol_for(dt, 4 * mag([b], lev)), "swt 1-D", dt=dt, **kw)
                        ctx.require(g.dtype == np.dtype(dt), "swt dtype", got=g.dtype, dt=dt, **kw)
                if n <= 16 and not start:
                    base = flat(pywt.swt(x, w, **args), trim)
                    for s in range(1, n):
                        ctx.transitions += 1
                        got = flat(pywt.swt(np.roll(x, s), w, **args), trim)
                        for g, v in zip(got, base):
                            ctx.close(g, np.roll(v, s), T, "shift invariance", shift=s, **kw)
                if norm and W.orthogonal and start == 0:
                    got = pywt.swt(x, w, level=lev, trim_approx=True, norm=True)
                    e = sum(float(np.sum(v * v)) for v in got)
                    ctx.close(e, float(x @ x), prec(w, 5e-2, 1e-9) * float(x @ x), "energy", **kw)
    got = pywt.swt(x, w)
    want = ref.swt(x, bank(w), max_lev(n))
    ctx.same(len(got), len(want), "default level")
    for g, v in zip(got, want):
        ctx.close(g[0], v[0], tol_for("float64", 4 * mag([bank(w)], max_lev(n))), "swt default level")
        ctx.close(g[1], v[1], tol_for("float64", 4 * mag([bank(w)], max_lev(n))), "swt default level")
    got = pywt.swt(eye[:, :3], w, axis=0)
    ctx.same(len(got), len(want), "default level along an axis")


def chk_large(ctx, w, n):
    b = bank(w)
    x = ref.dense(n, ctx.seed)
    a = x
    out = []
    for j in range(1, max_lev(n) + 1):
        s = 1 << (j - 1)
        res = []
        for f in (b.dec_lo, b.dec_hi):
            v = np.zeros(n)
            for k in range(b.f):
                v += f[k] * np.roll(a, -(b.f * s // 2 - s * k))
            res.append(v)
        out.append(tuple(res))
        a = res[0]
    for lev in range(1, len(out) + 1):
        ctx.states += 1
        ctx.transitions += 2
        ctx.step("swt", w, n, lev)
        T = tol_for("float64", 4 * mag([b], lev))
        got = pywt.swt(x, w, lev)
        for g, v in zip(got, out[:lev][::-1]):
            ctx.close(g[0], v[0], T, "swt long", level=lev)
            ctx.close(g[1], v[1], T, "swt long", level=lev)
        got = pywt.swt(np.stack([x, -x], 1), w, lev, axis=0)
        for g, v in zip(got, out[:lev][::-1]):
            ctx.close(g[0][:, 1], -v[0], T, "swt long axis 0", level=lev)
            ctx.close(g[1][:, 0], v[1], T, "swt long axis 0", level=lev)


def chk_big(ctx, i, ws):
    chk_nd(ctx, BIG[i][0], [ws[a % 2] for a in range(len(BIG[i][0]))], BIG[i][1])


def chk_nd(ctx, shape, ws, only=None):
    shape = tuple(shape)
    nd = len(shape)
    n = int(np.prod(shape))
    xd, xc = ref.ndense(shape, ctx.seed), ref.ndense(shape, ctx.seed, True)
    X = np.eye(n).reshape(shape + (n,)) if n <= 32 else xd[..., None]
    for r in range(1, nd + 1):
        for axes in itertools.permutations(range(nd), r):
            if any(shape[a] % 2 for a in axes):
                continue
            w = [ws[a] for a in axes]
            neg = tuple(a - nd if a % 2 else a for a in axes)
            if only and only != axes:
                continue
            for lev, start in levs(min((shape[a] & -shape[a]) for a in axes)):
                if only and (lev, start) not in ((1, 0), (2, 0), (1, 1), (2, 2), (4, 0)):
                    continue
                for norm in (False, True):
                    banks = [bank(q).scaled(R2) if norm else bank(q) for q in w]
                    for dt, data, ax in (("float64", X, axes), ("float64", xd, neg), ("complex64", xc, neg),
                                         ("float32", xd, axes)):
                        same = dt == "float32"
                        W = w[0] if same else tuple(wav(q) for q in w)
                        bb = [banks[0]] * r if same else banks
                        wt = data.astype(dt).astype("complex128" if dt[0] == "c" else "float64")
                        want = ref.swtn(wt, bb, axes, lev, start)
                        T = tol_for(dt, 4 * mag(bb, lev))
                        for trim in (False, True):
                            ctx.states += 1
                            ctx.transitions += 1
                            kw = dict(w=w, axes=ax, level=lev, start=start, norm=norm, trim=trim, dt=dt, shape=shape)
                            ctx.step("swtn", kw)
                            args = dict(level=lev, start_level=start, trim_approx=trim, norm=norm)
                            got = pywt.swtn(data.astype(dt), W, axes=ax, **args)
                            cmp_n(ctx, got, want, r, trim, T, kw)
                            if r == 2:
                                ctx.transitions += 1
                                got = pywt.swt2(data.astype(dt), W, axes=ax, **args)
                                cmp_n(ctx, from2(got, trim), want, r, trim, T, kw)
                            if r == nd and axes == tuple(range(nd)) and data.ndim == nd:
                                ctx.transitions += 1
                                cmp_n(ctx, pywt.swtn(data.astype(dt), W, **args), want, r, trim, T, kw)
                            if r == 2 and axes == (nd - 2, nd - 1) and data.ndim == nd:
                                got = pywt.swt2(data.astype(dt), W, **args)
                                cmp_n(ctx, from2(got, trim), want, r, trim, T, kw)
                            if r == 1:
                                ctx.transitions += 1
                                got = pywt.swt(data.astype(dt), w[0], axis=ax[0] if data.ndim == nd else axes[0], **args)
                                d = [got[0]] + [{"d": v} for v in got[1:]] if trim else [{"a": p, "d": q} for p, q in got]
                                cmp_n(ctx, d, want, r, trim, T, kw)


def from2(c, trim):
    out = []
    for i, v in enumerate(c):
        if trim:
            out.append(v if i == 0 else dict(zip(("da", "ad", "dd"), v)))
        else:
            out.append(dict(zip(("aa", "da", "ad", "dd"), (v[0],) + tuple(v[1]))))
    return out


def cmp_n(ctx, got, want, r, trim, T, kw):
    A = "a" * r
    ctx.same(len(got), len(want) + trim, "number of levels", **kw)
    if trim:
        ctx.close(got[0], want[0][A], T, "approximation", **kw)
        got = got[1:]
    for g, v in zip(got, want):
        ctx.same(sorted(g), sorted(k for k in v if not (trim and k == A)), "keys", **kw)
        for k in g:
            ctx.close(g[k], v[k], T, "band", key=k, **kw)


def check(case, ctx):
    globals()["chk_" + case[0]](ctx, *case[1:])
