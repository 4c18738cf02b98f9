"""C09: iswt/iswt2/iswtn against the shift-averaged reference on unit and arbitrary coefficients, and the round trip."""
import itertools

import numpy as np

import ref
from common import CUSTOM, DISCRETE, bank, tol_for, wav, api as pywt, exact, prec
from checks.c08 import flat, from2, max_lev

ID = "C09"
BOUNDS = dict(
    quick="1-D: 106 wavelets and 7 custom banks x lengths {2,4,6,8,12,16,24,32} x every level: unit coefficients of every band, arbitrary "
          "coefficients, round trip; N-D: 9 2-D, 6 3-D, 1 4-D and 9 large shapes x ordered axis tuples x levels; trim/norm; 4 dtypes and "
          "mixed dtypes of approximation and details; lengths up to 1024",
    thorough="1-D every even length to 64")
ASSUMPTIONS = ["the filters of each wavelet are read from the Wavelet object (C12 decides those)",
               "the round trip is asserted to 1e-9 (dmey: 5e-2, its filters are approximate)"]
CHUNK = 2
R2 = np.sqrt(2)


BIG = [((1024, 3), (0,)), ((3, 2048), (1,)), ((136, 72), (1, 0)), ((1000, 20), (0, 1)), ((32, 24, 16), (2, 0, 1)), ((40, 3, 72), (0, 2)), ((8, 10, 4, 6), (3, 1, 0, 2)),
       ((2, 2, 2, 2, 2, 2), (5, 0, 3, 1)), ((2, 3, 1, 2, 3, 1, 4), (6, 3))]


def cases(tier, seed):
    for w in ["haar", "db2", "bior2.2", "db20"]:
        for n in (64, 96, 256, 1024):
            yield ["large", w, n]
    for i in range(len(BIG)):
        for ws in (["haar", "db2"], ["db3", "bior2.4"]):
            yield ["big", i, ws]
    for s in [(8, 4), (4, 8), (16, 6), (2, 12), (8, 8), (3, 8), (8, 5), (1, 4), (4, 1)]:
        for ws in (["haar", "db2"], ["bior2.2", "db3"], ["sym4", "sym4"], ["@p10", "@p10"], ["@c3", "@c6"]):
            yield ["nd", list(s), ws]
    for s in [(4, 8, 2), (8, 3, 4), (5, 4, 8), (2, 2, 16), (4, 4, 4), (1, 8, 4)]:
        for ws in (["haar", "db2", "bior1.3"], ["db2"] * 3):
            yield ["nd", list(s), ws]
    yield ["nd", [4, 2, 4, 4], ["haar", "db2", "bior2.2", "db3"]]
    yield ["mixed"]
    ns = [2, 4, 6, 8, 12, 16, 24, 32] if tier == "quick" else list(range(2, 65, 2))
    for w in sorted(DISCRETE + CUSTOM, key=lambda w: -wav(w).dec_len):
        for n in ns:
            yield ["lin", w, n]


def rmag(banks, lev):
    return float(np.prod([np.abs(b.rec_lo).sum() + np.abs(b.rec_hi).sum() for b in banks])) ** lev


def chk_lin(ctx, w, n):
    W, b0 = wav(w), bank(w)
    x, xc = ref.dense(n, ctx.seed), ref.dense(n, ctx.seed, True)
    eps = prec(w, 5e-2, 1e-9)
    for lev in range(1, max_lev(n) + 1):
        for norm in (False, True):
            b = b0.scaled(R2) if norm else b0
            g = rmag([b], lev)
            kw = dict(level=lev, norm=norm)
            # unit coefficients: the map of each band
            for band in range(lev + 1):
                ctx.states += 1
                z, e = np.zeros((n, n)), np.eye(n)
                c = [z] * (lev + 1)
                c[band] = e
                want = ref.iswt(c[0], c[1:], b, 0)
                T = tol_for("float64", 2 * g)
                ctx.step("iswt", w, n, kw, band)
                ctx.transitions += 2
                ctx.close(pywt.iswt([v.copy() for v in c], W, norm=norm, axis=0), want, T, "iswt, unit coefficients, axis 0",
                          band=band, **kw)
                j = (band * 5 + n) % n
                ctx.close(pywt.iswt([v[:, j].copy() for v in c], w, norm=norm), want[:, j], T, "iswt 1-D, unit coefficient",
                          band=band, **kw)
            for dt in ("float64", "float32", "complex128", "complex64"):
                cp = dt[0] == "c"
                c = [ref.dense(n, ctx.seed, cp, i).astype(dt) for i in range(lev + 1)]
                other = [ref.dense(n, ctx.seed, cp, 20 + i).astype(dt) for i in range(lev)]
                wt = "complex128" if cp else "float64"
                want = ref.iswt(c[0].astype(wt), [v.astype(wt) for v in c[1:]], b)
                T = tol_for(dt, 4 * g)
                ctx.transitions += 2
                r = pywt.iswt(list(c), W, norm=norm)
                ctx.close(r, want, T, "iswt, trimmed format", dt=dt, **kw)
                ctx.require(r.dtype == np.dtype(dt), "iswt dtype", got=r.dtype, dt=dt)
                # finer approximations are not used
                pairs = [(c[0] if i == 0 else other[i], c[1 + i]) for i in range(lev)]
                ctx.close(pywt.iswt(pairs, w, norm=norm), want, T, "iswt, untrimmed format", dt=dt, **kw)
                data = (xc if cp else x).astype(dt)
                for trim in (False, True):
                    ctx.transitions += 1
                    r = pywt.iswt(pywt.swt(data, W, lev, trim_approx=trim, norm=norm), W, norm=norm)
                    m = max(np.abs(b.dec_lo).sum(), np.abs(b.dec_hi).sum()) ** lev
                    ctx.close(r, data, tol_for(dt, 4 * g * m) + eps, "iswt(swt(x))", dt=dt, trim=trim, **kw)


def chk_large(ctx, w, n):
    b = bank(w)
    x = ref.dense(n, ctx.seed)
    for lev in range(1, max_lev(n) + 1):
        for norm in (False, True):
            ctx.states += 1
            ctx.transitions += 2
            ctx.step("iswt", w, n, lev)
            m = max(np.abs(b.dec_lo).sum(), np.abs(b.dec_hi).sum()) ** lev
            T = tol_for("float64", rmag([b], min(lev, 4)) * m) + 1e-8
            r = pywt.iswt(pywt.swt(x, w, lev, norm=norm), w, norm=norm)
            ctx.close(r, x, T, "iswt(swt(x)) long", level=lev, norm=norm)
            X = np.stack([x, x[::-1]], 1)
            r = pywt.iswt(pywt.swt(X, w, lev, norm=norm, axis=0, trim_approx=True), w, norm=norm, axis=0)
            ctx.close(r, X, T, "iswt(swt(x)) long axis 0", level=lev, norm=norm)


def chk_big(ctx, i, ws):
    chk_nd(ctx, BIG[i][0], [ws[a % 2] for a in range(len(BIG[i][0]))], BIG[i][1])


def chk_nd(ctx, shape, ws, only=None):
    shape = tuple(shape)
    nd = len(shape)
    for r in range(1, nd + 1):
        keys = ["".join(k) for k in itertools.product("ad", repeat=r)]
        A = "a" * r
        for axes in itertools.permutations(range(nd), r):
            if any(shape[a] % 2 for a in axes):
                continue
            if only and only != axes:
                continue
            w = [ws[a] for a in axes]
            neg = tuple(a - nd if a % 2 else a for a in axes)
            for lev in range(1, min(max_lev(shape[a]) for a in axes) + 1):
                if only and lev > 4:
                    break
                for norm in (False, True):
                    banks = [bank(q).scaled(R2) if norm else bank(q) for q in w]
                    for dt, ax in (("float64", axes), ("complex64", neg), ("float32", neg)):
                        same = dt == "float32"
                        W = w[0] if same else tuple(wav(q) for q in w)
                        bb = [banks[0]] * r if same else banks
                        cp = dt[0] == "c"
                        ctx.states += 1
                        kw = dict(w=w, axes=ax, level=lev, norm=norm, dt=dt, shape=shape)
                        ctx.step("iswtn", kw)
                        c = [{k: ref.ndense(shape, ctx.seed, cp, 5 * i + j).astype(dt) for j, k in enumerate(keys)}
                             for i in range(lev)]
                        wt = "complex128" if cp else "float64"
                        want = ref.iswtn(c[0][A].astype(wt), [{k: v.astype(wt) for k, v in d.items() if k != A} for d in c],
                                         bb, axes)
                        T = tol_for(dt, 4 * rmag(bb, lev))
                        trim = [c[0][A]] + [{k: v for k, v in d.items() if k != A} for d in c]
                        ctx.transitions += 2
                        for fmt, cc in (("untrimmed", [dict(d) for d in c]), ("trimmed", trim)):
                            got = pywt.iswtn(cc, W, axes=ax, norm=norm)
                            ctx.close(got, want, T, "iswtn, " + fmt, **kw)
                            ctx.require(got.dtype == np.dtype(dt), "iswtn dtype", got=got.dtype, **kw)
                        if r == nd and axes == tuple(range(nd)):
                            ctx.close(pywt.iswtn([dict(d) for d in c], W, norm=norm), want, T, "iswtn default axes", **kw)
                        if r == 2:
                            ctx.transitions += 2
                            c2 = [(d["aa"], (d["da"], d["ad"], d["dd"])) for d in c]
                            t2 = [c[0]["aa"]] + [p[1] for p in c2]
                            ctx.close(pywt.iswt2(c2, W, norm=norm, axes=ax), want, T, "iswt2", **kw)
                            ctx.close(pywt.iswt2(t2, W, norm=norm, axes=ax), want, T, "iswt2, trimmed", **kw)
                            if axes == (nd - 2, nd - 1):
                                ctx.transitions += 2
                                ctx.close(pywt.iswt2(c2, W, norm=norm), want, T, "iswt2 default axes", **kw)
                                ctx.close(pywt.iswt2(t2, W, norm=norm), want, T, "iswt2 default axes, trimmed", **kw)
                        if r == 1:
                            ctx.transitions += 2
                            cl = [(d["a"], d["d"]) for d in c]
                            ctx.close(pywt.iswt(cl, w[0], norm=norm, axis=ax[0]), want, T, "iswt N-D", **kw)
                            ctx.close(pywt.iswt([c[0]["a"]] + [d["d"] for d in c], w[0], norm=norm, axis=ax[0]), want, T,
                                      "iswt N-D, trimmed", **kw)
                        x = ref.ndense(shape, ctx.seed, cp, 77).astype(dt)
                        m = np.prod([max(np.abs(q.dec_lo).sum(), np.abs(q.dec_hi).sum()) for q in bb]) ** lev
                        Tr = tol_for(dt, 4 * rmag(bb, lev) * m) + (1e-9 if all(map(exact, w)) else float("inf"))
                        for tr in (False, True):
                            ctx.transitions += 1
                            q = pywt.swtn(x, W, lev, axes=ax, trim_approx=tr, norm=norm)
                            ctx.close(pywt.iswtn(q, W, axes=ax, norm=norm), x, Tr, "iswtn(swtn(x))", trim=tr, **kw)
                            if r == 2:
                                ctx.transitions += 1
                                q = pywt.swt2(x, W, lev, axes=ax, trim_approx=tr, norm=norm)
                                ctx.close(pywt.iswt2(q, W, axes=ax, norm=norm), x, Tr, "iswt2(swt2(x))", trim=tr, **kw)


def chk_mixed(ctx):
    """Approximation and details of different dtypes."""
    kinds = ["float64", "float32", "complex128", "complex64", "int32"]
    mk = lambda dt, shape, s: (ref.ndense(shape, ctx.seed, dt[0] == "c", s) * (9 if dt[0] == "i" else 1)).astype(dt)
    for da, d2, d1 in itertools.product(kinds, repeat=3):
        ctx.states += 1
        ctx.transitions += 3
        ctx.step("iswt", da, d2, d1)
        kw = dict(dts=(da, d2, d1))
        c = [mk(da, (8,), 1), mk(d2, (8,), 2), mk(d1, (8,), 3)]
        b = bank("db2")
        want = ref.iswt(c[0].astype(complex), [v.astype(complex) for v in c[1:]], b)
        ctx.close(pywt.iswt(c, "db2"), want, tol_for("float32", 300), "iswt mixed dtypes", **kw)
        shape = (4, 8)
        a = mk(da, shape, 1)
        ds = [{k: mk(dt, shape, i + ord(k[0]) % 7 + ord(k[1])) for k in ("ad", "da", "dd")} for i, dt in ((1, d2), (2, d1))]
        wn = ref.iswtn(a.astype(complex), [{k: v.astype(complex) for k, v in d.items()} for d in ds], [b, b], (0, 1))
        ctx.close(pywt.iswtn([a] + [dict(d) for d in ds], "db2"), wn, tol_for("float32", 3000), "iswtn mixed dtypes", **kw)
        ctx.close(pywt.iswt2([a] + [(d["da"], d["ad"], d["dd"]) for d in ds], "db2"), wn, tol_for("float32", 3000),
                  "iswt2 mixed dtypes", **kw)


def check(case, ctx):
    globals()["chk_" + case[0]](ctx, *case[1:])
