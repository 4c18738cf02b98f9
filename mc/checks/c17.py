"""C17: wavefun, integrate_wavelet, central_frequency, scale2frequency, frequency2scale against their definitions.

Continuous wavelets are compared with closed forms (derivatives of Gaussians by polynomial recursion, etc.); discrete ones
with the cascade: level-fold upsample-and-filter synthesis of one coefficient sqrt(2)**level, on the documented grid."""
import itertools

import numpy as np
import pywt

import contref
import ref
from common import DISCRETE, EPS, Quiet, wav

ID = "C17"
BOUNDS = dict(
    quick="33 continuous wavelets (parametrised ones included) x 2 precisions x levels 0..12 x lengths 1..33 and modified bounds and "
          "parameters; 106 discrete wavelets and 12 custom banks x levels 1..8; integrals and frequencies for every one at "
          "precisions 1..8; 384 spellings of parameters",
    thorough="discrete levels to 11, continuous levels to 16, lengths to 200")
ASSUMPTIONS = ["the sign of psi for biorthogonal wavelets follows the library's convention (minus unless the number of vanishing "
               "moments is 1 modulo 4)", "central_frequency: bins whose magnitude ties within 1e-9 are interchangeable"]
CHUNK = 2


def cases(tier, seed):
    for n in contref.NAMES:
        for dt in ("float64", "float32"):
            yield ["cont", n, dt]
            yield ["mods", n, dt]
        yield ["freq", n]
    for w in sorted(DISCRETE, key=lambda w: -wav(w).dec_len):
        yield ["disc", w]
        yield ["freq", w]
    for i in range(12):
        yield ["custom", i]
    yield ["params"]
    yield ["general"]


def check(case, ctx):
    with Quiet():
        globals()["chk_" + case[0]](case, ctx)


def cont_one(ctx, w, spec, n, **kw):
    ctx.transitions += 1
    ctx.step("wavefun", w.name, kw)
    out = w.wavefun(**kw)
    v, tol, x = spec.wavefun(n)
    ctx.require(isinstance(out, list) and len(out) == 2, "wavefun returns [psi, x]")
    p, g = out
    ctx.require(g.dtype == spec.dtype and p.dtype == np.result_type(spec.dtype, np.complex64 if spec.cplx else np.float32),
                "wavefun dtype", got=[p.dtype, g.dtype])
    ctx.close(g, x, 4 * spec.eps * max(abs(spec.lo), abs(spec.hi)), "wavefun grid", args=kw)
    ctx.close(p, v, tol, "wavefun psi", args=kw)


def chk_cont(case, ctx):
    _, name, dt = case
    w = pywt.ContinuousWavelet(name, dtype=np.dtype(dt).type)
    spec = contref.Spec(name, dt)
    for lev in range(0, 13 if ctx.tier == "quick" else 17):
        ctx.states += 1
        cont_one(ctx, w, spec, 2 ** lev, level=lev)
    cont_one(ctx, w, spec, 256)
    for n in range(1, 34 if ctx.tier == "quick" else 201):
        ctx.states += 1
        cont_one(ctx, w, spec, n, length=n)
        cont_one(ctx, w, spec, n, length=n, level=3)
    for n in (100, 1000, 1023, 4097):
        cont_one(ctx, w, spec, n, length=n)
    ctx.same(w.center_frequency, spec.C, "center_frequency")
    ctx.same(w.bandwidth_frequency, spec.B, "bandwidth_frequency")
    ctx.same(w.fbsp_order, spec.M, "fbsp_order")
    ctx.same((w.lower_bound, w.upper_bound), (spec.lo, spec.hi), "bounds")


def chk_mods(case, ctx):
    """Every combination of modified bounds and parameters."""
    _, name, dt = case
    fam = contref.parse(name)[0]
    opts = [("lower_bound", [None, -3.0, -0.7, 1.5]), ("upper_bound", [None, 2.0, 11.0])]
    if fam in contref.DEFAULT:
        opts += [("bandwidth_frequency", [None, 0.3, 2.5]), ("center_frequency", [None, 1.7])]
    if fam == "fbsp":
        opts += [("fbsp_order", [None, 1, 5])]
    for vals in itertools.product(*[o[1] for o in opts]):
        m = {k: v for (k, _), v in zip(opts, vals) if v is not None}
        w = pywt.ContinuousWavelet(name, np.dtype(dt).type)
        for k, v in m.items():
            setattr(w, k, v)
        spec = contref.Spec(name, dt, **m)
        ctx.states += 1
        for n in (1, 2, 7, 64):
            cont_one(ctx, w, spec, n, length=n)
        cont_one(ctx, w, spec, 128, level=7)
        ctx.same((w.lower_bound, w.upper_bound), (spec.lo, spec.hi), "bounds after setting")
        ctx.same((w.bandwidth_frequency, w.center_frequency, w.fbsp_order), (spec.B, spec.C, spec.M), "parameters after setting")
        if n > 1 and spec.lo < spec.hi:
            v, tol, x = spec.wavefun(256)
            h = x.astype(float)[1] - x.astype(float)[0]
            ip, g = pywt.integrate_wavelet(w)
            # step is a difference of two rounded grid values
            rel = 8 * spec.eps * max(abs(spec.lo), abs(spec.hi)) / h
            ctx.close(ip, np.cumsum(v) * h, (np.abs(v).sum() * (256 * spec.eps + rel) + tol.sum()) * h + 1e-300, "integral")


def cascade(b0, b1, level, c):
    """level-fold synthesis of the single coefficient c: first with b0, then with b1."""
    v = np.array([c])
    mag = np.abs(v)
    for i in range(level):
        f = b0 if i == 0 else b1
        up = np.zeros(2 * len(v) - 1)
        up[::2] = v
        um = np.zeros(2 * len(v) - 1)
        um[::2] = mag
        v = np.convolve(up, f)
        mag = np.convolve(um, np.abs(f))
    return v, mag


def disc_ref(w, level):
    """[(values, tolerance)...], grid of wavefun for a discrete wavelet object."""
    F = w.dec_len
    p = 2 ** level
    n = np.sqrt(2.0) ** level

    def place(v, total):
        out = np.zeros(total)
        out[1:1 + len(v)] = v
        return out
    klen = p + (p - 1) * (F - 2)
    if w.orthogonal:
        total = max((F - 1) * p + 1, klen + 2)
        sets = [(w.rec_lo, w.rec_hi, n)]
    else:
        total = max((F - 1) * p, klen + 2)
        s = -n if w.biorthogonal and (w.vanishing_moments_psi or 0) % 4 != 1 else n
        sets = [(w.dec_lo[::-1], w.dec_hi[::-1], s), (w.rec_lo, w.rec_hi, s)]
    out = []
    for lo, hi, s in sets:
        for first, c in ((lo, n), (hi, s)):
            v, mag = cascade(np.array(first), np.array(lo), level, c)
            out.append((place(v, total), place(mag, total)))
    return out, np.arange(total) / p


def disc_one(ctx, w, level):
    ctx.transitions += 1
    ctx.states += 1
    ctx.step("wavefun", w.name, level)
    out = w.wavefun(level=level)
    want, x = disc_ref(w, level)
    ctx.same(len(out), len(want) + 1, "number of arrays returned by wavefun")
    for i, (g, (v, mag)) in enumerate(zip(out, want)):
        ctx.require(g.dtype == np.float64, "wavefun dtype")
        ctx.close(g, v, 64 * 2.0 ** -52 * (mag + 1e-30), "wavefun array %d" % i, lev=level)
    ctx.close(out[-1], x, 1e-15 * (1 + x[-1]), "wavefun grid", lev=level)
    return out, want, x


def chk_disc(case, ctx):
    w = pywt.Wavelet(case[1])
    top = 8 if ctx.tier == "quick" else 11
    for level in range(1, top + 1):
        out, want, x = disc_one(ctx, w, level)
        h = x[1] - x[0]
        if level <= 8:
            got = pywt.integrate_wavelet(w, precision=level)
            psis = [want[i] for i in range(1, len(want), 2)]
            ctx.same(len(got), len(psis) + 1, "number of arrays returned by integrate_wavelet")
            for g, (v, mag) in zip(got, psis):
                ctx.close(g, np.cumsum(v) * h, 2.0 ** -52 * (64 * mag.sum() + len(v) * np.abs(v).sum()) * h + 1e-300,
                          "integrate_wavelet", lev=level)
            ctx.close(got[-1], x, 1e-15 * (1 + x[-1]), "integrate_wavelet grid", lev=level)
    a, b = w.wavefun(), w.wavefun(8)
    for u, v in zip(a, b):
        ctx.require(np.array_equal(u, v), "default level is 8")
    for u, v in zip(pywt.integrate_wavelet(case[1]), pywt.integrate_wavelet(w, 8)):
        ctx.require(np.array_equal(u, v), "integrate_wavelet default precision is 8; name and object agree")
    for bad in (0, -1):
        try:
            w.wavefun(level=bad)
        except ValueError:
            continue
        ctx.fail("wavefun accepts level %d" % bad)


def chk_custom(case, ctx):
    i = case[1]
    F = [1, 2, 3, 4, 6, 5][i % 6]
    fb = [ref.dense(F, 1, salt=k + i).tolist() for k in range(4)]
    for orth, biorth in itertools.product((0, 1), repeat=2):
        w = pywt.Wavelet("custom", fb)
        w.orthogonal, w.biorthogonal = orth, biorth
        for level in range(1, 7):
            out, want, x = disc_one(ctx, w, level)
            h = x[1] - x[0]
            got = pywt.integrate_wavelet(w, level)
            for g, (v, mag) in zip(got, [want[k] for k in range(1, len(want), 2)]):
                ctx.close(g, np.cumsum(v) * h, 2.0 ** -52 * 128 * len(v) * mag.sum() * h + 1e-300, "integrate_wavelet, custom")


def chk_freq(case, ctx):
    name = case[1]
    disc = name in DISCRETE
    for p in range(1, 9):
        ctx.states += 1
        if disc:
            want, x = disc_ref(wav(name), p)
            v, err = want[1][0], 0.0
            x0, x1 = 0.0, (len(v) - 1) / 2.0 ** p
        else:
            v, err, g = contref.Spec(name).wavefun(2 ** p)
            err = err.sum()
            x0, x1 = float(g[0]), float(g[-1])
        ok = contref.central(v, x1 - x0, err)
        obj = pywt.DiscreteContinuousWavelet(name)
        for a in (name, obj):
            f = pywt.central_frequency(a, p)
            ctx.transitions += 1
            ctx.traces += 1
            ctx.require(any(abs(f - o) <= 1e-12 * o for o in ok), "central_frequency", got=f, want=sorted(ok), precision=p)
            for s in (1, 2, 0.25, 3.7, 1e-6, 2 ** 40):
                ctx.close(pywt.scale2frequency(a, s, p), f / s, 1e-15 * f / s, "scale2frequency")
                ctx.close(pywt.frequency2scale(a, s, p), f / s, 1e-15 * f / s, "frequency2scale")
                ctx.close(pywt.frequency2scale(a, pywt.scale2frequency(a, s, p), p), s, 4e-16 * s, "mutual inverses")
                ctx.transitions += 4
            arr = np.array([1.0, 2.0, 5.5])
            ctx.close(pywt.scale2frequency(a, arr, p), f / arr, 1e-15 * f, "scale2frequency of an array")
            ctx.close(pywt.frequency2scale(a, arr, p), f / arr, 1e-15 * f, "frequency2scale of an array")
            ctx.require((arr == [1.0, 2.0, 5.5]).all(), "argument changed")
    f8 = pywt.central_frequency(name, 8)
    ctx.same(pywt.central_frequency(name), f8, "default precision")
    ctx.same(pywt.scale2frequency(name, 2.0), f8 / 2, "default precision")
    ctx.same(pywt.frequency2scale(name, 2.0), f8 / 2, "default precision")
    if not disc:
        for p in range(1, 11):
            v, tol, x = contref.Spec(name).wavefun(2 ** p)
            h = x[1] - x[0]
            got = pywt.integrate_wavelet(name, precision=p)
            ctx.same(len(got), 2, "integrate_wavelet of a continuous wavelet")
            ctx.close(got[0], np.cumsum(v) * h, (np.abs(v).sum() * 2.0 ** -52 * (2 ** p + 64) + tol.sum()) * h + 1e-300,
                      "integrate_wavelet", precision=p)
            ctx.close(got[1], x, 1e-14, "integrate_wavelet grid")


def chk_params(case, ctx):
    """Every spelling of the numbers in a parametrised name, and malformed ones."""
    nums = [("1", 1.0), ("1.0", 1.0), ("1.", 1.0), ("0.5", 0.5), (".5", 0.5), ("12.25", 12.25), ("003", 3.0), ("2.50", 2.5)]
    for fam in ("cmor", "shan", "CMOR", "Shan"):
        for (s, B), (t, C) in itertools.product(nums, repeat=2):
            w = pywt.ContinuousWavelet("%s%s-%s" % (fam, s, t))
            ctx.states += 1
            ctx.transitions += 1
            ctx.same((w.bandwidth_frequency, w.center_frequency, w.fbsp_order), (B, C, None), "parameters", name=w.name)
            ctx.same(w.name, ("%s%s-%s" % (fam, s, t)).lower(), "name")
            v = pywt.DiscreteContinuousWavelet("%s%s-%s" % (fam, s, t))
            ctx.same((v.bandwidth_frequency, v.center_frequency), (B, C), "DiscreteContinuousWavelet parameters")
    for m in ("1", "2", "3", "10", "2.0"):
        for (s, B), (t, C) in itertools.product(nums, repeat=2):
            w = pywt.ContinuousWavelet("fbsp%s-%s-%s" % (m, s, t))
            ctx.transitions += 1
            ctx.same((w.fbsp_order, w.bandwidth_frequency, w.center_frequency), (int(float(m)), B, C), "parameters", name=w.name)
    bad = ["cmor1", "cmor1-2-3", "cmor1.5", "shan1", "shan1-2-3", "shan-", "cmor-", "cmorx", "fbsp1-1", "fbsp1-1-1-1", "fbsp1",
           "fbsp1.5-1-1", "fbsp0-1-1", "fbsp.5-1-1", "fbsp0.5-1-1", "cmor1.2.3-1", "fbspx-y-z", "gaus1-1", "mexh1", "morl1-2",
           "cgau9", "gaus0", "gaus9", "gaus", "cgau", "cmo", "fbs", "sha"]
    for b in bad:
        for mk in (pywt.ContinuousWavelet, pywt.DiscreteContinuousWavelet, lambda n: pywt.cwt([1.0, 2.0], [1], n),
                   pywt.central_frequency, pywt.integrate_wavelet):
            ctx.transitions += 1
            try:
                mk(b)
            except ValueError:
                continue
            ctx.fail("malformed name accepted", name=b)


def chk_general(case, ctx):
    """integrate_wavelet of a general signal."""
    for n in range(2, 9):
        for h in (0.5, 1.0, 3.0):
            y = ref.dense(n, ctx.seed)
            x = 2.0 + h * np.arange(n)
            for a in ([y, x], (y, x), [list(y), list(x)], (tuple(y), tuple(x))):
                ctx.transitions += 1
                ctx.states += 1
                g, gx = pywt.integrate_wavelet(a)
                ctx.close(g, np.cumsum(y) * h, 1e-14 * n * h, "integral of a general signal")
                ctx.close(gx, x, 0 + 1e-300, "grid")
            ctx.require((y == ref.dense(n, ctx.seed)).all(), "argument changed")
