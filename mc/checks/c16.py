"""C16: cwt against the definition, with a reference built from closed forms of the wavelets.

The reference convolves the data (direct sums in double precision) with the differences of the integral of the
closed-form wavelet, sampled at floor(k / (scale * step)), keeps the central N values, and multiplies by -sqrt(scale)."""
import itertools

import numpy as np
import pywt

import contref
import ref
from common import DTYPES, EPS, Quiet

ID = "C16"
BOUNDS = dict(
    quick="33 continuous wavelets x 2 methods x 4 dtypes x lengths 1..40 x 4 scale sets (7 scales each, unordered, repeated, fractional); "
          "every length 41..100 for 7 wavelets, all single scales 1..64; shapes up to 4-D x every axis; modified bounds and "
          "parameters; single-precision wavelets; 11 dtypes of scales; 5 sampling periods; data to 16385 samples, scales to 1024",
    thorough="lengths 1..130 for every wavelet, single scales 1..128, lengths to 4100 for 7 wavelets")
ASSUMPTIONS = ["the integral is the cumulative sum of the wavelet on its 1024-point grid (precision 10), as cwt documents no other",
               "where k/(scale*step) is within rounding of an integer either neighbouring sample is accepted"]
CHUNK = 1

SETS = [[1, 2, 4, 7, 13, 5, 30], [64, 1, 8, 1, 16, 0.5, 10], [2.5, 0.7, 6.1, 1.3, 11.9, 2.5, 0.2], [3, 11, 31, 1.75, 0.35, 9.6, 41]]
SEVEN = ["gaus1", "mexh", "morl", "cgau3", "cmor1.5-1.0", "shan", "fbsp1-1.5-1"]


class Psi:
    """Integral of a wavelet and its error bound."""

    def __init__(self, name, wdtype="float64", **mods):
        self.spec = s = contref.Spec(name, wdtype, **mods)
        v, tol, x = s.wavefun(1024)
        self.x = x
        xf = x.astype(float)
        h = xf[1] - xf[0]
        self.val = np.cumsum(v) * h
        hrel = 8 * s.eps * max(abs(s.lo), abs(s.hi)) / h
        self.err = (np.cumsum(tol) + np.cumsum(np.abs(v)) * (1024 * s.eps + hrel)) * h + 1e-300
        if s.cplx:
            self.val = np.conj(self.val)
        self.v = np.abs(v)
        self.cache = {}

    def taps(self, scale, single):
        """(values, error) of the sampled integral, in the order of time, or None if the scale is too small."""
        key = (float(scale), single)
        if key in self.cache:
            return self.cache[key]
        s, n = self.spec, 1024
        x64 = self.x.astype(float)
        rng, step = x64[-1] - x64[0], (x64[-1] - x64[0]) / (n - 1)
        k = np.arange(int(np.ceil(scale * rng + 1)))
        r = k / (scale * step)
        lo, hi = r, r
        xs = self.x.astype("float32" if single else s.dtype)
        st = float(xs[1] - xs[0])
        r2 = k / (scale * st)
        d = 1e-9 + (4e-7 * r if (single or s.dtype == "float32") else 0)
        lo, hi = np.floor(np.minimum(r, r2) - d), np.floor(np.maximum(r, r2) + d)
        j = np.floor(r2).astype(int)
        # samples beyond the end are dropped; they can only be the last
        keep = j < n
        j, lo, hi = j[keep], lo[keep].astype(int), np.minimum(hi[keep].astype(int), n - 1)
        lo = np.maximum(lo, 0)
        err = self.err[j].copy()
        for i in np.flatnonzero(lo != hi):
            seg = self.val[lo[i]:hi[i] + 1]
            err[i] += np.abs(seg - self.val[j[i]]).max()
        self.cache[key] = (self.val[j][::-1], err[::-1])
        return self.cache[key]


def line(psi, data, scale, method, dtype):
    """(coefficients, tolerance) of one line at one scale; None if the scale is rejected."""
    single = dtype in ("float32", "complex64")
    t, err = psi.taps(scale, single)
    n, m = len(data), len(t)
    if m < 2:
        return None
    data = data.astype(np.complex128 if np.iscomplexobj(data) else np.float64)
    g = np.zeros(m + 1, t.dtype)
    g[:m] += t
    g[1:] -= t              # differences of the convolution = convolution with the differences
    full = np.convolve(data, g)           # n + m values; the two outermost differences are not computed by diff
    full = full[1:-1]
    mag = np.convolve(np.abs(data), np.abs(t) + 0.0)
    mag = mag[:-1] + mag[1:]
    te = np.convolve(np.abs(data), err)
    te = te[:-1] + te[1:]
    d = m - 2
    sl = slice(d // 2, d // 2 + n)
    eps = EPS[dtype]
    wd = 1e-300
    tol = 4 * te + (32 + m) * eps * mag + wd
    if method == "fft":
        tol = tol + 32 * eps * np.log2(n + m + 2) * np.linalg.norm(data) * np.linalg.norm(t)
    return -np.sqrt(float(scale)) * full[sl], np.sqrt(float(scale)) * tol[sl]


def run(ctx, w, psi, x, scales, method, axis=None, period=None, fname=None):
    dtype = str(x.dtype)
    kw = {} if axis is None else dict(axis=axis)
    if period is not None:
        kw["sampling_period"] = period
    ctx.transitions += 1
    ctx.step("cwt", x.shape, dtype, scales, method, kw)
    single = dtype in ("float32", "complex64")
    lst = np.atleast_1d(scales).tolist()
    small = any(len(psi.taps(s, single)[0]) < 2 for s in lst)
    keep = x.copy()
    try:
        c, f = pywt.cwt(x, scales, w, method=method, **kw)
    except ValueError as e:
        ctx.require(small, "cwt raised ValueError", err=str(e), scales=lst, shape=x.shape)
        return None
    ctx.require(not small, "cwt accepted a scale below one sample", scales=lst)
    ctx.require(np.array_equal(keep, x), "data changed")
    cplx = psi.spec.cplx or x.dtype.kind == "c"
    ctx.same(str(c.dtype), str(np.result_type(x.dtype, np.complex64) if cplx else x.dtype), "dtype of the coefficients")
    ctx.same(c.shape, (len(lst),) + x.shape, "shape of the coefficients")
    ax = -1 if axis is None else axis
    xm = np.moveaxis(x, ax, -1)
    for i, s in enumerate(lst):
        cm = np.moveaxis(c[i], ax if ax < 0 else ax, -1)
        for idx in np.ndindex(xm.shape[:-1]):
            v, tol = line(psi, xm[idx], s, method, dtype)
            ctx.close(cm[idx], v, tol, "coefficients", scale=s, method=method, dtype=dtype, idx=idx, axis=ax, n=xm.shape[-1])
    want = pywt.scale2frequency(fname or w, np.array(lst, float), 10) / (1.0 if period is None else period)
    ctx.close(f, want, 1e-14 * np.abs(want), "frequencies", scales=lst)
    return c


def cases(tier, seed):
    for n in contref.NAMES:
        for m in ("conv", "fft"):
            for si in range(len(SETS)):
                yield ["len", n, m, si]
    for n in SEVEN:
        for m in ("conv", "fft"):
            yield ["single", n, m]
            yield ["long", n, m]
            yield ["nd", n, m]
            yield ["huge", n, m]
            yield ["mods", n, m]
            yield ["args", n, m]


def check(case, ctx):
    with Quiet():
        globals()["chk_" + case[0]](case, ctx)


def data(n, dtype, seed):
    if isinstance(n, int):
        n = (n,)
    a = ref.dense(int(np.prod(n)), seed).reshape(n)
    if dtype.startswith("complex"):
        a = a + 1j * ref.dense(int(np.prod(n)), seed, salt=3).reshape(n)
    return a.astype(dtype)


def chk_len(case, ctx):
    _, name, method, si = case
    psi = Psi(name)
    w = pywt.ContinuousWavelet(name)
    for n in range(1, 41 if ctx.tier == "quick" else 131):
        for dt in DTYPES:
            ctx.states += 1
            run(ctx, w if n % 2 else name, psi, data(n, dt, ctx.seed), SETS[si], method, fname=w)


def chk_single(case, ctx):
    """Every scale alone: independent of the other scales of a call, and too small scales rejected."""
    _, name, method = case
    psi = Psi(name)
    w = pywt.ContinuousWavelet(name)
    rng = psi.spec.hi - psi.spec.lo
    top = 65 if ctx.tier == "quick" else 129
    scs = list(range(1, top)) + [k / 8 for k in range(1, 64) if k % 8]
    allx = {}
    for n in (5, 16, 33):
        x = data(n, "float64", ctx.seed)
        for s in scs:
            ctx.states += 1
            c = run(ctx, w, psi, x, s, method)
            allx[n, s] = c
        ok = [s for s in scs if allx[n, s] is not None]
        for perm in (ok, ok[::-1], ok[1::2] + ok[::2]):
            c, f = pywt.cwt(x, perm, w, method=method)
            ctx.transitions += 1
            for i, s in enumerate(perm):
                ctx.close(c[i], allx[n, s][0], 1e-13 * np.sqrt(s) * (1 + np.abs(x).sum()) * psi.v.max() * rng, "scale among others", s=s)
    # unacceptable scales
    for s in (0, -1, [1, 0], [2, -3, 4], 1e-3 / rng, [2, 1e-3 / rng], float("nan"), [1.0, float("nan")], [-0.0]):
        ctx.transitions += 1
        try:
            pywt.cwt(x, s, w, method=method)
        except ValueError:
            continue
        ctx.fail("bad scale accepted", scale=s)


def chk_long(case, ctx):
    _, name, method = case
    psi = Psi(name)
    w = pywt.ContinuousWavelet(name)
    for n in list(range(41, 101)) + ([255, 256, 1000, 1025] if ctx.tier == "quick" else [255, 256, 1000, 1025, 2048, 4096, 4100]):
        for dt in ("float64", "complex64"):
            ctx.states += 1
            run(ctx, w, psi, data(n, dt, ctx.seed), [1, 25, 3.3, 2, 25], method)
    if method == "fft":
        # padded sizes around powers of two
        rng = int(psi.spec.hi - psi.spec.lo)
        for s in (1, 2, 4):
            for p in (64, 128, 256, 512):
                for dn in (-1, 0, 1):
                    n = p - (rng * s + 1) + 1 + dn
                    if n > 0:
                        ctx.states += 1
                        run(ctx, w, psi, data(n, "float64", ctx.seed), [s, 7, s], method)


def chk_huge(case, ctx):
    _, name, method = case
    psi = Psi(name)
    w = pywt.ContinuousWavelet(name)
    for shape, axis, scales in (((6000,), -1, [1, 100]), ((16385,), 0, [2, 33.3]), ((2, 700), 1, [128, 1, 300]), ((1100, 3), 0, [100, 5]), ((40, 3, 2), -3, [500, 3]),
                                ((2, 1, 2, 1, 2, 90), -1, [4, 64]), ((300,), 0, list(range(1, 130, 7))), ((64,), 0, np.geomspace(1, 1024, 12))):
        for dt in ("float64", "complex64"):
            ctx.states += 1
            run(ctx, w, psi, data(shape, dt, ctx.seed), scales, method, axis=axis)


def chk_nd(case, ctx):
    _, name, method = case
    psi = Psi(name)
    w = pywt.ContinuousWavelet(name)
    for shape in itertools.chain([(n,) for n in (1, 6)], itertools.product((1, 2, 7), repeat=2), itertools.product((1, 2, 5), repeat=3),
                                 [(2, 3, 1, 4), (3, 1, 2, 2), (0, 4), (2, 0, 3)]):
        for axis in range(-len(shape), len(shape)):
            if shape[axis] == 0:
                continue
            for dt in ("float64", "complex64", "float32"):
                ctx.states += 1
                run(ctx, w, psi, data(shape, dt, ctx.seed), [2, 9, 1.3], method, axis=axis)
        run(ctx, w, psi, data(shape, "float64", ctx.seed), [2], method)
    # integer, boolean and list data
    for dt in ("int8", "uint16", "int64", "bool", "float16"):
        x = (np.arange(24) * 5 % 7).reshape(4, 6).astype(dt)
        c, f = pywt.cwt(x, [2, 5], w, method=method)
        c2, f2 = pywt.cwt(x.astype("float32" if dt == "float16" else float), [2, 5], w, method=method)
        ctx.require(c.dtype == c2.dtype and np.array_equal(c, c2), "data of dtype " + dt)
        c2, _ = pywt.cwt(x.tolist(), (2, 5), w, method=method)
        ctx.close(c2, c, 1e-5 if dt == "float16" else 1e-13, "data as a list")
    for bad in (2, 3, -3, 5):
        for x in (data((3, 4), "float64", 1), data((3, 4, 2), "float64", 1)):
            if -x.ndim <= bad < x.ndim:
                continue
            ctx.transitions += 1
            try:
                pywt.cwt(x, [1], w, method=method, axis=bad)
            except (ValueError, IndexError):
                continue
            ctx.fail("axis out of range accepted", axis=bad, shape=x.shape)


def chk_mods(case, ctx):
    _, name, method = case
    for lo, hi in itertools.product((None, -3.0, -0.5), (None, 4.0, 12.5)):
        mods = {k: v for k, v in (("lower_bound", lo), ("upper_bound", hi)) if v is not None}
        opts = [{}]
        if contref.parse(name)[0] in contref.DEFAULT:
            opts += [dict(bandwidth_frequency=2.5), dict(center_frequency=0.75, bandwidth_frequency=0.5)]
        for o in opts:
            for wdt in ("float64", "float32"):
                m = dict(mods, **o)
                w = pywt.ContinuousWavelet(name, np.dtype(wdt).type)
                for k, v in m.items():
                    setattr(w, k, v)
                psi = Psi(name, wdt, **m)
                for n in (1, 4, 19, 32):
                    for dt in ("float64", "float32", "complex128"):
                        ctx.states += 1
                        run(ctx, w, psi, data(n, dt, ctx.seed), [1, 3.3, 8, 2], method)


def chk_args(case, ctx):
    _, name, method = case
    psi = Psi(name)
    w = pywt.ContinuousWavelet(name)
    x = data(21, "float64", ctx.seed)
    for sdt in ("int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float16", "float32", "float64", "longdouble"):
        for vals in ([5], [3, 7, 5], [1, 100, 2, 127]):
            ctx.states += 1
            run(ctx, w, psi, x, np.array(vals, sdt), method)
            run(ctx, w, psi, x, np.array(vals, sdt)[0], method)
            run(ctx, w, psi, x.astype("float32"), np.array(vals, sdt), method)
    for sc in ((1, 2), [1, 2.5], range(1, 5), 3, 2.5, np.float32(2.5)):
        run(ctx, w, psi, x, sc, method)
    for per in (1, 2, 0.5, 1e-6, 1e9, np.float32(0.25)):
        ctx.states += 1
        run(ctx, w, psi, x, [1, 4], method, period=per)
        run(ctx, w, psi, x, 4, method, period=per)
    for m in ("CONV", "auto2", "", None, "Fft"):
        try:
            pywt.cwt(x, [1], w, method=m)
        except ValueError:
            continue
        ctx.fail("unknown method accepted", method=m)
    # the default method is conv
    a, b = pywt.cwt(x, [2, 3], w)[0], pywt.cwt(x, [2, 3], w, method="conv")[0]
    ctx.require(np.array_equal(a, b), "default method is conv")
    b = pywt.cwt(x, [2, 3], w, 1.0, method)[0]
    ctx.close(b, a, 1e-11, "positional arguments")
    b = pywt.cwt(np.stack([x, x]), [2, 3], w, 1.0, method, 1)[0]
    ctx.close(b[:, 1], a, 1e-11, "positional arguments")
