"""C20: precision of results, real/imaginary split, linearity and scale equivariance, over the whole catalogue of calls.

Linearity is decided exhaustively per call: the responses to every unit vector of every array are collected, and every other
input (dense, real, complex, mixed, scaled) must be the superposition of them."""
import itertools
import sys

import numpy as np
import pywt

import ops
import ref
from common import EPS, MODES, Quiet

ID = "C20"
BOUNDS = dict(
    quick="650 linear calls: every unit vector of every array, 2 dense vectors, all 15 numeric dtypes and their extreme values, mixed real and complex "
          "arrays (also on the Python code for compilers without complex numbers), scaled by 2**k for k over the normal range (64 steps); dwt/idwt/swt/iswt in 4 dtypes for lengths 1..24 x 9 modes x 8 wavelets",
    thorough="every k of the range; lengths to 60 x 25 wavelets")
ASSUMPTIONS = ["packing functions, pad and thresholding keep the dtype they are given and are not transforms",
               "scaled data stay a factor 2**16 away from the limits of the normal range"]
CHUNK = 1
KEEP = ("coeffs_to_array1", "coeffs_to_array2", "ravel_coeffs1", "ravel_coeffs2", "array_to_coeffs1", "array_to_coeffs2", "unravel_coeffs1",
        "unravel_coeffs2", "pad", "imra", "imra2", "imran")
RESULT = dict(float64="float64", float32="float32", complex128="complex128", complex64="complex64", float16="float32", longdouble="float64",
              clongdouble="complex128")
INTS = ["bool", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64"]


def cases(tier, seed):
    for w in ["haar", "db2", "db5", "bior3.1", "rbio2.6", "coif2", "sym7", "dmey"] + (
            [] if tier == "quick" else ["db1", "db3", "db4", "db8", "db20", "db38", "sym5", "sym20", "coif1", "coif17", "bior1.5", "bior2.8", "bior6.8",
                                        "bior4.4", "rbio3.9", "rbio5.5", "rbio1.1"]):
        for m in ("swt",) + tuple(MODES):
            yield ["one", w, m]
    for i, o in enumerate(ops.catalog()):
        if o.linear:
            yield [i, o.name]


def check(case, ctx):
    with Quiet():
        if case[0] == "one":
            return chk_one(case, ctx)
        op = ops.catalog()[case[0]]
        assert op.name == case[1]
        chk_op(op, ctx)


class NoComplex:
    """As on a platform whose C compiler has no complex numbers: the Python layer splits complex data itself."""

    def __enter__(self):
        self.m = [m for k, m in sys.modules.items() if k.split(".")[0] == "pywt" and getattr(m, "_have_c99_complex", None) is True]
        for m in self.m:
            m._have_c99_complex = False
        return bool(self.m)

    def __exit__(self, *a):
        for m in self.m:
            m._have_c99_complex = True


def flat(s):
    a = [v.ravel() for _, v in ops.leaves(s)]
    return np.concatenate(a) if a else np.zeros(0)


def call(ctx, op, args, what):
    ctx.step(op.name, what)
    ctx.transitions += 1
    return op.call(args)


def dtypes_of(s):
    return {str(a.dtype) for _, a in ops.leaves(s)}


def chk_op(op, ctx):
    keep = op.group in KEEP
    cw = op.group == "cwt" and pywt.ContinuousWavelet(op.name[4:].split(",")[0]).complex_cwt
    zero = op.make("float64", ctx.seed)
    zero = ops.mapped(zero, lambda p, a: np.zeros(a.shape))
    r0 = call(ctx, op, zero, "zero")
    ctx.require(not np.any(flat(r0)), "result of zero data is not zero", op=op.name)
    # responses to all unit vectors
    cols = []
    for path, leaf in list(ops.leaves(zero)):
        for i in range(leaf.size):
            leaf.flat[i] = 1.0
            cols.append(flat(call(ctx, op, zero, ("unit", path, i))).copy())
            leaf.flat[i] = 0.0
            ctx.states += 1
    M = np.array(cols).T
    A = np.abs(M)

    def vec(args):
        return np.concatenate([a.ravel() for _, a in ops.leaves(args)])

    def tolerance(x, eps):
        m = A @ np.abs(x)
        return 64 * eps * np.maximum(m.max(), 0) + 1e-300

    for salt in (0, 1):
        args = op.make("float64", ctx.seed + salt)
        x = vec(args)
        base = call(ctx, op, args, "dense")
        f = flat(base)
        ctx.close(f, M @ x, tolerance(x, EPS["float64"]), "not the superposition of the responses to unit vectors", op=op.name)
        ctx.require(dtypes_of(base) == {"complex128" if cw else "float64"}, "dtype of the result", op=op.name, got=sorted(dtypes_of(base)))
    skel = [(p, a.shape) for p, a in ops.leaves(base)]
    # other precisions
    for dt in ("float32", "complex64", "complex128", "float16", "longdouble", "clongdouble"):
        if dt in ("complex64", "complex128", "clongdouble") and not op.complex_ok:
            continue
        if keep and dt in ("float16", "longdouble", "clongdouble"):
            continue
        args = op.make(dt, ctx.seed)
        want = RESULT[dt]
        if cw and want.startswith("float"):
            want = "complex128" if want == "float64" else "complex64"
        r = call(ctx, op, args, dt)
        ctx.states += 1
        ctx.require(dtypes_of(r) == {want}, "dtype of the result", op=op.name, dtype=dt, got=sorted(dtypes_of(r)), want=want)
        ctx.require([(p, a.shape) for p, a in ops.leaves(r)] == skel, "shapes differ between dtypes", op=op.name, dtype=dt)
        x = vec(args)
        x = x.astype("complex128" if x.dtype.kind == "c" else "float64")
        ctx.close(flat(r), M @ x, tolerance(x, EPS[want]), "superposition in another precision", op=op.name, dtype=dt)
        if x.dtype.kind == "c":
            rdt = {"complex64": "float32"}.get(dt, "float64")
            re = call(ctx, op, ops.mapped(args, lambda p, a: a.real.astype(rdt)), "real part")
            im = call(ctx, op, ops.mapped(args, lambda p, a: a.imag.astype(rdt)), "imaginary part")
            ctx.close(flat(r), flat(re) + 1j * flat(im), tolerance(x, EPS[want]), "real and imaginary parts are not transformed separately",
                      op=op.name, dtype=dt)
            with NoComplex() as possible:
                if possible:
                    no = call(ctx, op, args, "without complex numbers in C")
                    ctx.states += 1
                    ctx.require(dtypes_of(no) == {want}, "dtype of the result without complex numbers in C", op=op.name, dtype=dt, got=sorted(dtypes_of(no)), want=want)
                    ctx.require([(p, a.shape) for p, a in ops.leaves(no)] == skel, "shapes differ without complex numbers in C", op=op.name, dtype=dt)
                    ctx.close(flat(no), M @ x, tolerance(x, EPS[want]), "superposition without complex numbers in C", op=op.name, dtype=dt)
            # purely real and purely imaginary complex data
            pr = call(ctx, op, ops.mapped(args, lambda p, a: a.real.astype(a.dtype)), "complex dtype, real data")
            if not cw:
                ctx.require(not np.any(np.imag(flat(pr))), "real data of complex dtype got an imaginary part", op=op.name) if not (
                    op.group == "cwt" and ",fft," in op.name) else None
            ctx.close(flat(pr), flat(re), tolerance(x, EPS[want]), "complex dtype, real data", op=op.name)
        if dt in ("float16", "longdouble", "clongdouble"):
            r2 = call(ctx, op, ops.mapped(args, lambda p, a: a.astype(RESULT[dt])), "converted")
            ctx.close(flat(r), flat(r2), tolerance(x, EPS[want]) / 8, "half is computed in single and long double in double", op=op.name, dtype=dt)
    # integers
    if not keep:
        for dt in INTS:
            args = op.make(dt, ctx.seed)
            variants = [args]
            if dt != "bool":
                ii = np.iinfo(dt)
                variants.append(ops.mapped(args, lambda p, a: np.where(np.arange(a.size).reshape(a.shape) % 3 == 0, ii.min, np.where(
                    np.arange(a.size).reshape(a.shape) % 3 == 1, ii.max, a)).astype(dt)))
            for v in variants:
                r = call(ctx, op, v, dt)
                ctx.states += 1
                ctx.require(dtypes_of(r) == {"complex128" if cw else "float64"}, "integer and boolean data give double precision", op=op.name,
                            dtype=dt, got=sorted(dtypes_of(r)))
                x = vec(v).astype(float)
                ctx.close(flat(r), M @ x, tolerance(x, EPS["float64"]), "integer data", op=op.name, dtype=dt)
    starts = np.cumsum([0] + [a.size for _, a in ops.leaves(zero)])
    # one complex array among real ones, one single among doubles
    n = len(list(ops.leaves(zero)))
    if n > 1 and op.complex_ok and not keep:
        base = op.make("complex128", ctx.seed)
        for i in range(n):
            for dts in (("float64", "complex128"), ("float32", "complex64"), ("float32", "complex128"), ("float64", "complex64"), ("float32", "float64"),
                        ("float64", "float32")):
                j = [0]

                def f(p, a):
                    k = j[0]
                    j[0] += 1
                    d = dts[1] if k == i else dts[0]
                    return (a if d.startswith("complex") else a.real).astype(d)
                args = ops.mapped(base, f)
                r = flat(call(ctx, op, args, ("mixed", i, dts)))
                ctx.states += 1
                x = vec(args).astype("complex128")
                with NoComplex() as possible:
                    if possible:
                        no = flat(call(ctx, op, args, ("mixed, without complex numbers in C", i, dts)))
                        ctx.close(no, M @ x, tolerance(x, EPS["float32" if "32" in dts[0] or dts[1] in ("float32", "complex64") else "float64"]),
                                  "arrays of different dtypes without complex numbers in C", op=op.name, dtypes=dts, which=i)
                        ctx.require(no.dtype.kind == r.dtype.kind and (no.dtype == r.dtype or dts == ("float32", "complex64")),
                                    "dtype of the result without complex numbers in C", op=op.name, dtypes=dts, got=str(no.dtype), want=str(r.dtype))
                eps = EPS["float32" if "32" in dts[0] or dts[1] in ("float32", "complex64") else "float64"]
                ctx.close(r, M @ x, tolerance(x, eps), "arrays of different dtypes", op=op.name, dtypes=dts, which=i)
                if not A[:, starts[i]:starts[i + 1]].any():
                    continue        # an array that is not used (e.g. finer approximations)
                ctx.require((r.dtype.kind == "c") == (cw or dts[1].startswith("complex")), "result complex if and only if data are", op=op.name, dtypes=dts)
    # scale equivariance
    for dt, top in (("float64", 1000), ("float32", 108), ("complex128", 1000), ("complex64", 108)):
        if dt.startswith("complex") and not op.complex_ok:
            continue
        args = op.make(dt, ctx.seed)
        r = flat(call(ctx, op, args, "scale 1"))
        m = float(np.abs(r).max()) if r.size else 0
        eps = EPS[dt]
        ks = range(-top, top + 1) if ctx.tier == "thorough" else sorted({-top, -top + 1, top, top - 1} | set(range(-top, top, top // 7)))
        for k in ks:
            s = 2.0 ** k
            q = flat(call(ctx, op, ops.mapped(args, lambda p, a: (a * a.real.dtype.type(s)).astype(dt)), ("scale", k)))
            ctx.states += 1
            ctx.traces += 1
            q = q.astype("complex128" if q.dtype.kind == "c" else "float64") / s
            if not (np.abs(q - r) <= 16 * eps * (m + 1e-300)).all():
                ctx.fail("not scale equivariant", op=op.name, k=k, dtype=dt, got=q, want=r)


def chk_one(case, ctx):
    w = pywt.Wavelet(case[1])
    top = 25 if ctx.tier == "quick" else 61
    for n in range(1, top):
        x64 = ref.dense(n, ctx.seed, True)
        for mode in MODES:
            if mode != case[2]:
                continue
            if n < 2 and mode in ("reflect", "antireflect"):
                continue
            a64 = [np.asarray(pywt.dwt(p, w, mode)) for p in (x64.real, x64.imag)]
            c64 = a64[0] + 1j * a64[1]
            m = len(c64[0])
            y = ref.dense(m, ctx.seed, True, 3), ref.dense(m, ctx.seed, True, 4)
            i64 = pywt.idwt(y[0].real, y[1].real, w, mode) + 1j * pywt.idwt(y[0].imag, y[1].imag, w, mode)
            u64 = [[pywt.upcoef(p, v, w, 1, t) for v in (x64.real, x64.imag)] for p in "ad" for t in (0, 2)]
            for dt in ("float32", "complex64", "complex128"):
                ctx.states += 1
                ctx.transitions += 2
                ctx.step("dwt", case[1], n, mode, dt)
                x = (x64 if dt[0] == "c" else x64.real).astype(dt)
                tol = 64 * EPS[dt] * np.abs(w.filter_bank).max() * w.dec_len * 40
                want = c64 if dt[0] == "c" else a64[0]
                got = pywt.dwt(x, w, mode)
                for g, v in zip(got, want):
                    ctx.require(str(g.dtype) == dt, "dtype of dwt", got=g.dtype, want=dt)
                    ctx.close(g, v, tol, "dwt in another precision", mode=mode, n=n, dtype=dt)
                z = [(v if dt[0] == "c" else v.real).astype(dt) for v in y]
                g = pywt.idwt(z[0], z[1], w, mode)
                ctx.require(str(g.dtype) == dt, "dtype of idwt", got=g.dtype, want=dt)
                ctx.close(g, i64 if dt[0] == "c" else i64.real, tol, "idwt in another precision", mode=mode, n=n, dtype=dt)
                for i, (p, t) in enumerate(itertools.product("ad", (0, 2))):
                    g = pywt.upcoef(p, x, w, 1, t)
                    ctx.require(str(g.dtype) == dt, "dtype of upcoef")
                    ctx.close(g, u64[i][0] + (1j * u64[i][1] if dt[0] == "c" else 0), tol, "upcoef in another precision", n=n, dtype=dt)
                    d = pywt.downcoef(p, x, w, mode)
                    ctx.require(str(d.dtype) == dt, "dtype of downcoef")
                    ctx.close(d, want[i // 2], tol, "downcoef in another precision", n=n, dtype=dt)
        lev = pywt.swt_max_level(n) if case[2] == "swt" else 0
        for L in range(1, lev + 1):
            s64 = [pywt.swt(p, w, L) for p in (x64.real, x64.imag)]
            r64 = [pywt.iswt(c, w) for c in s64]
            for dt in ("float32", "complex64", "complex128"):
                x = (x64 if dt[0] == "c" else x64.real).astype(dt)
                tol = 64 * EPS[dt] * (np.abs(w.filter_bank).max() * 4) ** (2 * L) * w.dec_len * 40
                got = pywt.swt(x, w, L)
                ctx.states += 1
                ctx.transitions += 2
                for j in range(L):
                    for b in (0, 1):
                        v = s64[0][j][b] + (1j * s64[1][j][b] if dt[0] == "c" else 0)
                        ctx.require(str(got[j][b].dtype) == dt, "dtype of swt")
                        ctx.close(got[j][b], v, tol, "swt in another precision", n=n, dtype=dt)
                g = pywt.iswt(got, w)
                ctx.require(str(g.dtype) == dt, "dtype of iswt")
                ctx.close(g, r64[0] + (1j * r64[1] if dt[0] == "c" else 0), tol, "iswt in another precision", n=n, dtype=dt)
