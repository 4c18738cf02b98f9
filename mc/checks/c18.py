"""C18: threshold and threshold_firm against their pointwise formulas, element by element.

The outcome for an element may not depend on the other elements, so every array over a small alphabet of values (zero, both
signs, below, at and above every bound) is enumerated, and compared with a table of the formula evaluated per value."""
import itertools

import numpy as np
import pywt

import ref
from common import EPS, Quiet

ID = "C18"
BOUNDS = dict(
    quick="every array of length 0..4 over 7 real or 6 complex values x 9 thresholds or pairs of bounds x 7 mode names x 7 substitutes, float64; "
          "length 0..3 for float32, complex64, complex128, float16; all int8/uint8/bool values, integer limits of 8 dtypes; 25 shapes to 5-D, "
          "scalars, 3 memory orders; scaled by 2**-600..2**600",
    thorough="arrays of length 5 (float64), 4 (others)")
ASSUMPTIONS = ["thresholds and bounds are Python numbers when the precision of the output is checked (NumPy promotes with NumPy scalars)",
               "substitutes are representable in the dtype of integer data", "results of soft, garrote and firm are compared to a few "
               "ulp of the terms of the formula; hard, greater and less exactly"]
CHUNK = 1

REAL = [0.0, 0.5, -1.0, 1.0, -1.5, 3.0, -4.0]
CPLX = [0.0, 1.0 + 0j, 3 - 4j, -0.375 + 0.5j, 1.5j, -6 + 8j]
VALUES = [0, 0.5, 1, 1.5, 2.25, 3.0, 5, 10.0, 100]
SUBS = [0, 2, -1.5, 0.0, 7.0, 1, -1]
FIRM = list(itertools.combinations_with_replacement([0, 0.5, 1.0, 1.5, 3, 5.0], 2))
MODES = ["soft", "hard", "garrote", "garotte", "greater", "less"]


def rule(mode, x, v, sub):
    """(value, magnitude of the terms) for one element; exact arithmetic up to double rounding."""
    m = abs(x)
    if mode == "soft":
        if m < v:
            return sub, 0
        return (x / m * (m - v) if m else 0 * x), m
    if mode in ("garrote", "garotte"):
        if m < v:
            return sub, 0
        return (x / m * (m - v * (v / m)) if m else 0 * x), m
    if mode == "hard":
        return (sub, 0) if m < v else (x, 0)
    if mode == "greater":
        return (sub, 0) if x < v else (x, 0)
    return (sub, 0) if x > v else (x, 0)


def firm(x, lo, hi):
    m = abs(x)
    if m <= lo:
        return 0 * x, 0
    if m > hi:
        return x, 0
    if hi == lo:
        return 0 * x, 0
    return x / m * hi * ((m - lo) / (hi - lo)), m * (hi / (hi - lo))


def cases(tier, seed):
    for dt in ("float64", "float32", "complex128", "complex64", "float16"):
        for vi in range(len(VALUES)):
            yield ["seq", dt, vi]
        for fi in range(len(FIRM)):
            yield ["firm", dt, fi]
    for dt in ("int8", "uint8", "bool", "int16", "uint16", "int32", "uint32", "int64", "uint64", "longdouble"):
        yield ["ints", dt]
    yield ["shapes"]
    for dt in ("float64", "complex128", "float32"):
        yield ["scaled", dt]
    yield ["ties"]
    yield ["bad"]


def check(case, ctx):
    with Quiet():
        globals()["chk_" + case[0]](case, ctx)


def arrays(alpha, n, dt):
    """All arrays over alpha of length n, as (index, array)."""
    k = len(alpha)
    idx = np.stack(np.unravel_index(np.arange(k ** n), (k,) * n), axis=1) if n else np.zeros((1, 0), int)
    a = np.array(alpha).astype(dt)
    return idx, a[idx]


def table(ctx, alpha, dt, mode, v, sub):
    t = [rule(mode, a, v, sub) for a in np.array(alpha).astype(dt).tolist()]
    eps = 2.0 ** -10 if dt == "float16" else EPS[dt]
    return np.array([r[0] for r in t]), 8 * eps * np.array([r[1] for r in t], float) + (0 if mode in ("hard", "greater", "less") else 1e-300)


def cmp(ctx, got, want, tol, dt, msg, **kw):
    ctx.traces += 1
    ctx.transitions += 1
    ctx.outcome(got)
    if str(got.dtype) != dt:
        ctx.fail(msg + ": dtype", got=str(got.dtype), want=dt, **kw)
    if got.shape != want.shape:
        ctx.fail(msg + ": shape", got=got.shape, want=want.shape, **kw)
    if not (np.abs(got - want) <= tol).all():
        ctx.fail(msg, got=got, want=want, **kw)


def chk_seq(case, ctx):
    _, dt, vi = case
    v = VALUES[vi]
    cplx = dt.startswith("complex")
    alpha = CPLX if cplx else REAL
    top = (4 if dt == "float64" else 3) + (ctx.tier == "thorough")
    for n in range(0, top + 1):
        idx, arr = arrays(alpha, n, dt)
        for mode in MODES:
            if cplx and mode in ("greater", "less"):
                continue
            for sub in SUBS:
                want, tol = table(ctx, alpha, dt, mode, v, sub)
                W, T = want[idx], tol[idx]
                ctx.step(mode, dt, v, sub, n)
                for i in range(len(arr)):
                    ctx.states += 1
                    x = arr[i]
                    got = pywt.threshold(x, v, mode, sub)
                    cmp(ctx, got, W[i], T[i], dt, "threshold", mode=mode, v=v, sub=sub, x=x)
                    if np.may_share_memory(got, x):
                        ctx.fail("result shares memory with the data", mode=mode)
        if not (arr == np.array(alpha).astype(dt)[idx]).all():
            ctx.fail("data changed")
    # defaults
    x = np.array(alpha).astype(dt)
    want, tol = table(ctx, alpha, dt, "soft", v, 0)
    cmp(ctx, pywt.threshold(x, v), want, tol, dt, "default mode and substitute")
    cmp(ctx, pywt.threshold(x, value=v, substitute=0, mode="soft"), want, tol, dt, "keywords")
    # nan in one place does not disturb the others
    for mode in MODES:
        if cplx and mode in ("greater", "less"):
            continue
        want, tol = table(ctx, alpha, dt, mode, v, 2)
        for i in range(len(x)):
            y = x.copy()
            y[i] = np.nan
            got = pywt.threshold(y, v, mode, 2)
            ok = np.arange(len(x)) != i
            cmp(ctx, got[ok], want[ok], tol[ok], dt, "elements next to a nan", mode=mode)
        # a nan substitute appears exactly where something is substituted
        w2, _ = table(ctx, alpha, dt, mode, v, np.nan)
        got = pywt.threshold(x, v, mode, np.nan)
        ctx.require((np.isnan(got) == np.isnan(w2)).all(), "places substituted", mode=mode, v=v)


def chk_firm(case, ctx):
    _, dt, fi = case
    lo, hi = FIRM[fi]
    alpha = CPLX if dt.startswith("complex") else REAL
    eps = 2.0 ** -10 if dt == "float16" else EPS[dt]
    t = [firm(a, lo, hi) for a in np.array(alpha).astype(dt).tolist()]
    want, tol = np.array([r[0] for r in t]), 16 * eps * np.array([r[1] for r in t], float) + 1e-300
    top = (4 if dt == "float64" else 3) + (ctx.tier == "thorough")
    for n in range(0, top + 1):
        idx, arr = arrays(alpha, n, dt)
        W, T = want[idx], tol[idx]
        for i in range(len(arr)):
            ctx.states += 1
            got = pywt.threshold_firm(arr[i], lo, hi)
            cmp(ctx, got, W[i], T[i], dt, "threshold_firm", lo=lo, hi=hi, x=arr[i])
        if n > 1:
            got = pywt.threshold_firm(arr, lo, hi)
            cmp(ctx, got, W, T, dt, "threshold_firm of all rows at once", lo=lo, hi=hi)
            got = pywt.threshold_firm(arr.T, value_low=lo, value_high=hi)
            cmp(ctx, got, W.T, T.T, dt, "threshold_firm of all columns at once", lo=lo, hi=hi)
        if not (arr == np.array(alpha).astype(dt)[idx]).all():
            ctx.fail("data changed")


def chk_ints(case, ctx):
    """Every value of the 8-bit types, limits of the wider ones; integers are processed in double precision."""
    dt = case[1]
    if dt == "bool":
        vals = [False, True]
    elif dt == "longdouble":
        vals = REAL
    else:
        ii = np.iinfo(dt)
        vals = list(range(ii.min, ii.max + 1)) if ii.bits == 8 else sorted({ii.min, ii.min + 1, ii.max, ii.max - 1, 0, 1, 2, 5, 100} | (
            {-1, -2, -7} if ii.min else set()))
    x = np.array(vals, dt)
    for v in (0, 1, 0.5, 4, 5.5, 100, 127, 200, 1000, 3e9):
        for mode in MODES:
            for sub in (0, 3) if dt != "bool" else (0,):
                t = [rule(mode, int(a) if dt != "longdouble" else float(a), v, sub) for a in vals]
                want = np.array([r[0] for r in t], object)
                got = pywt.threshold(x, v, mode, sub)
                ctx.states += 1
                ctx.transitions += 1
                ctx.traces += len(vals)
                if mode in ("hard", "greater", "less"):
                    ctx.require([int(g) if dt != "longdouble" else float(g) for g in got.tolist()] == [r[0] for r in t], "threshold of integers",
                                mode=mode, v=v, sub=sub, dtype=dt, got=got, want=want)
                    ctx.require(dt == "bool" or got.dtype == dt, "dtype of the result", got=got.dtype, dtype=dt)
                else:
                    ctx.require(got.dtype == (np.longdouble if dt == "longdouble" else np.float64), "integers give double precision",
                                got=got.dtype, dtype=dt, mode=mode)
                    ctx.close(got.astype(float), want.astype(float), 1e-15 * (1 + np.array([float(r[1]) for r in t])), "threshold of integers",
                              mode=mode, v=v, sub=sub, dtype=dt)
    for lo, hi in itertools.combinations_with_replacement((0, 1, 2.5, 5, 100, 130, 300), 2):
        t = [firm(float(a), lo, hi) for a in vals]
        got = pywt.threshold_firm(x, lo, hi)
        ctx.states += 1
        ctx.transitions += 1
        ctx.close(got.astype(float), np.array([r[0] for r in t], float), 1e-14 * (1 + np.array([abs(float(a)) + r[1] for a, r in zip(vals, t)])),
                  "threshold_firm of integers", lo=lo, hi=hi, dtype=dt)


def chk_shapes(case, ctx):
    shapes = [(), (1,), (7,), (0,), (1000,), (4099,), (1, 1), (1, 7), (7, 1), (3, 4), (0, 3), (3, 0), (40, 50), (2, 3, 4), (1, 1, 5), (5, 1, 1), (4, 1, 3),
              (0, 2, 2), (10, 10, 10), (2, 2, 2, 2), (1, 3, 1, 3), (3, 1, 1, 2), (2, 0, 2, 2), (2, 1, 3, 1, 2), (1, 1, 1, 1, 1), (2, 2, 2, 2, 2), (65, 66), (2, 1, 2, 2, 1, 2, 3)]
    for dt in ("float64", "float32", "complex128", "complex64"):
        for sh in shapes:
            n = int(np.prod(sh))
            base = ref.dense(max(n, 1), ctx.seed)[:n] * 4
            if dt.startswith("complex"):
                base = base + 1j * ref.dense(max(n, 1), ctx.seed, salt=5)[:n]
            base = np.round(base * 16) / 16
            for layout in range(3):
                x = base.reshape(sh).astype(dt)
                if layout == 1 and sh:
                    x = np.asfortranarray(x)
                elif layout == 2:
                    big = np.full(tuple(2 * s for s in sh), 99, dt)
                    big[tuple(slice(0, None, 2) for s in sh)] = x
                    x = big[tuple(slice(0, None, 2) for s in sh)] if sh else x
                keep = x.copy()
                ctx.states += 1
                flat = x.ravel().tolist()
                for v in (0, 1, 2.5):
                    for mode in MODES:
                        if mode in ("greater", "less") and dt.startswith("complex"):
                            continue
                        for sub in (0, -9):
                            t = [rule(mode, a, v, sub) for a in flat]
                            got = pywt.threshold(x if sh else x[()], v, mode, sub)
                            cmp(ctx, got, np.array([r[0] for r in t]).reshape(sh), (1e-300 + 8 * EPS[dt] * np.array([r[1] for r in t], float)).reshape(sh),
                                dt, "threshold", shape=sh, mode=mode, v=v)
                    for hi in (v, v + 0.5, 5):
                        t = [firm(a, v, hi) for a in flat]
                        got = pywt.threshold_firm(x, v, hi)
                        cmp(ctx, got, np.array([r[0] for r in t]).reshape(sh), (1e-300 + 16 * EPS[dt] * np.array([r[1] for r in t], float)).reshape(sh),
                            dt, "threshold_firm", shape=sh, lo=v, hi=hi)
                        if n and np.may_share_memory(got, x):
                            ctx.fail("result shares memory with the data")
                ctx.require(np.array_equal(x, keep), "data changed")
                if layout == 0 and 0 < n < 100:
                    for mode in ("soft", "hard", "garrote"):
                        a, b = pywt.threshold(x, 1, mode), pywt.threshold(x.tolist(), 1, mode)
                        ctx.close(b, a, 1e-6, "data as nested lists", shape=sh, mode=mode)
    # Python scalars
    for x in (3, -3.0, 0, 0.0, 2 - 1j, True, np.float32(2.5)):
        for mode in ("soft", "hard", "garrote"):
            got = pywt.threshold(x, 1, mode)
            w, _ = rule(mode, complex(x) if isinstance(x, complex) else float(x), 1, 0)
            ctx.require(np.shape(got) == (), "shape of a scalar's result")
            ctx.close(got, np.asarray(w), 1e-6 if isinstance(x, np.float32) else 8e-15, "scalar data", mode=mode)
        got = pywt.threshold_firm(x, 0.5, 2)
        ctx.close(got, np.asarray(firm(complex(x) if isinstance(x, complex) else float(x), 0.5, 2)[0]), 1e-6 if isinstance(x, np.float32) else 1e-14, "scalar data, firm")


def chk_scaled(case, ctx):
    """The rules are equivariant under scaling by powers of two, over the whole normal range."""
    dt = case[1]
    top = 100 if dt == "float32" else 600
    alpha = np.array(CPLX if dt.startswith("complex") else REAL).astype(dt)
    for k in range(-top, top + 1, 4):
        s = 2.0 ** k
        x = (alpha * s).astype(dt)
        for v in VALUES:
            for mode in MODES:
                if mode in ("greater", "less") and dt.startswith("complex"):
                    continue
                for sub in (0, 3.0):
                    want, tol = table(ctx, alpha, dt, mode, v, sub)
                    ctx.states += 1
                    cmp(ctx, pywt.threshold(x, v * s, mode, sub * s), want * s, tol * s, dt, "scaled data", mode=mode, v=v, k=k)
        for lo, hi in FIRM:
            t = [firm(a, lo, hi) for a in alpha.tolist()]
            cmp(ctx, pywt.threshold_firm(x, lo * s, hi * s), np.array([r[0] for r in t]) * s, (16 * EPS[dt] * np.array([r[1] for r in t], float) + 1e-300) * s,
                dt, "scaled data, firm", lo=lo, hi=hi, k=k)


def chk_ties(case, ctx):
    """Data one ulp below, at and one ulp above thresholds that are not dyadic."""
    for v in [0.1, 0.3, 1 / 3, 0.7, 1.1, 2.3, np.pi, 123.456, 1e-10, 1e10 / 3]:
        near = [v]
        for _ in range(3):
            near = [np.nextafter(near[0], 0)] + near + [np.nextafter(near[-1], np.inf)]
        alpha = [float(a) for a in near] + [-float(a) for a in near] + [0.0, 2 * v, -2 * v, v / 2]
        x = np.array(alpha)
        for mode in MODES:
            for sub in (0, -5.0):
                want, tol = table(ctx, alpha, "float64", mode, v, sub)
                for y, W, T in ((x, want, tol), (x[::-1], want[::-1], tol[::-1])):
                    ctx.states += 1
                    cmp(ctx, pywt.threshold(y, v, mode, sub), W, T, "float64", "data next to the threshold", mode=mode, v=v, sub=sub)
                for i in range(len(x)):
                    cmp(ctx, pywt.threshold(x[i:i + 1], v, mode, sub), want[i:i + 1], tol[i:i + 1], "float64", "data next to the threshold",
                        mode=mode, v=v, sub=sub)
        for lo, hi in ((v, v), (v / 2, v), (v, 2 * v), (0, v)):
            t = [firm(a, lo, hi) for a in alpha]
            W, T = np.array([r[0] for r in t]), 16 * EPS["float64"] * np.array([r[1] for r in t], float) + 1e-300
            cmp(ctx, pywt.threshold_firm(x, lo, hi), W, T, "float64", "data next to a bound", lo=lo, hi=hi)
            for i in range(len(x)):
                cmp(ctx, pywt.threshold_firm(x[i:i + 1], lo, hi), W[i:i + 1], T[i:i + 1], "float64", "data next to a bound", lo=lo, hi=hi)


def chk_bad(case, ctx):
    x = np.array([1.0, -2.0, 0.0])
    for f in (lambda: pywt.threshold(x, 1, "SOFT"), lambda: pywt.threshold(x, 1, "firm"), lambda: pywt.threshold(x, 1, ""),
              lambda: pywt.threshold(x, 1, None), lambda: pywt.threshold(x + 0j, 1, "greater"), lambda: pywt.threshold(x + 0j, 1, "less"),
              lambda: pywt.threshold(x.astype("complex64"), 1, "less"), lambda: pywt.threshold([1j], 1, "greater"),
              lambda: pywt.threshold_firm(x, -1, 2), lambda: pywt.threshold_firm(x, 3, 2), lambda: pywt.threshold_firm(x, -1e-300, 2),
              lambda: pywt.threshold_firm(x, 1, np.nextafter(1, 0)), lambda: pywt.threshold_firm(x, -2, -1)):
        ctx.transitions += 1
        ctx.states += 1
        try:
            f()
        except ValueError:
            continue
        ctx.fail("invalid arguments accepted")
    ctx.require((x == [1, -2, 0]).all(), "data changed")
