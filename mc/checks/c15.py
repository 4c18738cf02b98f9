"""C15: pad against the definition of each mode over every small shape and pair of pad widths, and pad/dwt consistency."""
import itertools

import numpy as np
import pywt

import ref
from common import DISCRETE, DTYPES, MODES, bank, tol_for, wav

ID = "C15"
BOUNDS = dict(
    quick="9 modes x every length 1..9 x every (left, right) in 0..3N+2, unit vectors and dense data in 8 dtypes; 2-D shapes <= 3x4 "
          "with every per-axis pair in 0..4, 3-D with per-axis pairs in {0,1,3}; 6 larger shapes; every spelling of pad_widths; dwt(pad(x)) against "
          "dwt(x) for 30 wavelets x N in 1..12",
    thorough="lengths to 16, pads to 4N+2, 2-D shapes to 5x5, all 106 wavelets")
ASSUMPTIONS = ["reflect/antireflect of a single sample is constant (dwt rejects that case)"]


def cases(tier, seed):
    for n in range(1, 10 if tier == "quick" else 17):
        for mode in MODES:
            yield ["line", n, mode]
    S = [(a, b) for a in range(1, 4) for b in range(1, 5)] if tier == "quick" else list(
        itertools.product(range(1, 6), repeat=2))
    for s in S:
        for mode in MODES:
            yield ["nd", list(s), mode, [0, 1, 2, 3, 4]]
    for s in [(2, 3, 2), (1, 2, 3), (3, 1, 1), (2, 2, 2, 2)]:
        for mode in MODES:
            yield ["nd", list(s), mode, [0, 1, 3] if len(s) == 3 else [0, 2]]
    for mode in MODES:
        for s in ([1000], [4097], [33, 3, 65], [2, 1200], [1500, 3], [2, 1, 3, 1, 2]):
            yield ["long", s, mode]
    yield ["forms"]
    W = DISCRETE if tier == "thorough" else DISCRETE[::4] + ["haar", "db2", "db38", "dmey", "coif17"]
    for w in W:
        yield ["dwt", w]


def check(case, ctx):
    globals()["chk_" + case[0]](case, ctx)


def E_of(n, l, r, mode):
    """Matrix of the extension by l and r samples."""
    if mode == "periodization":
        m = n + n % 2
        return ref.ext_matrix(n, -l, m + r, mode)
    if n == 1 and mode in ("reflect", "antireflect"):
        return np.ones((l + 1 + r, 1))
    return ref.ext_matrix(n, -l, n + r, mode)


def chk_line(case, ctx):
    _, n, mode = case
    top = (3 if ctx.tier == "quick" else 4) * n + 2
    eye = np.eye(n)
    dense = ref.dense(n, ctx.seed) * 8
    ints = np.round(dense).astype(int)
    for l in range(top + 1):
        for r in range(top + 1):
            ctx.states += 1
            E = E_of(n, l, r, mode)
            mag = np.abs(E).sum(axis=1)
            for i in range(n):
                ctx.transitions += 1
                ctx.step("pad", n, l, r, mode, i)
                g = pywt.pad(eye[i], (l, r), mode)
                ctx.traces += 1
                if g.shape != E[:, i].shape or not np.abs(g - E[:, i]).max() <= 1e-13 * (1 + mag.max()):
                    ctx.fail("pad of a unit vector", got=g, want=E[:, i], left=l, right=r, unit=i)
            if (l + r) % 3 and l != r and l * r and l < top:
                continue
            for dt in DTYPES:
                x = (ref.dense(n, ctx.seed, dt[0] == "c") * 8).astype(dt)
                keep = x.copy()
                ctx.transitions += 1
                g = pywt.pad(x, (l, r), mode)
                ctx.require(g.dtype == dt, "pad dtype", got=g.dtype, want=dt)
                ctx.close(g, E @ x.astype("complex128" if dt[0] == "c" else float), tol_for(dt, 16 * mag), "pad " + dt, left=l,
                          right=r)
                ctx.require(np.array_equal(x, keep), "pad changed its input")
                if l + r:
                    g[...] = 77
                    ctx.require(np.array_equal(x, keep), "pad result shares the input's memory")
            for x in (ints, ints.astype("i2"), np.abs(ints).astype("u1") if mode not in (
                    "smooth", "antisymmetric", "antireflect") else ints, list(ints)):
                ctx.transitions += 1
                g = pywt.pad(x, (l, r), mode)
                ctx.require(g.dtype == np.asarray(x).dtype, "pad of integers: dtype")
                ctx.require(np.array_equal(g, np.round(E @ np.asarray(x))), "pad of integers", got=g, left=l, right=r)


def chk_nd(case, ctx):
    _, shape, mode, widths = case
    x = (ref.ndense(shape, ctx.seed) * 4)
    pairs = list(itertools.product(widths, repeat=2))
    for pw in itertools.product(pairs, repeat=len(shape)):
        ctx.states += 1
        ctx.transitions += 1
        want = x
        mag = np.abs(x).max()
        for ax, (l, r) in enumerate(pw):
            M = E_of(shape[ax], l, r, mode)
            want = ref.along(M, want, ax)
            mag = mag * max(1, np.abs(M).sum(axis=1).max())
        ctx.step("pad", shape, pw, mode)
        g = pywt.pad(x, pw, mode)
        ctx.close(g, want, tol_for("float64", 4 * mag), "pad, N-D", pads=pw)
        # the original data in place
        sl = tuple(slice(l, l + n) for (l, r), n in zip(pw, shape))
        ctx.require(np.array_equal(g[sl], x), "pad moved the original data", pads=pw)


def chk_long(case, ctx):
    _, shape, mode = case
    for k, dt in ((0, "float64"), (1, "complex64"), (2, "int64"), (3, "float32")):
        x = (ref.ndense(tuple(shape), ctx.seed, dt[0] == "c") * 8)
        x = (np.round(x) if dt == "int64" else x).astype(dt)
        for widths in ([(5, 300)], [(700, 0)], [(0, 1)], [(2 * shape[0] + 3, 1)] if len(shape) == 1 else [(3, 2), (0, 7), (9, 0)]):
            pw = [widths[(a + k) % len(widths)] for a in range(len(shape))]
            if np.prod([n + sum(w) for n, w in zip(shape, pw)]) > 3e6:
                continue
            ctx.states += 1
            ctx.transitions += 1
            want, mag = x.astype("complex128" if dt[0] == "c" else float), 8.0
            for ax, (l, r) in enumerate(pw):
                n = shape[ax]
                y = np.moveaxis(want, ax, 0)
                m = n + (n % 2 if mode == "periodization" else 0)
                rows = [0] * (l + m + r)
                for i in range(-l, m + r):
                    if mode == "periodization":
                        row = {min(i % (n + n % 2), n - 1): 1.0}
                    elif n == 1 and mode in ("reflect", "antireflect"):
                        row = {0: 1.0}
                    else:
                        row = ref.ext_row(i, n, mode)
                    rows[i + l] = sum((v * y[q] for q, v in row.items()), 0 * y[0])
                    mag = max(mag, 8 * sum(map(abs, row.values())))
                want = np.moveaxis(np.array(rows), 0, ax)
            ctx.step("pad", shape, pw, mode, dt)
            g = pywt.pad(x, pw, mode)
            ctx.require(g.dtype == dt, "pad dtype", got=g.dtype, want=dt)
            ctx.close(g, np.round(want) if dt == "int64" else want, tol_for("float64" if dt == "int64" else dt, 64 * mag ** len(shape)), "pad, long data", pads=pw, dtype=dt)


def chk_forms(case, ctx):
    """All accepted spellings of the pad widths mean what numpy.pad documents."""
    for shape in [(3,), (2, 3), (2, 1, 3)]:
        x = ref.ndense(shape, ctx.seed)
        for mode in MODES:
            for l, r in itertools.product(range(4), repeat=2):
                full = tuple((l, r) for _ in shape)
                want = pywt.pad(x, full, mode)
                for form in ([full] + ([l, (l,), np.int64(l), np.array([l]), float(l)] if l == r else []) +
                             [(l, r), [l, r], ((l, r),), np.array([l, r]), np.array(full), list(map(list, full)),
                              np.array(full, float)]):
                    ctx.states += 1
                    ctx.transitions += 1
                    ctx.traces += 1
                    g = pywt.pad(x, form, mode)
                    ctx.require(np.array_equal(g, want), "pad_widths form", form=repr(form), mode=mode, shape=shape)
                g = pywt.pad(x.tolist(), full, mode)
                ctx.require(np.array_equal(g, want), "pad of a list")
                for y in (np.asfortranarray(x), x[::-1][::-1], np.repeat(x, 2, axis=-1)[..., ::2]):
                    ctx.require(np.array_equal(pywt.pad(y, full, mode), want), "pad of another layout")


def chk_dwt(case, ctx):
    """Interior coefficients of the dwt of padded data are those of the dwt of the data."""
    w = case[1]
    b, F = bank(w), bank(w).f
    for n in range(1, 13):
        x = ref.dense(n, ctx.seed)
        for mode in MODES:
            if n == 1 and mode in ("reflect", "antireflect"):
                continue
            a, d = pywt.dwt(x, w, mode)
            P = 2 * F
            xp = pywt.pad(x, (P, P), mode)
            ctx.states += 1
            ctx.transitions += 1
            ap, dp = pywt.dwt(xp, w, "zero")
            # coefficient o of the data is coefficient o + P/2 of the padded data (periodization is delayed by F/2 - 1)
            s = P // 2 + ((F // 2 - 1) // 2 if mode == "periodization" else 0)
            if mode == "periodization" and (F // 2 - 1) % 2:
                # odd delay: pad one sample less on the left
                xp = pywt.pad(x, (P - 1, P), mode)
                ap, dp = pywt.dwt(xp, w, "zero")
                s = P // 2 + (F // 2 - 2) // 2
            k = len(a)
            big = ref.dwt_mag(n, b.dec_lo, mode).max() + ref.dwt_mag(n, b.dec_hi, mode).max()
            ctx.close(ap[s:s + k], a, tol_for("float64", 4 * big), "dwt of padded data, approximation", n=n, mode=mode)
            ctx.close(dp[s:s + k], d, tol_for("float64", 4 * big), "dwt of padded data, detail", n=n, mode=mode)
