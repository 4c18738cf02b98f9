"""C14: downcoef/upcoef against the iterated reference transforms over wavelets x modes x lengths x levels x take x dtype."""
import numpy as np

import ref
from common import CUSTOM, DISCRETE, DTYPES, MODES, bank, tol_for, wav, api as pywt

ID = "C14"
BOUNDS = dict(
    quick="106 wavelets and 7 custom banks x 9 modes x both parts: downcoef of all unit vectors for N in 1..8 and of dense vectors for N around F-1, F, "
          "2F, 4F+1 at levels 1..max+2 (<=5) in 4 dtypes; upcoef of all unit vectors for 1..8 coefficients at levels 1..4, every "
          "take 0..len+2 at levels 1, 2 and boundary values of take above",
    thorough="N in 1..2F+3, every take at levels 1..3, levels to 6")
ASSUMPTIONS = ["taps are read from the Wavelet object (C12 decides them)"]


def lens(F, tier):
    if tier == "thorough":
        return list(range(1, min(2 * F + 4, 90))) + [4 * F + 1]
    return sorted(set(range(1, 9)) | {F - 1, F, F + 1, 2 * F - 1, 2 * F, 4 * F + 1} - {0})


def cases(tier, seed):
    for w in sorted(DISCRETE + CUSTOM, key=lambda w: -wav(w).dec_len):
        L = lens(wav(w).dec_len, tier)
        for i in range(0, len(L), 5):
            yield ["down", w, L[i:i + 5]]
        for n in (range(1, 9) if tier == "quick" else range(1, 17)):
            yield ["up", w, n]
    for w in ("haar", "db3", "bior3.5", "rbio2.4"):
        for n in (1000, 4097, 65536, 100003):
            yield ["long", w, n]
    yield ["forms"]


def check(case, ctx):
    globals()["chk_" + case[0]](case, ctx)


def ok(n, mode):
    return n > 1 or mode not in ("reflect", "antireflect")


def chk_down(case, ctx):
    _, w, ns = case
    b, W = bank(w), wav(w)
    F = b.f
    for n in ns:
        for mode in MODES:
            M = np.eye(n)
            mag = np.ones(1)
            cur = n
            top = min(5 if ctx.tier == "quick" else 6, ref.max_level(n, F) + 2)
            for level in range(1, top + 1):
                if not ok(cur, mode):
                    for part in "ad":
                        ctx.transitions += 1
                        try:
                            pywt.downcoef(part, np.ones(n), w, mode, level)
                        except ValueError:
                            continue
                        ctx.fail("downcoef of length-1 data in [anti]reflect mode does not raise", n=n, mode=mode, lev=level)
                    break
                ctx.states += 1
                lo, hi = b.dec(cur, mode)
                A, D = lo @ M, hi @ M
                # (the implementation sums filter x extension terms, which may cancel in the matrix)
                magl, magh = (ref.dwt_mag(cur, f, mode) * mag.max() for f in (b.dec_lo, b.dec_hi))
                for part, R, m in (("a", A, magl), ("d", D, magh)):
                    rows = m + 1e-20
                    if n <= 8 or ctx.tier == "thorough":
                        got = np.empty(R.shape)
                        for i in range(n):
                            e = np.zeros(n)
                            e[i] = 1
                            ctx.transitions += 1
                            ctx.step("downcoef", part, w, n, mode, level)
                            g = pywt.downcoef(part, e, W, mode, level)
                            if g.shape != (R.shape[0],) or g.dtype != np.float64:
                                ctx.fail("downcoef shape or dtype", got=[g.shape, g.dtype], want=R.shape[0], n=n, mode=mode)
                            got[:, i] = g
                        ctx.close(got, R, tol_for("float64", level * rows)[:, None], "downcoef, unit vectors", part=part, n=n,
                                  mode=mode, lev=level)
                    for dt in DTYPES:
                        x = ref.dense(n, ctx.seed, dt[0] == "c", salt=n).astype(dt)
                        ctx.transitions += 1
                        ctx.step("downcoef", part, w, n, mode, level, dt)
                        g = pywt.downcoef(part, x, w, mode=mode, level=level)
                        ctx.require(g.dtype == dt and type(g) is np.ndarray, "downcoef dtype", got=g.dtype, want=dt)
                        ctx.close(g, R @ x.astype("complex128" if dt[0] == "c" else "float64"),
                                  tol_for(dt, 2 * level * rows), "downcoef " + dt, part=part, n=n, mode=mode, lev=level)
                    if level == 1:
                        i = 0 if part == "a" else 1
                        x = ref.dense(n, ctx.seed)
                        ctx.close(pywt.downcoef(part, x, w, mode), pywt.dwt(x, w, mode)[i], tol_for("float64", rows),
                                  "downcoef default level is 1", part=part, mode=mode)
                M, mag, cur = A, magl, len(A)


def cut(v, take):
    if 0 < take < len(v):
        left = (len(v) - take) // 2
        return v[left:left + take]
    return v


def chk_up(case, ctx):
    _, w, n = case
    b, W = bank(w), wav(w)
    F = b.f
    full = ctx.tier == "thorough"
    for part in "ad":
        M = np.eye(n)
        mag = np.eye(n)
        top = 4 if (F <= 40 or full) else 3
        for level in range(1, top + 1):
            U = ref.upcoef_matrix(M.shape[0], b.rec_lo if part == "a" or level > 1 else b.rec_hi)
            M = U @ M
            mag = np.abs(U) @ mag
            ctx.states += 1
            R = M.shape[0]
            rows = np.maximum(mag.sum(axis=1), 1e-20)
            got = np.empty((R, n))
            for i in range(n):
                e = np.zeros(n)
                e[i] = 1
                ctx.transitions += 1
                ctx.step("upcoef", part, w, n, level)
                g = pywt.upcoef(part, e, W, level)
                if g.shape != (R,) or g.dtype != np.float64:
                    ctx.fail("upcoef shape or dtype", got=[g.shape, g.dtype], want=R, part=part, lev=level)
                got[:, i] = g
            ctx.close(got, M, tol_for("float64", level * rows)[:, None], "upcoef, unit vectors", part=part, lev=level)
            x = ref.dense(n, ctx.seed, salt=n)
            want = M @ x
            if level <= (3 if full else 2):
                takes = range(0, R + 3)
            else:
                takes = sorted({0, 1, 2, 3, n, 2 * n, R // 2, R // 2 + 1, R - 3, R - 2, R - 1, R, R + 1, R + 7, 10 ** 9})
            takes = [t for t in takes if t >= 0]
            tol = tol_for("float64", 2 * level * rows)
            for t in takes:
                ctx.transitions += 1
                ctx.step("upcoef", part, w, n, level, "take", t)
                g = pywt.upcoef(part, x, W, level, t)
                ctx.close(g, cut(want, t), cut(tol, t), "upcoef take", part=part, lev=level, take=t)
            for dt in DTYPES:
                x = ref.dense(n, ctx.seed, dt[0] == "c", salt=n).astype(dt)
                want2 = M @ x.astype("complex128" if dt[0] == "c" else "float64")
                for t in (0, n, 2 * n + 1):
                    ctx.transitions += 1
                    g = pywt.upcoef(part, x, w, level=level, take=t)
                    ctx.require(g.dtype == dt and type(g) is np.ndarray, "upcoef dtype", got=g.dtype, want=dt)
                    ctx.close(g, cut(want2, t), cut(tol_for(dt, 2 * level * rows), t), "upcoef " + dt, part=part, lev=level,
                              take=t)
            if level == 1:
                ctx.close(pywt.upcoef(part, x, w), cut(want2, 0), tol_for(dt, 2 * rows), "upcoef defaults", part=part)


def chk_long(case, ctx):
    _, w, n = case
    b = bank(w)
    x = ref.dense(n, ctx.seed)
    cum = np.abs(b.dec_lo).sum()
    for mode in MODES:
        a = x
        for level in (1, 2, 3):
            ctx.states += 1
            d = ref.dwt_direct(a, b.dec_hi, mode)
            a = ref.dwt_direct(a, b.dec_lo, mode)
            amp = 50.0 if mode in ("smooth", "antireflect") else 1.0
            tol = tol_for("float64", amp * cum ** level * 4)
            for part, want in (("a", a), ("d", d)):
                ctx.transitions += 1
                ctx.close(pywt.downcoef(part, x, w, mode, level), want, tol, "downcoef, long data", part=part, mode=mode,
                          lev=level)
    v = {"a": x, "d": x}
    for level in (1, 2):
        for part in "ad":
            up = np.zeros(2 * len(v[part]) - 1)
            up[::2] = v[part]
            v[part] = np.convolve(up, b.rec_hi if part == "d" and level == 1 else b.rec_lo)
            # the full synthesis has length 2n + F - 2
            ctx.transitions += 1
            ctx.states += 1
            tol = tol_for("float64", 4 * np.abs(b.rec_lo).sum() ** 2 * np.abs(b.rec_hi).sum())
            ctx.close(pywt.upcoef(part, x, w, level), v[part], tol, "upcoef, long data", part=part, lev=level)
            ctx.close(pywt.upcoef(part, x, w, level, take=n), cut(v[part], n), tol, "upcoef, long data, take", part=part)


def chk_forms(case, ctx):
    """Containers, wavelet and mode spellings, integer kinds of level and take."""
    x = [1, 2, 5, 1, 8, 4, 7, 6]
    for w in ("haar", "db2", "bior1.3"):
        for part in "ad":
            for mode in MODES:
                for level in (1, 2):
                    want = pywt.downcoef(part, np.array(x, float), wav(w), mode, level)
                    for xx in (x, tuple(x), np.array(x), np.array(x, "i1"), np.array(x, "u2"), np.array(x, ">f8"),
                               np.array(x, bool).astype(float) * np.array(x), np.repeat(np.array(x, float), 2)[::2]):
                        for ww in (w, w.upper(), wav(w)):
                            for mm in (mode, pywt.Modes.from_object(mode)):
                                for lv in (level, np.int64(level), np.int8(level)):
                                    ctx.transitions += 1
                                    g = pywt.downcoef(part, xx, ww, mm, lv)
                                    ctx.require(g.dtype == np.float64 and np.array_equal(g, want), "downcoef input forms")
            for level in (1, 2, 3):
                for take in (0, 5, 8):
                    want = pywt.upcoef(part, np.array(x, float), wav(w), level, take)
                    for xx in (x, tuple(x), np.array(x), np.array(x, "i1"), np.array(x, ">f8"), np.repeat(np.array(x, float), 2)[::2]):
                        for ww in (w, w.upper(), wav(w)):
                            ctx.transitions += 1
                            ctx.states += 1
                            g = pywt.upcoef(part, xx, ww, np.int32(level), np.int64(take))
                            ctx.require(g.dtype == np.float64 and np.array_equal(g, want), "upcoef input forms")
                            ctx.traces += 1
