"""C07: coefficient packing. Every coefficient is given its own value, so a lost, duplicated or misplaced one is seen."""
import itertools

import numpy as np

import ref
from common import CUSTOM, DISCRETE, MODES, bank, wav, api as pywt
from checks.c03 import levels_ok

ID = "C07"
BOUNDS = dict(
    quick="1-D lengths 1..24, 2-D shapes {1..7,10,16}^2, 8 3-D, 2 4-D, 12 large shapes; every ordered axis tuple; levels 0..max+1 and "
          "default; formats wavedec/wavedec2/wavedecn/swt/swt2/swtn; padding 0, 7.5, nan, None; float64, complex64; "
          "8 wavelets x 9 modes; wavedecn_shapes for 106 wavelets and 7 custom banks and per-axis wavelets/modes",
    thorough="2-D shapes {1..13}^2, 1-D lengths 1..60")
ASSUMPTIONS = []
CHUNK = 2


BIG = [((1025, 3), (0, 1)), ((3, 2049), (1, 0)), ((130, 131), (1, 0)), ((30, 31, 32), (2, 0, 1)), ((65, 4, 70), (0, 2)), ((9, 10, 7, 8), (3, 1, 0, 2)),
       ((4, 3, 2, 3, 4), (4, 0, 1, 3)), ((3, 3, 3, 3, 3, 3), (0, 1, 2, 3, 4, 5)), ((20001,), (0,)), ((512,), (0,)), ((64, 64), (0, 1)), ((16, 16, 16), (0, 1, 2))]


def cases(tier, seed):
    for i in range(len(BIG)):
        for w in ("haar", "db3"):
            yield ["big", i, w]
    side = [1, 2, 3, 4, 5, 6, 7, 10, 16] if tier == "quick" else list(range(1, 14)) + [16]
    for s in [(5, 4, 3, 6), (2, 6, 1, 7)]:
        yield ["pack", list(s), "haar"]
    for s in [(4, 5, 6), (8, 3, 5), (2, 9, 4), (1, 6, 7), (5, 5, 5), (8, 8, 2), (3, 12, 5), (4, 8, 8)]:
        for w in ("haar", "db2", "bior2.2"):
            yield ["pack", list(s), w]
    for s in itertools.product(side, repeat=2):
        for w in ("haar", "db2", "bior1.3", "sym4"):
            yield ["pack", list(s), w]
    for n in range(1, 25 if tier == "quick" else 61):
        for w in ("haar", "db2", "db3", "bior2.4", "rbio3.1"):
            yield ["pack", [n], w]
    for s in [(8, 8), (16, 4), (8, 4, 4), (4,), (16,), (4, 8, 2)]:
        for w in ("haar", "db2"):
            yield ["swt", list(s), w]
    for i in range(0, len(DISCRETE + CUSTOM), 3):
        yield ["shapes", (DISCRETE + CUSTOM)[i:i + 3]]


def number(c, start, dt):
    """replace the values of coefficient list c (arrays, tuples, dicts) by distinct ones"""
    def f(v):
        nonlocal start
        out = np.arange(start, start + v.size, dtype=float).reshape(v.shape)
        start += v.size
        return (out * (1 - 2j)).astype(dt) if np.dtype(dt).kind == "c" else out.astype(dt)
    out = []
    for v in c:
        if isinstance(v, dict):
            out.append({k: f(q) for k, q in v.items()})
        elif isinstance(v, tuple):
            out.append(tuple(f(q) for q in v))
        else:
            out.append(f(v))
    return out


def as_dict(d):
    if isinstance(d, dict):
        return d
    if isinstance(d, tuple):
        return dict(zip(("da", "ad", "dd"), d))
    return {"d": d}


def equal(a, b, dt=True):
    if isinstance(a, dict):
        return isinstance(b, dict) and sorted(a) == sorted(b) and all(equal(a[k], b[k], dt) for k in a)
    if isinstance(a, (tuple, list)):
        return type(a) is type(b) and len(a) == len(b) and all(equal(x, y, dt) for x, y in zip(a, b))
    return isinstance(b, np.ndarray) and (a.dtype == b.dtype or not dt) and np.array_equal(a, b)


def packed(ctx, c, axes, fmt, give_axes, dt, kw):
    nd = c[0].ndim
    ctx.states += 1
    ctx.transitions += 4
    ctx.step("coeffs_to_array", fmt, kw)
    c = number(c, 1, dt)
    copy = number(c, 1, dt)
    ax = tuple(axes) if give_axes else None
    # expected layout
    size = list(c[0].shape)
    want = [tuple((0, s) for s in size)]
    for d in c[1:]:
        d = as_dict(d)
        e = {}
        for k, v in d.items():
            e[k] = [(None if i not in axes else (0, v.shape[i])) for i in range(nd)]
            for letter, a in zip(k, axes):
                e[k][a] = (0, v.shape[a]) if letter == "a" else (size[a], size[a] + v.shape[a])
        want.append(e)
        for a in axes:
            size[a] += next(iter(d.values())).shape[a]
    ncoef = c[0].size + sum(v.size for d in c[1:] for v in as_dict(d).values())
    tight = ncoef == int(np.prod(size))
    for padding in (0, 7.5, np.nan, None):
        try:
            arr, sl = pywt.coeffs_to_array(c, padding, ax) if len(c) > 1 or padding is not None else \
                pywt.coeffs_to_array(c, padding=padding, axes=ax)
        except ValueError:
            ctx.require(padding is None and not tight and len(c) > 1, "coeffs_to_array raised", padding=padding, **kw)
            continue
        ctx.require(padding is not None or tight or len(c) == 1, "padding=None with a loose packing", **kw)
        ctx.same(tuple(arr.shape), tuple(size), "packed shape", **kw)
        ctx.require(arr.dtype == np.dtype(dt), "packed dtype", got=arr.dtype, **kw)
        # exact layout
        model = np.full(size, np.nan if padding is None else padding, dtype=dt)
        seen = np.zeros(size, int)
        full = lambda e: tuple(slice(None) if p is None else slice(*p) for p in e)
        model[full(want[0])] = c[0]
        seen[full(want[0])] += 1
        for d, e in zip(c[1:], want[1:]):
            for k, v in as_dict(d).items():
                model[full(e[k])] = v
                seen[full(e[k])] += 1
        assert seen.max() <= 1
        ctx.require(np.array_equal(arr, model, equal_nan=True), "packed layout", padding=padding, got=arr, want=model, **kw)
        norm = lambda s, n: (s.start or 0, n if s.stop is None else int(s.stop))
        for i, (e, g) in enumerate(zip(want, sl)):
            items = [("", e, g)] if i == 0 else [(k, e[k], g[k]) for k in e]
            if i:
                ctx.same(sorted(g), sorted(e), "slice keys", **kw)
            for k, ee, gg in items:
                ctx.same([norm(s, size[q]) for q, s in enumerate(gg)],
                         [(0, size[q]) if p is None else p for q, p in enumerate(ee)], "slices", key=k, pos=i, **kw)
        ctx.same(len(sl), len(want), "number of slices", **kw)
        back = pywt.array_to_coeffs(arr, sl, output_format=fmt)
        ctx.require(equal(back, c), "array_to_coeffs(coeffs_to_array(c))", fmt=fmt, **kw)
        if arr.size <= 64 and not np.isnan(arr).any():
            ctx.transitions += 2
            for other in (arr.tolist(), np.repeat(arr, 2, axis=-1)[..., ::2]):
                back = pywt.array_to_coeffs(other, sl, output_format=fmt)
                ctx.require(equal(back, c, not isinstance(other, list)), "array_to_coeffs of an array_like", fmt=fmt, form=type(other).__name__, **kw)
    ravel(ctx, c, fmt, ax, dt, kw)
    ctx.require(equal(c, copy), "coefficients unchanged by packing", **kw)


def ravel(ctx, c, fmt, ax, dt, kw):
    ctx.transitions += 2
    ncoef = c[0].size + sum(v.size for d in c[1:] for v in as_dict(d).values())
    arr, sl, sh = pywt.ravel_coeffs(c, axes=ax)
    ctx.same(arr.shape, (ncoef,), "ravelled shape", **kw)
    ctx.require(arr.dtype == np.dtype(dt), "ravelled dtype", got=arr.dtype, **kw)
    # every value exactly once (they are 1..ncoef)
    ctx.require(np.array_equal(np.sort(arr.real), np.arange(1, ncoef + 1)), "every value once", **kw)
    pos, seen = 0, []
    ctx.require(np.array_equal(arr[sl[0]].reshape(sh[0]), c[0]), "ravelled approximation", **kw)
    seen.append((sl[0].start or 0, sl[0].stop))
    for d, s, h in zip(c[1:], sl[1:], sh[1:]):
        for k, v in as_dict(d).items():
            ctx.require(np.array_equal(arr[s[k]].reshape(h[k]), v), "ravelled detail", key=k, **kw)
            seen.append((int(s[k].start), int(s[k].stop)))
    seen.sort()
    ctx.require(seen[0][0] == 0 and seen[-1][1] == ncoef and
                all(a[1] == b[0] for a, b in zip(seen, seen[1:])), "ravelled slices tile the array", got=seen, **kw)
    back = pywt.unravel_coeffs(arr, sl, sh, output_format=fmt)
    ctx.require(equal(back, c), "unravel_coeffs(ravel_coeffs(c))", fmt=fmt, **kw)
    if arr.size <= 64:
        ctx.transitions += 2
        for other in (arr.tolist(), np.repeat(arr, 2)[::2]):
            back = pywt.unravel_coeffs(other, sl, sh, output_format=fmt)
            ctx.require(equal(back, c, not isinstance(other, list)), "unravel_coeffs of an array_like", fmt=fmt, form=type(other).__name__, **kw)


def chk_big(ctx, i, w):
    chk_pack(ctx, BIG[i][0], w, BIG[i][1])


def chk_pack(ctx, shape, w, only=None):
    shape = tuple(shape)
    nd = len(shape)
    x = ref.ndense(shape, ctx.seed)
    W, b = wav(w), bank(w)
    for r in range(1, nd + 1):
        for axes in itertools.permutations(range(nd), r):
            top = min(ref.max_level(shape[a], b.f) for a in axes)
            if only and only != axes:
                continue
            for level in (None, 1, 2) if only else [None] + list(range(top + 2)):
                for j, mode in enumerate(MODES):
                    if (nd > 2 or only) and j not in (2, 5):
                        continue
                    if not all(levels_ok(shape[a], b.f, mode, top if level is None else level) for a in axes):
                        continue
                    kw = dict(shape=shape, w=w, axes=axes, level=level, mode=mode)
                    c = pywt.wavedecn(x, W, mode, level, axes)
                    sh = pywt.wavedecn_shapes(shape, W, mode, level, axes)
                    real = [c[0].shape] + [{k: v.shape for k, v in d.items()} for d in c[1:]]
                    ctx.same([tuple(sh[0])] + [{k: tuple(d[k]) for k in sorted(d)} for d in sh[1:]],
                             [real[0]] + [{k: d[k] for k in sorted(d)} for d in real[1:]], "wavedecn_shapes", **kw)
                    total = c[0].size + sum(v.size for d in c[1:] for v in d.values())
                    ctx.same(int(pywt.wavedecn_size(sh)), total, "wavedecn_size(shapes)", **kw)
                    ctx.same(int(pywt.wavedecn_size(c)), total, "wavedecn_size(coeffs)", **kw)
                    dt = "complex64" if j % 3 == 0 else "float64"
                    packed(ctx, c, axes, "wavedecn", True, dt, kw)
                    if axes == tuple(range(nd)):
                        packed(ctx, c, axes, "wavedecn", False, dt, kw)
                    if r == 2:
                        c2 = pywt.wavedec2(x, W, mode, level, axes)
                        packed(ctx, c2, axes, "wavedec2", True, dt, kw)
                        if nd == 2 and axes == (0, 1):
                            packed(ctx, c2, axes, "wavedec2", False, dt, kw)
                    if nd == 1:
                        c1 = pywt.wavedec(x, W, mode, level)
                        packed(ctx, c1, (0,), "wavedec", False, dt, kw)
                        packed(ctx, c1, (0,), "wavedec", True, dt, kw)


def chk_swt(ctx, shape, w):
    shape = tuple(shape)
    nd = len(shape)
    x = ref.ndense(shape, ctx.seed)
    for r in range(1, nd + 1):
        for axes in itertools.permutations(range(nd), r):
            top = min(pywt.swt_max_level(shape[a]) for a in axes)
            for level in range(1, top + 1):
                kw = dict(shape=shape, w=w, axes=axes, level=level)
                for dt in ("float64", "complex64"):
                    ctx.states += 1
                    todo = [("swtn", pywt.swtn(x, w, level, axes=axes, trim_approx=True))]
                    if r == 2:
                        todo.append(("swt2", pywt.swt2(x, w, level, axes=axes, trim_approx=True)))
                    if nd == 1:
                        todo.append(("swt", pywt.swt(x, w, level, trim_approx=True)))
                    for fmt, c in todo:
                        ctx.step("ravel", fmt, kw)
                        c = number(c, 1, dt)
                        ravel(ctx, c, fmt, axes, dt, kw)
                        if axes == tuple(range(nd)):
                            ravel(ctx, c, fmt, None, dt, kw)


def chk_shapes(ctx, ws):
    for w in ws:
        F = wav(w).dec_len
        for shape in [(2 * F - 1, 7), (5, 2 * F)] + ([(F, 2 * F - 2, 3)] if F <= 14 else []):
            nd = len(shape)
            for axes in [None] + list(itertools.permutations(range(nd), 2)) + [(-1,), (0,), (-1, 0)]:
                for other in (w, "haar"):
                    for j, mode in enumerate(MODES):
                        if nd == 3 and j not in (2, 5, 8):
                            continue
                        na = nd if axes is None else len(axes)
                        W = w if other == w else tuple([w, other, "db2"][:na])
                        per = "periodization" if j != 5 else "smooth"
                        Ms = [mode, [mode, per, mode][:na], tuple([per, mode, MODES[(j + 4) % 9]][:na])]
                        for level, M in itertools.product((None, 0, 1, 2), Ms if na > 1 else Ms[:1]):
                            ctx.states += 1
                            ctx.transitions += 2
                            ctx.step("wavedecn_shapes", W, shape, M, level, axes)
                            x = np.zeros(shape)
                            try:
                                c = pywt.wavedecn(x, W, M, level, axes)
                            except ValueError:
                                continue
                            sh = pywt.wavedecn_shapes(shape, W, M, level, axes)
                            ctx.same([tuple(sh[0])] + [{k: tuple(d[k]) for k in sorted(d)} for d in sh[1:]],
                                     [c[0].shape] + [{k: d[k].shape for k in sorted(d)} for d in c[1:]],
                                     "wavedecn_shapes", w=W, shape=shape, mode=M, level=level, axes=axes)


def check(case, ctx):
    globals()["chk_" + case[0]](ctx, *case[1:])
