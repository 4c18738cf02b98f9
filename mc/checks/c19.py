"""C19: every call of the catalogue with every layout of its arrays; arguments unchanged, results not aliased.

Layouts: memory order (every permutation of axes) and strides (positive, negative, with gaps, zero) x byte order x alignment x
write flag, for all arrays of a call together and for each array alone; and nested lists or tuples. The whole buffer that a view
lies in, and the identity of every element of every list, tuple and dict, are compared before and after."""
import itertools

import numpy as np
import pywt

import ops
import ref
from common import EPS, Quiet

ID = "C19"
BOUNDS = dict(
    quick="667 calls on small and 346 on larger arrays (44 public functions and classes on 1-D to 4-D shapes) x 4 dtypes x all permutations of axes, gaps, reversed axes "
          "x {native, swapped} x {aligned, not} x {writable, read-only} for all arrays together (every combination for 2 dtypes, 3 for others) and each of the first 4 arrays alone; "
          "broadcast axes; 3 integer dtypes; lists and tuples; all pairs of arrays of results and arguments",
    thorough="every combination for 4 dtypes, each of the first 8 arrays alone, and every pair of layouts for the first two arrays")
ASSUMPTIONS = ["coefficient sequences keep the container types the functions document (list or tuple of arrays, dict)",
               "array_to_coeffs, unravel_coeffs and FswavedecnResult return views by design and are not transforms"]
CHUNK = 1


def strided(a, kind, arg, swap, mis, ro):
    """(view with a's values, its whole buffer)."""
    dt = a.dtype.newbyteorder() if swap else a.dtype
    n = a.ndim
    if kind == "perm":
        order = arg
        shape = [a.shape[i] for i in order]
        steps = [1] * n
        off = [0] * n
    else:
        order = list(range(n))
        shape = list(a.shape)
        steps, off = arg
    big = [max(1, o + s * abs(st)) for s, st, o in zip(shape, steps, off)]
    count = int(np.prod(big, dtype=int))
    raw = np.full(count * dt.itemsize + 16, 0x5A, np.uint8)
    start = (-raw.ctypes.data) % 16
    start = start + 1 if mis else start
    buf = raw[start:start + count * dt.itemsize].view(np.uint8)
    arr = np.ndarray(big, dt, buffer=buf.data)
    v = arr
    sl = []
    for s, st, o in zip(shape, steps, off):
        k = slice(o, o + s * abs(st), abs(st))
        sl.append(k)
    v = arr[tuple(sl)]
    if v.shape != tuple(shape):
        raise AssertionError((v.shape, shape))
    v = v[tuple(slice(None, None, -1) if st < 0 else slice(None) for st in steps)]
    if kind == "perm":
        inv = np.argsort(order)
        v = v.transpose(inv)
    v[...] = a
    if ro:
        v.flags.writeable = False
    return v, raw


def layouts(ndim):
    out = []
    rest = tuple(range(4, ndim))
    for p in itertools.permutations(range(ndim)) if ndim < 4 else [tuple(range(ndim)), tuple(range(ndim))[::-1], rest + (1, 3, 0, 2), (0, 1, 3, 2) + rest]:
        out.append(("perm", list(p)))
    one, zero = [1] * ndim, [0] * ndim
    out.append(("step", ([2] * ndim, zero)))
    out.append(("step", ([3] * ndim, [1] * ndim)))
    out.append(("step", ([-1] * ndim, zero)))
    out.append(("step", ([-2] * ndim, [1] * ndim)))
    if ndim > 1:
        for ax in range(ndim):
            out.append(("step", ([-1 if i == ax else 1 for i in range(ndim)], zero)))
            out.append(("step", ([2 if i == ax else 1 for i in range(ndim)], zero)))
    return out


FLAGS = list(itertools.product((0, 1), repeat=3))


def cases(tier, seed):
    for i, o in enumerate(ops.catalog()):
        yield [i, o.name]
    for i, o in enumerate(ops.catalog(True)):
        yield [i, o.name, "big"]
    yield ["banks"]
    yield ["params"]


def check(case, ctx):
    with Quiet():
        if case[0] in ("banks", "params"):
            return globals()["chk_" + case[0]](case, ctx)
        op = ops.catalog(len(case) == 3)[case[0]]
        assert op.name == case[1]
        chk_op(op, ctx, len(case) == 3)


def ids(s):
    if isinstance(s, (list, tuple)):
        return (id(s), tuple(ids(v) for v in s))
    if isinstance(s, dict):
        return (id(s), tuple((k, ids(v)) for k, v in s.items()))
    return id(s)


def compare(ctx, op, got, want, dt, what, **kw):
    ctx.traces += 1
    a, b = ops.skeleton(got), ops.skeleton(want)
    if a != b:
        ctx.fail("result differs in structure, shape or dtype", op=op.name, layout=what, got=a, want=b, **kw)
    for (p, x), (_, y) in zip(ops.leaves(got), ops.leaves(want)):
        if x.size and not np.array_equal(x, y):
            e = EPS.get(str(x.dtype.newbyteorder("=")), 0)
            if not (np.abs(x - y) <= 16 * e * (np.abs(y).max() + 1)).all():
                ctx.fail("result depends on the layout", op=op.name, layout=what, path=p, got=x, want=y, **kw)


def runop(ctx, op, args, bufs, what):
    """Runs op, requiring that nothing of args changes."""
    ctx.step(op.name, what)
    ctx.transitions += 1
    before = [(b, b.copy()) for b in bufs]
    ident = ids(args)
    meta = [(a.shape, a.strides, a.dtype, a.flags.writeable) for _, a in ops.leaves(args)]
    res = op.call(args)
    for b, c in before:
        if not np.array_equal(b, c):
            ctx.fail("argument array (or memory next to it) modified", op=op.name, layout=what)
    if ids(args) != ident:
        ctx.fail("argument container modified", op=op.name, layout=what)
    if [(a.shape, a.strides, a.dtype, a.flags.writeable) for _, a in ops.leaves(args)] != meta:
        ctx.fail("shape, strides or flags of an argument modified", op=op.name, layout=what)
    return res


def alias(ctx, op, args, res):
    if not op.fresh:
        return
    out = [(p, a) for p, a in ops.leaves(res) if a.size]
    for (p, a) in out:
        for q, b in ops.leaves(args):
            if np.shares_memory(a, b):
                ctx.fail("result shares memory with an argument", op=op.name, result=p, argument=q)
    for (p, a), (q, b) in itertools.combinations(out, 2):
        if np.may_share_memory(a, b) and np.shares_memory(a, b):
            ctx.fail("two results share memory", op=op.name, result=p, other=q)
        ctx.traces += 1


def with_layout(args, which, lay, flags):
    bufs = []
    n = [0]

    def f(p, a):
        i = n[0]
        n[0] += 1
        if which is not None and i != which:
            bufs.append(a)
            return a
        v, raw = strided(a, lay(a.ndim)[0], lay(a.ndim)[1], *flags)
        assert np.array_equal(v, a)
        bufs.append(raw)
        return v
    return ops.mapped(args, f), bufs


def chk_op(op, ctx, big=False):
    dts = ["float64", "float32", "complex128", "complex64"]
    for dt in ("float64", "complex64") if big else dts + ["int16", "int64", "float16", "bool"]:
        if dt.startswith("complex") and not op.complex_ok:
            continue
        if dt == "bool" and (not op.linear or op.group == "pad"):
            continue
        args = op.make(dt, ctx.seed)
        lv = [a for _, a in ops.leaves(args)]
        base = runop(ctx, op, args, lv, "plain")
        ctx.outcome(next(a for _, a in ops.leaves(base)))
        alias(ctx, op, args, base)
        # the same call again, on the same objects
        compare(ctx, op, runop(ctx, op, args, lv, "again"), base, dt, "again")
        nd = max(a.ndim for a in lv)
        lays = layouts(nd)
        deep = ctx.tier == "thorough"
        flags = FLAGS if dt in ("float64", "complex64") or (deep and dt in dts) else [(0, 0, 0), (1, 0, 1), (0, 1, 0)]
        if big:
            flags = [(0, 0, 0)]
        for li, (kind, arg) in enumerate(lays):
            def lay(n, kind=kind, arg=arg, li=li):
                if n == nd:
                    return kind, arg
                ls = layouts(n)
                return ls[li % len(ls)]
            for fl in flags:
                ctx.states += 1
                a2, bufs = with_layout(args, None, lay, fl)
                r = runop(ctx, op, a2, bufs, (kind, arg, fl))
                compare(ctx, op, r, base, dt, (kind, arg, fl), dtype=dt)
                if fl == (0, 0, 0) or deep:
                    alias(ctx, op, a2, r)
        if len(lv) > 1 and dt in dts:
            for i in range(min(len(lv), 8 if deep else 4)):
                for li in range(len(layouts(lv[i].ndim))):
                    kind, arg = layouts(lv[i].ndim)[li]
                    for fl in ((0, 0, 0), (1, 0, 1), (0, 1, 0))[not deep:]:
                        ctx.states += 1
                        a2, bufs = with_layout(args, i, lambda n, kind=kind, arg=arg: (kind, arg), fl)
                        compare(ctx, op, runop(ctx, op, a2, bufs, (i, kind, arg, fl)), base, dt, (i, kind, arg, fl), dtype=dt)
        if ctx.tier == "thorough" and len(lv) > 1 and dt in dts:
            for (k1, r1), (k2, r2) in itertools.product(layouts(lv[0].ndim), layouts(lv[1].ndim)):
                for f1, f2 in itertools.product(((0, 0, 0), (1, 0, 1), (0, 1, 0)), repeat=2):
                    ctx.states += 1
                    a2, b1 = with_layout(args, 0, lambda n: (k1, r1), f1)
                    a2, b2 = with_layout(a2, 1, lambda n: (k2, r2), f2)
                    compare(ctx, op, runop(ctx, op, a2, b1[:1] + b2[1:], (k1, r1, f1, k2, r2, f2)), base, dt, "pair", dtype=dt)
        # zero strides
        for ax in range(nd):
            def f(p, a, full=False):
                if a.ndim != nd or a.shape[ax] < 2:
                    return a
                one = a[tuple(slice(0, 1) if i == ax else slice(None) for i in range(nd))].copy()
                v = np.broadcast_to(one, a.shape)
                return v.copy() if full else v
            flat = ops.mapped(args, lambda p, a: f(p, a, True))
            zs = ops.mapped(args, f)
            ctx.states += 1
            r0 = runop(ctx, op, flat, [a for _, a in ops.leaves(flat)], "constant along %d" % ax)
            r1 = runop(ctx, op, zs, [a for _, a in ops.leaves(zs)], "zero stride along %d" % ax)
            compare(ctx, op, r1, r0, dt, "zero stride along %d" % ax, dtype=dt)
            alias(ctx, op, zs, r1)
        # all arrays one object (where the shapes agree): an argument may be passed twice
        if len(lv) > 1 and len({a.shape for a in lv}) < len(lv):
            first = {}
            def same(p, a):
                return first.setdefault(a.shape, a)
            tied = ops.mapped(args, same)
            sep = ops.mapped(tied, lambda p, a: a.copy())
            r0 = runop(ctx, op, sep, [a for _, a in ops.leaves(sep)], "equal arrays")
            r1 = runop(ctx, op, tied, [a for _, a in ops.leaves(tied)], "one array in several places")
            compare(ctx, op, r1, r0, dt, "one array in several places", dtype=dt)
            alias(ctx, op, tied, r1)
        # containers
        if op.lists and dt in ("float64", "complex128", "int64", "bool") and all(a.size for a in lv):
            for conv in (lambda a: a.tolist(), lambda a: tup(a.tolist())):
                a2 = ops.mapped(args, lambda p, a: conv(a))
                keep = repr(a2)
                ctx.states += 1
                ctx.transitions += 1
                ctx.step(op.name, "lists")
                try:
                    r = op.call(a2)
                except Exception as e:
                    ctx.fail("lists or tuples are not accepted", op=op.name, err=repr(e), dtype=dt)
                    continue
                compare(ctx, op, r, base, dt, "list or tuple", dtype=dt)
                ctx.require(repr(a2) == keep, "argument list modified", op=op.name)


def tup(x):
    return tuple(tup(v) for v in x) if isinstance(x, list) else x


def chk_banks(case, ctx):
    """Filters given to Wavelet, qmf, orthogonal_filter_bank; scales of cwt; arrays of integrate_wavelet; pad widths."""
    fb = [np.asarray(v) for v in pywt.Wavelet("bior2.2").filter_bank]
    base = pywt.Wavelet("w", filter_bank=[f.tolist() for f in fb])
    x = ref.dense(9, ctx.seed)
    r0 = pywt.dwt(x, base)
    todo = []
    for kind, arg in layouts(1):
        for fl in FLAGS:
            for dt in ("float64", "longdouble"):
                vs = [strided(f.astype(dt), kind, arg, *fl) for f in fb]
                todo.append(vs)
    for vs in todo:
        keep = [b.copy() for _, b in vs]
        ctx.states += 1
        ctx.transitions += 3
        w = pywt.Wavelet("w", filter_bank=[v for v, _ in vs])
        ctx.same(w.filter_bank, base.filter_bank, "filters from arrays")
        for a, b in zip(pywt.dwt(x, w), r0):
            ctx.require(np.array_equal(a, b), "dwt with filters from arrays")
        w2 = pywt.Wavelet("w", filter_bank=tuple(v for v, _ in vs))
        ctx.same(w2.filter_bank, base.filter_bank, "filters from a tuple of arrays")
        q = pywt.qmf(vs[0][0])
        ctx.close(q.astype(float), np.asarray(pywt.qmf(fb[0])), 1e-16, "qmf")
        ctx.require(not np.shares_memory(q, vs[0][0]), "qmf shares memory with its argument")
        ob = pywt.orthogonal_filter_bank(vs[0][0])
        for a, b in zip(ob, pywt.orthogonal_filter_bank(fb[0])):
            ctx.close(np.asarray(a, float), np.asarray(b, float), 1e-16, "orthogonal_filter_bank")
            ctx.require(not np.shares_memory(np.asarray(a), vs[0][0]), "orthogonal_filter_bank shares memory with its argument")
        for (v, b), k in zip(vs, keep):
            ctx.require(np.array_equal(b, k), "filter array modified")
    class Bank:
        def get_filters_coeffs(self):
            return fb
        filter_bank = tuple(fb)
    ctx.same(pywt.Wavelet("w", filter_bank=Bank()).filter_bank, base.filter_bank, "filters from an object")


def chk_params(case, ctx):
    x = ref.dense(21, ctx.seed)
    sc = np.array([1.0, 4.5, 2.0, 9.0])
    base, f0 = pywt.cwt(x, sc, "mexh")
    for kind, arg in layouts(1):
        for fl in FLAGS:
            v, raw = strided(sc, kind, arg, *fl)
            keep = raw.copy()
            ctx.states += 1
            ctx.transitions += 1
            c, f = pywt.cwt(x, v, "mexh")
            ctx.require(np.array_equal(c, base) and np.array_equal(f, f0), "cwt depends on the layout of scales")
            ctx.require(np.array_equal(raw, keep), "scales modified")
            ctx.require(not np.shares_memory(f, v), "frequencies share memory with scales")
            y, yr = strided(x, kind, arg, *fl)
            g, _ = strided(np.arange(21) * 0.5, kind, arg, *fl)
            yk = yr.copy()
            r = pywt.integrate_wavelet([y, g])
            r0 = pywt.integrate_wavelet([x, np.arange(21) * 0.5])
            ctx.require(all(np.array_equal(a, b) for a, b in zip(r, r0)), "integrate_wavelet depends on the layout")
            ctx.require(np.array_equal(yr, yk), "argument of integrate_wavelet modified")
            s2 = pywt.scale2frequency("mexh", v)
            ctx.require(np.array_equal(s2, pywt.scale2frequency("mexh", sc)) and np.array_equal(raw, keep), "scale2frequency")
    # packets keep what they are given, and never write into it
    for cls, sh in ((pywt.WaveletPacket, (8,)), (pywt.WaveletPacket2D, (8, 4)), (pywt.WaveletPacketND, (4, 4, 2))):
        for dt in ("float64", "complex64"):
            for kind, arg in layouts(len(sh)):
                for fl in FLAGS:
                    a = ops.fillarr(sh, dt, ctx.seed, 1)
                    v, raw = strided(a, kind, arg, *fl)
                    keep = raw.copy()
                    ctx.states += 1
                    ctx.transitions += 3
                    wp = cls(v, "db1", "symmetric")
                    w0 = cls(a.copy(), "db1", "symmetric")
                    for lev in (1, 2 if sh != (4, 4, 2) else 1):
                        n1, n0 = wp.get_leaf_nodes(decompose=False), w0.get_leaf_nodes(decompose=False)
                        for p, q in zip(wp.get_level(lev, decompose=True), w0.get_level(lev, decompose=True)):
                            ctx.require(p.path == q.path and np.array_equal(p.data, q.data) and p.data.dtype == q.data.dtype, "packet data")
                            ctx.require(not np.shares_memory(p.data, v), "node data shares memory with the argument")
                    r = wp.reconstruct(update=True)
                    ctx.require(np.array_equal(r, w0.reconstruct(update=True)), "packet reconstruction")
                    ctx.require(np.array_equal(raw, keep), "data given to a tree modified")
                    v2, raw2 = strided(wp.get_level(1)[0].data * 2, kind, arg, *fl)
                    keep2 = raw2.copy()
                    p = wp.get_level(1)[1].path
                    wp[p] = v2
                    wp.reconstruct(update=True)
                    wp.get_level(2 if len(sh) < 3 else 1, decompose=True)
                    ctx.require(np.array_equal(raw2, keep2), "assigned data modified")
