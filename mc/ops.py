"""Catalogue of public calls on small inputs, shared by the checks about layouts, precision, memory, threads and history.

Op.make(dtype, seed) builds the arguments (nested lists, tuples and dicts with arrays as leaves), Op.call(args) runs the public
function and returns its result. Op.linear: the result is linear in all the array leaves together. Op.fresh: the results may
share no memory with the arguments or one another."""
import functools
import itertools

import numpy as np
import pywt

import ref


class Op:
    def __init__(self, name, make, call, linear=True, fresh=True, complex_ok=True, group="", lists=True):
        self.name, self._make, self.call = name, make, call
        self.linear, self.fresh, self.complex_ok, self.group, self.lists = linear, fresh, complex_ok, group, lists

    def make(self, dtype="float64", seed=1):
        shapes = self._make()
        n = [0]

        def fill(s):
            if isinstance(s, Shape):
                n[0] += 1
                return fillarr(s, dtype, seed, n[0])
            if isinstance(s, list):
                return [fill(v) for v in s]
            if isinstance(s, tuple):
                return tuple(fill(v) for v in s)
            if isinstance(s, dict):
                return {k: fill(v) for k, v in s.items()}
            return s
        return fill(shapes)


class Shape(tuple):
    """Stands for an array leaf."""


def fillarr(shape, dtype, seed, salt):
    n = int(np.prod(shape, dtype=int))
    dtype = np.dtype(dtype)
    v = ref.dense(max(n, 1), seed, dtype.kind == "c", salt)[:n].reshape(shape)
    if dtype.kind in "iu":
        v = np.round(np.abs(v) * 50 if dtype.kind == "u" else v * 50)
    if dtype.kind == "b":
        v = v > 0
    return v.astype(dtype)


def leaves(s, path=()):
    if isinstance(s, np.ndarray):
        yield path, s
    elif isinstance(s, (list, tuple)):
        for i, v in enumerate(s):
            yield from leaves(v, path + (i,))
    elif isinstance(s, dict):
        for k in s:
            yield from leaves(s[k], path + (k,))
    elif isinstance(s, pywt.FswavedecnResult):
        yield from leaves(s.coeffs, path + ("coeffs",))


def mapped(s, f, path=()):
    """Copy of the structure with f(path, leaf) for each array leaf."""
    if isinstance(s, np.ndarray):
        return f(path, s)
    if isinstance(s, list):
        return [mapped(v, f, path + (i,)) for i, v in enumerate(s)]
    if isinstance(s, tuple):
        return tuple(mapped(v, f, path + (i,)) for i, v in enumerate(s))
    if isinstance(s, dict):
        return {k: mapped(v, f, path + (k,)) for k, v in s.items()}
    return s


def skeleton(s):
    """Everything of a structure except array contents."""
    if isinstance(s, np.ndarray):
        return ("array", s.shape, str(s.dtype.newbyteorder("=")))
    if isinstance(s, (list, tuple)):
        return (type(s).__name__,) + tuple(skeleton(v) for v in s)
    if isinstance(s, dict):
        return ("dict",) + tuple((k, skeleton(s[k])) for k in sorted(s, key=str))
    if isinstance(s, pywt.FswavedecnResult):
        return ("fsw", skeleton(s.coeffs), repr(s.coeff_slices), repr(s.wavelet_names), repr(s.modes), s.axes)
    if isinstance(s, np.generic):
        return ("scalar", str(s.dtype), s.item())
    if isinstance(s, (pywt.Wavelet, pywt.ContinuousWavelet)):
        return ("wavelet", s.name)
    return s if isinstance(s, (int, float, complex, str, bytes, type(None), bool)) else repr(s)


def S(*shape):
    return Shape(shape)


def shapes_of(s):
    """Structure of arrays -> structure of Shape leaves."""
    return mapped(s, lambda p, a: Shape(a.shape))


def tree(cls, data, wavelet, mode, maxlevel, **kw):
    wp = cls(data, wavelet, mode, maxlevel=maxlevel, **kw)
    out = {}

    def visit(node):
        out[node.path] = node.data
        return True
    wp.walk(visit, decompose=True)
    return {k: v for k, v in out.items() if k != ""}


def tree_rec(cls, leaves_, wavelet, mode, maxlevel, shape, **kw):
    wp = cls(None, wavelet, mode, maxlevel=maxlevel, **kw)
    for k, v in leaves_.items():
        wp[k] = v
    return wp.reconstruct(update=False)


C1 = [  # wavelet, mode, shape, axis
    ("db2", "symmetric", (9,), -1), ("bior2.2", "periodization", (7,), 0), ("haar", "periodic", (2,), -1),
    ("db3", "smooth", (5,), -1), ("sym4", "antireflect", (11,), -1), ("coif1", "zero", (16,), 0),
    ("db2", "reflect", (6,), -1), ("rbio1.3", "constant", (8,), -1), ("db2", "antisymmetric", (10,), -1),
    ("db2", "symmetric", (3, 8), 0), ("db2", "periodization", (3, 8), 1), ("haar", "zero", (8, 2), 0), ("bior1.3", "smooth", (2, 5, 4), 1),
    ("db2", "periodic", (2, 5, 4), 0), ("haar", "antireflect", (4, 3, 2), -3), ("db4", "constant", (2, 1, 6), -1),
    ("db2", "reflect", (2, 2, 3, 4), 2),
]
C2 = [  # wavelet, mode, shape, axes
    ("db2", "symmetric", (6, 9), (0, 1)), (("db2", "haar"), ("zero", "periodization"), (8, 4), (-2, -1)), ("haar", "periodic", (4, 8), (1, 0)),
    ("bior1.3", "smooth", (5, 3, 4), (0, 2)), ("db2", "periodization", (4, 2, 6), (2, 1)), ("haar", "reflect", (2, 4, 3, 8), (-1, 1)),
    ("sym2", "antisymmetric", (7, 7), (0, 1)),
]
CN = [  # wavelet, mode, shape, axes
    ("db2", "symmetric", (5,), None), ("haar", "periodization", (4, 6), None), (("db2", "haar"), ("zero", "constant"), (6, 5), (1, 0)),
    ("haar", "smooth", (3, 4, 5), None), ("bior1.3", "periodic", (2, 8, 4), (1, 2)), ("db2", "reflect", (4, 2, 6), (0,)),
    ("haar", "zero", (2, 2, 4, 2), None), ("haar", "periodization", (2, 4, 2, 4), (3, 1)),
]
CS = [  # wavelet, shape, axis
    ("haar", (2,), -1), ("db2", (8,), 0), ("bior2.2", (12,), -1), ("db4", (4,), -1), ("db2", (3, 8), 1), ("haar", (4, 5), 0), ("bior1.3", (2, 4, 3), 1),
    ("sym3", (2, 2, 8), -1),
]
CS2 = [("haar", (4, 8), (0, 1)), ("db2", (8, 4), (1, 0)), ("bior1.3", (4, 3, 4), (0, 2)), (("db2", "haar"), (4, 4), (-2, -1))]
CSN = [("haar", (4,), None), ("db2", (4, 4), None), ("haar", (4, 8, 4), None), ("bior1.3", (4, 3, 8), (2, 0)), (("db2", "haar"), (4, 4), (1, 0)),
       ("haar", (2, 4, 2, 4), (1, 3))]
SMALL = (C1, C2, CN, CS, CS2, CSN, (((9,), -1), ((3, 8), 1), ((5, 2, 3), 0)), ((7,), (3, 4), (2, 3, 2)))


BIG = (
    [("db2", "symmetric", (700,), -1), ("bior2.2", "periodization", (70, 33), 0), ("haar", "smooth", (3, 260), 1), ("db3", "reflect", (9, 40, 12), 1),
     ("sym4", "zero", (65, 2, 3, 4), 0), ("db2", "antireflect", (2, 2, 2, 2, 2, 33), -1)],
    [("db2", "symmetric", (70, 45), (0, 1)), (("db2", "haar"), ("zero", "periodization"), (33, 3, 64), (2, 0)), ("haar", "periodic", (2, 40, 2, 36), (-1, 1))],
    [("db2", "reflect", (300,), None), ("haar", "periodization", (40, 36), (1, 0)), ("haar", "smooth", (12, 14, 17), None), ("db2", "constant", (5, 18, 4, 16), (3, 1)),
     ("haar", "zero", (3, 2, 3, 2, 3), (4, 0, 2))],
    [("db2", (512,), -1), ("haar", (68, 33), 0), ("bior2.2", (5, 3, 64), 2)],
    [("db2", (64, 36), (0, 1)), ("haar", (36, 3, 40), (2, 0))],
    [("haar", (12, 16, 20), None), ("db2", (64, 36), (1, 0)), ("haar", (3, 12, 2, 16), (1, 3))],
    [((300,), -1), ((3, 80), 1), ((65, 2, 3), 0)],
    [(500,), (33, 65), (12, 13, 14)])


@functools.lru_cache(None)
def catalog(big=False):
    """Every operation on small arrays; with big, on larger ones."""
    C1, C2, CN, CS, CS2, CSN, CC, CT = BIG if big else SMALL
    ops = []

    def add(name, make, call, **kw):
        ops.append(Op(name, make, call, group=name.split("[")[0], **kw))

    def shapes(f):
        """Shapes of a forward result, computed once, lazily."""
        f = functools.lru_cache(None)(f)
        return lambda: shapes_of(f())

    for w, mode, sh, ax in C1:
        t = "[%s,%s,%s,%s]" % (w, mode, sh, ax)
        z = np.zeros(sh)
        k = dict(axis=ax)
        add("dwt" + t, lambda sh=sh: [S(*sh)], lambda a, w=w, mode=mode, k=k: pywt.dwt(a[0], w, mode, **k))
        fw = shapes(lambda z=z, w=w, mode=mode, k=k: list(pywt.dwt(z, w, mode, **k)))
        add("idwt" + t, fw, lambda a, w=w, mode=mode, k=k: pywt.idwt(a[0], a[1], w, mode, **k))
        add("idwt_a" + t, lambda fw=fw: [fw()[0]], lambda a, w=w, mode=mode, k=k: pywt.idwt(a[0], None, w, mode, **k))
        add("idwt_d" + t, lambda fw=fw: [fw()[0]], lambda a, w=w, mode=mode, k=k: pywt.idwt(None, a[0], w, mode, **k))
        for lev in (1, 2):
            if sh[ax] < 4 and lev == 2:
                continue
            if mode in ("reflect", "antireflect") and lev == 2 and w == "haar":
                continue
            add("wavedec%d" % lev + t, lambda sh=sh: [S(*sh)], lambda a, w=w, mode=mode, k=k, lev=lev: pywt.wavedec(a[0], w, mode, lev, **k))
            fw = shapes(lambda z=z, w=w, mode=mode, k=k, lev=lev: pywt.wavedec(z, w, mode, lev, **k))
            add("waverec%d" % lev + t, lambda fw=fw: [fw()], lambda a, w=w, mode=mode, k=k: pywt.waverec(a[0], w, mode, **k), lists=False)
            add("mra_dwt%d" % lev + t, lambda sh=sh: [S(*sh)],
                lambda a, w=w, mode=mode, k=k, lev=lev: pywt.mra(a[0], w, lev, transform="dwt", mode=mode, **k))
        if len(sh) == 1:
            add("wp1" + t, lambda sh=sh: [S(*sh)], lambda a, w=w, mode=mode: tree(pywt.WaveletPacket, a[0], w, mode, 2 if a_len(a[0]) > 3 else 1))
            fw = shapes(lambda z=z, w=w, mode=mode: tree(pywt.WaveletPacket, z, w, mode, 1))
            add("wp1_rec" + t, lambda fw=fw: [fw()], lambda a, w=w, mode=mode, sh=sh: tree_rec(pywt.WaveletPacket, a[0], w, mode, 1, sh))
            for part in "ad":
                add("downcoef_" + part + t, lambda sh=sh: [S(*sh)], lambda a, part=part, w=w, mode=mode: pywt.downcoef(part, a[0], w, mode, 1))
                add("upcoef_" + part + t, lambda sh=sh: [S(*sh)], lambda a, part=part, w=w: pywt.upcoef(part, a[0], w, 2))
                add("upcoef_take_" + part + t, lambda sh=sh: [S(*sh)], lambda a, part=part, w=w: pywt.upcoef(part, a[0], w, 1, 3))
        add("pad" + t, lambda sh=sh: [S(*sh)], lambda a, mode=mode: pywt.pad(a[0], [(2, 3)] * a_ndim(a[0]), mode))
    for w, mode, sh, ax in C2:
        t = "[%s,%s,%s,%s]" % (w, mode, sh, ax)
        z = np.zeros(sh)
        add("dwt2" + t, lambda sh=sh: [S(*sh)], lambda a, w=w, mode=mode, ax=ax: pywt.dwt2(a[0], w, mode, ax))
        fw = shapes(lambda z=z, w=w, mode=mode, ax=ax: pywt.dwt2(z, w, mode, ax))
        add("idwt2" + t, lambda fw=fw: [fw()], lambda a, w=w, mode=mode, ax=ax: pywt.idwt2(a[0], w, mode, ax))
        add("idwt2_part" + t, lambda fw=fw: [(None, (fw()[1][0], None, fw()[1][2]))], lambda a, w=w, mode=mode, ax=ax: pywt.idwt2(a[0], w, mode, ax))
        for lev in (1, 2):
            add("wavedec2_%d" % lev + t, lambda sh=sh: [S(*sh)], lambda a, w=w, mode=mode, ax=ax, lev=lev: pywt.wavedec2(a[0], w, mode, lev, ax))
            fw = shapes(lambda z=z, w=w, mode=mode, ax=ax, lev=lev: pywt.wavedec2(z, w, mode, lev, ax))
            add("waverec2_%d" % lev + t, lambda fw=fw: [fw()], lambda a, w=w, mode=mode, ax=ax: pywt.waverec2(a[0], w, mode, ax))
        add("mra2_dwt" + t, lambda sh=sh: [S(*sh)], lambda a, w=w, mode=mode, ax=ax: pywt.mra2(a[0], w, 1, axes=ax, transform="dwt2", mode=mode))
        if isinstance(w, str):
            add("wp2" + t, lambda sh=sh: [S(*sh)], lambda a, w=w, mode=mode, ax=ax: tree(pywt.WaveletPacket2D, a[0], w, mode, 1, axes=ax))
            fw = shapes(lambda z=z, w=w, mode=mode, ax=ax: tree(pywt.WaveletPacket2D, z, w, mode, 1, axes=ax))
            add("wp2_rec" + t, lambda fw=fw: [fw()], lambda a, w=w, mode=mode, ax=ax, sh=sh: tree_rec(pywt.WaveletPacket2D, a[0], w, mode, 1, sh, axes=ax))
    for w, mode, sh, ax in CN:
        t = "[%s,%s,%s,%s]" % (w, mode, sh, ax)
        z = np.zeros(sh)
        add("dwtn" + t, lambda sh=sh: [S(*sh)], lambda a, w=w, mode=mode, ax=ax: pywt.dwtn(a[0], w, mode, ax))
        fw = shapes(lambda z=z, w=w, mode=mode, ax=ax: pywt.dwtn(z, w, mode, ax))
        add("idwtn" + t, lambda fw=fw: [fw()], lambda a, w=w, mode=mode, ax=ax: pywt.idwtn(a[0], w, mode, ax))
        add("idwtn_part" + t, lambda fw=fw: [{k: v for i, (k, v) in enumerate(fw().items()) if i % 2}],
            lambda a, w=w, mode=mode, ax=ax: pywt.idwtn(a[0], w, mode, ax))
        nb = len(fw())
        masks = list(range(1, 16)) if nb == 4 else [] if nb == 2 else [0x01, 0x0e, 0x55, 0x33, 0x5a]
        for mask in masks:
            if mask in (15, 10):
                continue
            add("idwtn_bands%d" % mask + t, lambda fw=fw, mask=mask: [{k: v for i, (k, v) in enumerate(fw().items()) if mask >> (i % 8) & 1}],
                lambda a, w=w, mode=mode, ax=ax: pywt.idwtn(a[0], w, mode, ax))
        for lev in (1, 2):
            add("wavedecn%d" % lev + t, lambda sh=sh: [S(*sh)], lambda a, w=w, mode=mode, ax=ax, lev=lev: pywt.wavedecn(a[0], w, mode, lev, ax))
            fw = shapes(lambda z=z, w=w, mode=mode, ax=ax, lev=lev: pywt.wavedecn(z, w, mode, lev, ax))
            add("waverecn%d" % lev + t, lambda fw=fw: [fw()], lambda a, w=w, mode=mode, ax=ax: pywt.waverecn(a[0], w, mode, ax))
            nd = ax if ax is not None else tuple(range(len(sh)))
            add("coeffs_to_array%d" % lev + t, lambda fw=fw: [fw()], lambda a, ax=ax: list(pywt.coeffs_to_array(a[0], 0, axes=ax)), fresh=False, lists=False)
            add("ravel_coeffs%d" % lev + t, lambda fw=fw: [fw()], lambda a, ax=ax: list(pywt.ravel_coeffs(a[0], axes=ax)), fresh=False, lists=False)

            def arr_fw(z=z, w=w, mode=mode, ax=ax, lev=lev):
                return pywt.coeffs_to_array(pywt.wavedecn(z, w, mode, lev, ax), 0, axes=ax)

            def rav_fw(z=z, w=w, mode=mode, ax=ax, lev=lev):
                return pywt.ravel_coeffs(pywt.wavedecn(z, w, mode, lev, ax), axes=ax)
            arr_fw, rav_fw = functools.lru_cache(None)(arr_fw), functools.lru_cache(None)(rav_fw)
            add("array_to_coeffs%d" % lev + t, lambda f=arr_fw: [Shape(f()[0].shape)],
                lambda a, f=arr_fw: pywt.array_to_coeffs(a[0], f()[1], "wavedecn"), fresh=False, lists=False)
            add("unravel_coeffs%d" % lev + t, lambda f=rav_fw: [Shape(f()[0].shape)],
                lambda a, f=rav_fw: pywt.unravel_coeffs(a[0], f()[1], f()[2], "wavedecn"), fresh=False, lists=False)
        add("fswavedecn" + t, lambda sh=sh: [S(*sh)], lambda a, w=w, mode=mode, ax=ax: pywt.fswavedecn(a[0], w, mode, 1, ax))

        def fs(a, w=w, mode=mode, ax=ax, z=z):
            r = pywt.fswavedecn(z, w, mode, 1, ax)
            return pywt.fswaverecn(pywt.FswavedecnResult(a[0], r.coeff_slices, r.wavelets, [int(pywt.Modes.from_object(m)) for m in r.modes], r.axes))
        fw = shapes(lambda z=z, w=w, mode=mode, ax=ax: pywt.fswavedecn(z, w, mode, 1, ax).coeffs)
        add("fswaverecn" + t, lambda fw=fw: [fw()], fs, lists=False)
        add("mran_dwt" + t, lambda sh=sh: [S(*sh)], lambda a, w=w, mode=mode, ax=ax: pywt.mran(a[0], w, 1, axes=ax, transform="dwtn", mode=mode))
        if isinstance(w, str):
            add("wpn" + t, lambda sh=sh: [S(*sh)], lambda a, w=w, mode=mode, ax=ax: tree(pywt.WaveletPacketND, a[0], w, mode, 1, axes=ax))
    for w, sh, ax in CS:
        t = "[%s,%s,%s]" % (w, sh, ax)
        z = np.zeros(sh)
        for trim, norm, lev in ((False, False, 1), (True, False, 1), (False, True, 2), (True, True, 2)):
            if sh[ax] % 2 ** lev:
                continue
            k = dict(axis=ax, trim_approx=trim, norm=norm)
            u = "%d%d%d" % (trim, norm, lev) + t
            add("swt" + u, lambda sh=sh: [S(*sh)], lambda a, w=w, k=k, lev=lev: pywt.swt(a[0], w, lev, **k))
            fw = shapes(lambda z=z, w=w, k=k, lev=lev: pywt.swt(z, w, lev, **k))
            # only the coarsest approximation is read
            add("iswt" + u, lambda fw=fw: [fw()], lambda a, w=w, norm=norm, ax=ax: pywt.iswt(a[0], w, norm=norm, axis=ax), lists=False)
        if sh[ax] % 4 == 0:
            add("swt_start" + t, lambda sh=sh: [S(*sh)], lambda a, w=w, ax=ax: pywt.swt(a[0], w, 1, 1, ax))
        add("mra_swt" + t, lambda sh=sh: [S(*sh)], lambda a, w=w, ax=ax: pywt.mra(a[0], w, 1, axis=ax, transform="swt"))
        add("imra" + t, lambda sh=sh: [[S(*sh)] * 3], lambda a: pywt.imra(a[0]), lists=False)
    for w, sh, ax in CS2:
        t = "[%s,%s,%s]" % (w, sh, ax)
        z = np.zeros(sh)
        for trim, norm, lev in ((False, False, 1), (True, True, 2), (False, False, 2)):
            u = "%d%d%d" % (trim, norm, lev) + t
            k = dict(axes=ax, trim_approx=trim, norm=norm)
            add("swt2_" + u, lambda sh=sh: [S(*sh)], lambda a, w=w, k=k, lev=lev: pywt.swt2(a[0], w, lev, **k))
            fw = shapes(lambda z=z, w=w, k=k, lev=lev: pywt.swt2(z, w, lev, **k))
            add("iswt2_" + u, lambda fw=fw: [fw()], lambda a, w=w, norm=norm, ax=ax: pywt.iswt2(a[0], w, norm=norm, axes=ax), lists=False)
        add("mra2_swt" + t, lambda sh=sh: [S(*sh)], lambda a, w=w, ax=ax: pywt.mra2(a[0], w, 1, axes=ax, transform="swt2"))
        add("imra2" + t, lambda sh=sh: [[S(*sh), (S(*sh),) * 3]], lambda a: pywt.imra2(a[0]), lists=False)
    for w, sh, ax in CSN:
        t = "[%s,%s,%s]" % (w, sh, ax)
        z = np.zeros(sh)
        n = len(sh) if ax is None else len(ax)
        for trim, norm, lev in ((False, False, 1), (True, True, 1), (False, True, 2)):
            if any(sh[i] % 2 ** lev for i in (ax or range(len(sh)))) or (n == 3 and lev == 2):
                continue
            u = "%d%d%d" % (trim, norm, lev) + t
            k = dict(axes=ax, trim_approx=trim, norm=norm)
            add("swtn" + u, lambda sh=sh: [S(*sh)], lambda a, w=w, k=k, lev=lev: pywt.swtn(a[0], w, lev, **k))
            fw = shapes(lambda z=z, w=w, k=k, lev=lev: pywt.swtn(z, w, lev, **k))
            add("iswtn" + u, lambda fw=fw: [fw()], lambda a, w=w, norm=norm, ax=ax: pywt.iswtn(a[0], w, norm=norm, axes=ax), lists=False)
        add("mran_swt" + t, lambda sh=sh: [S(*sh)], lambda a, w=w, ax=ax: pywt.mran(a[0], w, 1, axes=ax, transform="swtn"))
        bands = ["".join(p) for p in itertools.product("ad", repeat=n)][1:]
        add("imran" + t, lambda sh=sh, b=bands: [[S(*sh), {k: S(*sh) for k in b}]], lambda a: pywt.imran(a[0]), lists=False)
    for w in ("mexh", "cmor1.5-1.0", "gaus2", "shan"):
        for m in ("conv", "fft"):
            for sh, ax in CC:
                add("cwt[%s,%s,%s,%s]" % (w, m, sh, ax), lambda sh=sh: [S(*sh)],
                    lambda a, w=w, m=m, ax=ax: pywt.cwt(a[0], [1, 5, 2.5], w, method=m, axis=ax)[0])
    for sh in CT:
        for m in ("soft", "hard", "garrote", "greater", "less"):
            add("threshold[%s,%s]" % (m, sh), lambda sh=sh: [S(*sh)], lambda a, m=m: pywt.threshold(a[0], 0.4, m, 0.25), linear=False,
                complex_ok=m not in ("greater", "less"))
        add("threshold_firm[%s]" % (sh,), lambda sh=sh: [S(*sh)], lambda a: pywt.threshold_firm(a[0], 0.2, 0.6), linear=False)
    assert len({o.name for o in ops}) == len(ops)
    return ops


def a_len(a):
    return len(a)


def a_ndim(a):
    return np.ndim(a)


WAVELETS = ["haar", "db2", "db3", "db4", "sym2", "sym3", "sym4", "coif1", "bior1.3", "bior2.2", "rbio1.3"]
