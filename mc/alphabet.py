"""Alphabet of public calls that differ from a base call in one component at a time (used by the history and schedule checks).

call(label, fn, data...): fn(env, *arrays); the arrays are given as nested lists/tuples/dicts of arrays or as a maker, a function
that is run in a throw-away process and returns them. env holds the wavelet objects shared between calls (env.w, env.cw)."""
import itertools

import numpy as np
import pywt

import ref


class Call:
    def __init__(self, label, fn, data, group, core):
        self.label, self.fn, self.data, self.group, self.core = label, fn, data, group, core


def X(shape, salt=0, dtype="float64"):
    dtype = np.dtype(dtype)
    n = int(np.prod(shape, dtype=int))
    v = ref.dense(max(n, 1), 1, dtype.kind == "c", salt)[:n].reshape(shape)
    if dtype.kind in "iu":
        v = np.round(np.abs(v) * 50)
    return v.astype(dtype)


class Maker:
    """Arrays computed in a throw-away process: the structure of f(), every array replaced by dense values."""

    def __init__(self, f, salt=0, dtype=None):
        self.f, self.salt, self.dtype = f, salt, dtype

    def __call__(self):
        n = [self.salt * 10]

        def g(s):
            if isinstance(s, np.ndarray):
                n[0] += 1
                return X(s.shape, n[0], self.dtype or s.dtype)
            if isinstance(s, (list, tuple)):
                return type(s)(g(v) for v in s)
            if isinstance(s, dict):
                return {k: g(v) for k, v in s.items()}
            return s
        return g(self.f())


class Env:
    """Wavelet objects shared by all the calls of one process."""

    def __init__(self):
        self.w = {n: pywt.Wavelet(n) for n in ("db2", "haar", "bior1.3", "sym4")}
        r2 = np.sqrt(0.5)
        b = self.w["db2"]
        # the name and the lengths of db2, other numbers
        self.w["fake"] = pywt.Wavelet("db2", filter_bank=[[0, 0, r2, r2], [0, 0, -r2, r2], [r2, r2, 0, 0], [r2, -r2, 0, 0]])
        self.w["copy"] = pywt.Wavelet("db2", filter_bank=b.filter_bank)
        self.w["attr"] = pywt.Wavelet("db2")
        self.w["attr"].orthogonal = False
        self.w["attr"].biorthogonal = False
        self.cw = {n: pywt.ContinuousWavelet(n) for n in ("mexh", "gaus2", "cmor1.5-1.0", "morl", "cgau3", "shan1.5-1.0", "fbsp2-1.5-1.0")}
        c = pywt.ContinuousWavelet("mexh")
        c.lower_bound, c.upper_bound = -4, 4
        self.cw["mexh_bounds"] = c
        c = pywt.ContinuousWavelet("cmor1.5-1.0")
        c.center_frequency = 2.0
        self.cw["cmor_freq"] = c
        c = pywt.ContinuousWavelet("cmor1.5-1.0")
        c.bandwidth_frequency = 3.0
        self.cw["cmor_band"] = c
        c = pywt.ContinuousWavelet("fbsp2-1.5-1.0")
        c.fbsp_order = 3
        self.cw["fbsp_order"] = c


def wav(env, w):
    """'db2' -> the name; '*db2' -> a fresh object; '@db2' -> the shared object; tuples elementwise."""
    if isinstance(w, tuple):
        return tuple(wav(env, v) for v in w)
    if w.startswith("*"):
        return pywt.Wavelet(w[1:])
    if w.startswith("@"):
        return env.w[w[1:]]
    return w


def cwav(env, w):
    if w.startswith("*"):
        return pywt.ContinuousWavelet(w[1:])
    if w.startswith("@"):
        return env.cw[w[1:]]
    return w


def ok(w):
    """A name with the filter lengths of w."""
    if isinstance(w, str) and w[0] in "@*":
        return w[1:] if w[1:] in ("haar", "db2") else "db2"
    return w


def packet(cls, data, w, mode, lev, visit, **kw):
    t = cls(data, w, mode, maxlevel=lev, **kw)
    return visit(t)


def leaves(order, fmt="data"):
    def f(t):
        r = t.get_level(t.maxlevel, order)
        if r and isinstance(r[0], list):
            r = [v for row in r for v in row]
        return [(n.path, n.data) for n in r]
    return f


def recon(t):
    [n.data for n in t.get_level(t.maxlevel)]
    return [n.path for n in t.get_leaf_nodes()], t.reconstruct(False), t.reconstruct(True), t.data


def prune(t):
    t.decompose()
    k = sorted(t.get_leaf_nodes(True), key=lambda n: n.path)[0].path
    del t[k[:len(k) // t.maxlevel]]
    return [n.path for n in t.get_leaf_nodes()], t.reconstruct(False)


MODES = list(ref.MODES)
WAVES = ["haar", "sym2", "bior1.3", "rbio1.3", "*db2", "@db2", "@fake", "@copy", "@attr", "@haar", "db3"]


def calls():
    out = []

    def add(label, fn, *data, core=False):
        out.append(Call(label, fn, data, label.split()[0], core))

    def star(name, base, variations, build):
        """The base call and every call that differs from it in one component."""
        add(name + " base", *build(**base), core=True)
        for comp, vals in variations.items():
            for i, v in enumerate(vals):
                add("%s %s=%s" % (name, comp, v), *build(**dict(base, **{comp: v})), core=i == 0 and comp in ("w", "mode", "salt", "axis", "lev"))

    one = dict(shape=(8,), dt="float64", salt=0, w="db2", mode="symmetric", axis=-1)
    sq = dict(one, shape=(8, 8))
    var = dict(dt=["float32", "complex128", "complex64", "int64"], salt=[1], w=WAVES, mode=[m for m in MODES if m != "symmetric"])
    shp = dict(shape=[(9,), (6,), (8, 8), (8, 3)])

    def b_dwt(shape, dt, salt, w, mode, axis):
        return (lambda e, x: pywt.dwt(x, wav(e, w), mode, axis)), X(shape, salt, dt)
    star("dwt", one, dict(var, **shp), b_dwt)
    star("dwt-axis", sq, dict(axis=[0, 1, 5]), b_dwt)

    def b_idwt(shape, dt, salt, w, mode, axis, part="ad"):
        return (lambda e, a, d: pywt.idwt(a if "a" in part else None, d if "d" in part else None, wav(e, w), mode, axis)), X(shape, salt, dt), X(shape, salt + 7, dt)
    star("idwt", one, dict(var, part=["a", "d", ""], **shp), b_idwt)
    star("idwt-axis", sq, dict(axis=[0, 1, 5]), b_idwt)

    def b_wavedec(shape, dt, salt, w, mode, axis, lev):
        return (lambda e, x: pywt.wavedec(x, wav(e, w), mode, lev, axis)), X(shape, salt, dt)
    star("wavedec", dict(one, lev=2), dict(var, lev=[1, None, 3, 0, -1], **shp), b_wavedec)
    star("wavedec-axis", dict(sq, lev=2), dict(axis=[0, 1, 5]), b_wavedec)

    def b_waverec(shape, dt, salt, w, mode, axis, lev):
        return (lambda e, c: pywt.waverec(c, wav(e, w), mode, axis)), Maker(lambda: pywt.wavedec(np.zeros(shape), ok(w), mode, lev, axis), salt, dt)
    star("waverec", dict(one, lev=2), dict(var, lev=[1, 0], **shp), b_waverec)
    star("waverec-axis", dict(sq, lev=2), dict(axis=[0, 1]), b_waverec)

    def b_coef(part, fn):
        def b(shape, dt, salt, w, mode, axis, lev, take=0):
            if fn == "down":
                return (lambda e, x: pywt.downcoef(part, x, wav(e, w), mode, lev)), X(shape, salt, dt)
            return (lambda e, x: pywt.upcoef(part, x, wav(e, w), lev, take)), X(shape, salt, dt)
        return b
    for part in "ad":
        star("downcoef-" + part, dict(one, lev=1), dict(var, lev=[2, 3, 0], shape=[(9,), (8, 8)]), b_coef(part, "down"))
        star("upcoef-" + part, dict(one, lev=1), dict(dt=var["dt"], salt=[1], w=WAVES, lev=[2, 3, 0], take=[5, 100], shape=[(9,)]), b_coef(part, "up"))
    # 2-D and n-D
    two = dict(shape=(8, 8), dt="float64", salt=0, w="db2", mode="symmetric", axes=(0, 1))
    var2 = dict(shape=[(8, 6), (4, 8, 8), (7, 8)], dt=var["dt"][:2], salt=[1], w=WAVES + [("haar", "db2"), ("db2", "haar")],
                mode=["periodization", "zero", ("zero", "periodization"), ("periodization", "zero")], axes=[(1, 0), (-2, -1), (0, 0), (0, 7)])

    def nd(name, build):
        star(name, two, var2, build)
    nd("dwt2", lambda shape, dt, salt, w, mode, axes: ((lambda e, x: pywt.dwt2(x, wav(e, w), mode, axes)), X(shape, salt, dt)))
    nd("dwtn", lambda shape, dt, salt, w, mode, axes: ((lambda e, x: pywt.dwtn(x, wav(e, w), mode, axes)), X(shape, salt, dt)))
    nd("idwt2", lambda shape, dt, salt, w, mode, axes: ((lambda e, a, h, v, d: pywt.idwt2((a, (h, v, d)), wav(e, w), mode, axes)),) + tuple(
        X(shape, salt + 5 * i, dt) for i in range(4)))
    nd("idwtn", lambda shape, dt, salt, w, mode, axes: ((lambda e, c: pywt.idwtn(c, wav(e, w), mode, axes)),
                                                       {k: X(shape, salt + i, dt) for i, k in enumerate(("aa", "ad", "da", "dd"))}))


    def lev2(name, dec, rec):
        b = dict(two, lev=2)
        star(name, b, dict(var2, lev=[1, None, 0]), lambda shape, dt, salt, w, mode, axes, lev: (
            (lambda e, x: dec(x, wav(e, w), mode, lev, axes)), X(shape, salt, dt)))
        v = {k: [x for x in vals if x not in ((0, 0), (0, 7))] for k, vals in var2.items()}
        star(name.replace("dec", "rec"), b, dict(v, lev=[1, 0]), lambda shape, dt, salt, w, mode, axes, lev: (
            (lambda e, c: rec(c, wav(e, w), mode, axes)), Maker(lambda: dec(np.zeros(shape), ok(w), mode, lev, axes), salt, dt)))
    lev2("wavedec2", pywt.wavedec2, pywt.waverec2)
    lev2("wavedecn", pywt.wavedecn, pywt.waverecn)
    fw = dict(two, lev=2)

    def fsres(r):
        return r.coeffs, r.coeff_slices, r.wavelet_names, r.modes, r.axes, r.levels, r.approx, r.detail_keys()
    star("fswavedecn", fw, dict(var2, lev=[1, None, (1, 2), (2, 1)]), lambda shape, dt, salt, w, mode, axes, lev: (
        (lambda e, x: fsres(pywt.fswavedecn(x, wav(e, w), mode, lev, axes))), X(shape, salt, dt)))
    star("fswaverecn", fw, {k: [x for x in v if x not in ((0, 0), (0, 7))] for k, v in dict(var2, lev=[1, (1, 2), (2, 1)]).items()},
         lambda shape, dt, salt, w, mode, axes, lev: ((lambda e, x: pywt.fswaverecn(pywt.fswavedecn(x, wav(e, w), mode, lev, axes))), X(shape, salt, dt)))
    # stationary
    st = dict(shape=(8,), dt="float64", salt=0, w="db2", lev=2, start=0, axis=-1, trim=False, norm=False)
    vst = dict(shape=[(12,), (16,), (8, 8)], dt=var["dt"], salt=[1], w=WAVES, lev=[1, None, 3, 9], start=[1, 2], axis=[0, 3], trim=[True], norm=[True])
    star("swt", st, vst, lambda shape, dt, salt, w, lev, start, axis, trim, norm: (
        (lambda e, x: pywt.swt(x, wav(e, w), lev, start, axis, trim, norm)), X(shape, salt, dt)))
    star("swt-norm", dict(st, norm=True), dict(w=WAVES, lev=[1], salt=[1]), lambda shape, dt, salt, w, lev, start, axis, trim, norm: (
        (lambda e, x: pywt.swt(x, wav(e, w), lev, start, axis, trim, norm)), X(shape, salt, dt)))
    vi = dict(shape=[(12,), (16,), (8, 8)], dt=var["dt"][:3], salt=[1], w=WAVES, lev=[1, 3], trim=[True], norm=[True])

    def b_iswt(shape, dt, salt, w, lev, start, axis, trim, norm):
        return (lambda e, c: pywt.iswt(c, wav(e, w), norm, axis)), Maker(lambda: pywt.swt(np.zeros(shape if shape != (12,) or lev < 3 else (16,)), ok(w), lev, 0, axis, trim, norm), salt, dt)
    star("iswt", st, vi, b_iswt)
    star("iswt-norm", dict(st, norm=True), dict(w=WAVES, lev=[1], salt=[1]), b_iswt)
    s2 = dict(shape=(8, 8), dt="float64", salt=0, w="db2", lev=2, start=0, axes=(0, 1), trim=False, norm=False)
    v2 = dict(shape=[(8, 4)], dt=var["dt"][:2], salt=[1], w=WAVES[:7] + [("haar", "db2"), ("db2", "haar")], lev=[1, None], start=[1], axes=[(1, 0), (0, 0)],
              trim=[True], norm=[True])
    for n, f, g in (("swt2", pywt.swt2, pywt.iswt2), ("swtn", pywt.swtn, pywt.iswtn)):
        star(n, s2, v2, lambda shape, dt, salt, w, lev, start, axes, trim, norm, f=f: (
            (lambda e, x: f(x, wav(e, w), lev, start, axes, trim, norm)), X(shape, salt, dt)))
        star("i" + n, dict(s2, lev=1), {k: [x for x in v if x not in ((0, 0),)] for k, v in v2.items() if k not in ("lev", "start")},
             lambda shape, dt, salt, w, lev, start, axes, trim, norm, f=f, g=g: (
            (lambda e, c: g(c, wav(e, w), norm=norm, axes=axes)), Maker(lambda: f(np.zeros(shape), ok(w), lev, 0, axes, trim, norm), salt, dt)))
    # multiresolution
    m1 = dict(shape=(8,), dt="float64", salt=0, w="db2", lev=2, axis=-1, tr="swt", mode="periodization")
    star("mra", m1, dict(dt=["float32"], salt=[1], w=WAVES[:8], lev=[1, None], tr=["dwt"], mode=["symmetric"]), lambda shape, dt, salt, w, lev, axis, tr, mode: (
        (lambda e, x: pywt.mra(x, wav(e, w), lev, axis, tr, mode)), X(shape, salt, dt)))
    star("mra-dwt", dict(m1, tr="dwt"), dict(w=WAVES[:8], mode=["symmetric", "zero"]), lambda shape, dt, salt, w, lev, axis, tr, mode: (
        (lambda e, x: pywt.mra(x, wav(e, w), lev, axis, tr, mode)), X(shape, salt, dt)))
    for tr in ("swt2", "dwt2"):
        add("mra2 " + tr, lambda e, x, tr=tr: pywt.mra2(x, "haar", 1, transform=tr), X((4, 4)), core=True)
        add("mra2 axes " + tr, lambda e, x, tr=tr: pywt.mra2(x, "haar", 1, axes=(1, 0), transform=tr), X((4, 4)))
        add("mran " + tr, lambda e, x, tr=tr: pywt.mran(x, "haar", 1, transform=tr[:3] + "n"), X((4, 4)))
    add("imra", lambda e, c: pywt.imra(c), [X((4,)), X((4,), 1)])
    add("imra2", lambda e, c: pywt.imra2(c), [X((4, 4)), (X((4, 4), 1), X((4, 4), 2), X((4, 4), 3))])
    add("imran", lambda e, c: pywt.imran(c), [X((4, 4)), {"ad": X((4, 4), 1), "da": X((4, 4), 2), "dd": X((4, 4), 3)}])
    # packing
    for lev, sh in itertools.product((1, 2), ((8,), (8, 8), (6, 8))):
        mk = Maker(lambda lev=lev, sh=sh: pywt.wavedecn(np.zeros(sh), "haar", "symmetric", lev))
        for pad in (0, 5, None):
            add("coeffs_to_array %s %s %s" % (lev, sh, pad), lambda e, c, pad=pad: pywt.coeffs_to_array(c, pad), mk, core=pad == 5)
        add("ravel_coeffs %s %s" % (lev, sh), lambda e, c: pywt.ravel_coeffs(c), mk)
        add("array_to_coeffs %s %s" % (lev, sh), lambda e, c: pywt.array_to_coeffs(*pywt.coeffs_to_array(c), output_format="wavedecn"), mk)
        add("unravel_coeffs %s %s" % (lev, sh), lambda e, c: pywt.unravel_coeffs(*pywt.ravel_coeffs(c), output_format="wavedecn"), mk)
        for w in ("haar", "db2", "@fake"):
            for mode in ("symmetric", "periodization"):
                add("wavedecn_shapes %s %s %s %s" % (lev, sh, w, mode), lambda e, lev=lev, sh=sh, w=w, mode=mode: pywt.wavedecn_shapes(sh, wav(e, w), mode, lev))
                add("wavedecn_size %s %s %s %s" % (lev, sh, w, mode), lambda e, lev=lev, sh=sh, w=w, mode=mode: pywt.wavedecn_size(
                    pywt.wavedecn_shapes(sh, wav(e, w), mode, lev)))
    # levels and lengths
    for n, w in itertools.product((8, 9, 64, 1000), ("haar", "db2", "@fake", "db20", 4, 5, 40)):
        add("dwt_max_level %s %s" % (n, w), lambda e, n=n, w=w: pywt.dwt_max_level(n, wav(e, w) if isinstance(w, str) else w))
    for n, m in itertools.product((8, 9), MODES):
        add("dwt_coeff_len %s %s" % (n, m), lambda e, n=n, m=m: pywt.dwt_coeff_len(n, 4, m))
        add("dwt_coeff_len2 %s %s" % (n, m), lambda e, n=n, m=m: pywt.dwt_coeff_len(n, 6, m))
    for n in (8, 9, 96):
        add("swt_max_level %s" % n, lambda e, n=n: pywt.swt_max_level(n))
    for sh, w, ax in itertools.product(((64, 9), (9, 64)), ("db2", "haar", ("haar", "db2")), (None, (0, 1), (1, 0))):
        add("dwtn_max_level %s %s %s" % (sh, w, ax), lambda e, sh=sh, w=w, ax=ax: pywt.dwtn_max_level(sh, w, ax))
    for m in MODES + [0, 3, "nope"]:
        for pads in (2, (1, 3), [(3, 1)]):
            add("pad %s %s" % (m, pads), lambda e, x, m=m, pads=pads: pywt.pad(x, pads, m), X((5,)), core=pads == 2)
        add("pad2 %s" % (m,), lambda e, x, m=m: pywt.pad(x, [(1, 2), (2, 0)], m), X((4, 5)))
        add("modes %s" % (m,), lambda e, m=m: pywt.Modes.from_object(m))
    add("modes list", lambda e: list(pywt.Modes.modes))
    # names, wavelets and their functions
    for a in ((), (True,), (False,)):
        add("families %s" % (a,), lambda e, a=a: pywt.families(*a), core=True)
    for fam, kind in itertools.product((None, "db", "sym", "cmor", "haar", "nope"), ("all", "discrete", "continuous", "nope")):
        add("wavelist %s %s" % (fam, kind), lambda e, fam=fam, kind=kind: pywt.wavelist(fam, kind), core=kind == "all" and fam in (None, "db"))

    def attrs(w):
        return [(a, getattr(w, a)) for a in dir(w) if not a.startswith("_") and not callable(getattr(w, a))] + [repr(w), str(w)]
    for w in ("db2", "DB2", "haar", "db1", "sym2", "bior1.3", "rbio1.3", "dmey", "coif1", "@fake", "@attr", "@copy", "db99", ""):
        add("wavelet %s" % w, lambda e, w=w: attrs(wav(e, "*" + w if not w.startswith("@") else w)), core=w in ("db2", "haar", "bior1.3"))
        add("dcw %s" % w, lambda e, w=w: attrs(pywt.DiscreteContinuousWavelet(w)) if not w.startswith("@") else None)
        if w and w != "db99":
            for lev in (1, 3):
                add("wavefun %s %s" % (w, lev), lambda e, w=w, lev=lev: wav(e, "*" + w if not w.startswith("@") else w).wavefun(lev), core=w == "db2")
            for p in (3, 5):
                add("integrate %s %s" % (w, p), lambda e, w=w, p=p: pywt.integrate_wavelet(wav(e, w), p), core=w == "db2")
            add("centfreq %s" % w, lambda e, w=w: pywt.central_frequency(wav(e, w), 6))
    for b in (None, "list", "bad"):
        add("wavelet bank %s" % b, lambda e, b=b: attrs(pywt.Wavelet("db2", filter_bank={None: e.w["haar"].filter_bank, "list": [[1, 2], [3, 4], [5, 6], [7, 8]],
                                                                                        "bad": [[1, 2], [3, 4]]}[b])), core=True)
    cws = ["mexh", "gaus2", "cmor1.5-1.0", "cmor1.5-2.0", "morl", "cgau3", "shan1.5-1.0", "fbsp2-1.5-1.0", "gaus3", "@mexh", "@mexh_bounds", "@cmor1.5-1.0", "@cmor_freq",
           "@cmor_band", "@fbsp2-1.5-1.0", "@fbsp_order", "*mexh", "mexh9", "cmor"]
    for w in cws:
        c = w in ("mexh", "cmor1.5-1.0", "@mexh_bounds", "@cmor_freq")
        add("cwavelet %s" % w, lambda e, w=w: attrs(cwav(e, "*" + w if w[0] not in "@*" else w)), core=c)
        for kw in (dict(level=4), dict(level=4, length=20), dict(level=5)):
            add("cwavefun %s %s" % (w, kw), lambda e, w=w, kw=kw: cwav(e, "*" + w if w[0] not in "@*" else w).wavefun(**kw), core=c and len(kw) == 2)
        for p in (4, 6):
            add("cintegrate %s %s" % (w, p), lambda e, w=w, p=p: pywt.integrate_wavelet(cwav(e, w), p), core=c and p == 4)
        add("ccentfreq %s" % w, lambda e, w=w: pywt.central_frequency(cwav(e, w), 6))
        add("scale2freq %s" % w, lambda e, w=w: pywt.scale2frequency(cwav(e, w), 3, 6))
        add("freq2scale %s" % w, lambda e, w=w: pywt.frequency2scale(cwav(e, w), 0.3, 6))
    cb = dict(shape=(16,), dt="float64", salt=0, w="mexh", scales=(1, 3), sp=1.0, method="conv", axis=-1)
    vc = dict(shape=[(9,), (8, 8)], dt=["float32", "complex128"], salt=[1], w=cws[1:] + ["db2"], scales=[(1,), (3, 1), 2, (1, 3.5), (0,)], sp=[0.5], method=["fft", "x"],
              axis=[0, 4])
    for m in ("conv", "fft"):
        star("cwt-" + m, dict(cb, method=m), vc, lambda shape, dt, salt, w, scales, sp, method, axis: (
            (lambda e, x: pywt.cwt(x, scales, cwav(e, w), sp, method, axis)), X(shape, salt, dt)))
    add("qmf", lambda e, x: pywt.qmf(x), X((4,)))
    add("qmf 5", lambda e, x: pywt.qmf(x), X((5,)))
    add("orthogonal_filter_bank", lambda e, x: pywt.orthogonal_filter_bank(x), X((4,)))
    # thresholds
    tb = dict(shape=(9,), dt="float64", salt=0, v=0.4, mode="soft", sub=0)
    star("threshold", tb, dict(shape=[(3, 3)], dt=["float32", "complex128", "int64"], salt=[1], v=[0.9], mode=["hard", "garrote", "greater", "less", "x"], sub=[2]),
         lambda shape, dt, salt, v, mode, sub: ((lambda e, x: pywt.threshold(x, v, mode, sub)), X(shape, salt, dt)))
    for lo, hi in ((0.2, 0.6), (0.2, 0.4), (0.1, 0.6), (0.6, 0.2)):
        add("threshold_firm %s %s" % (lo, hi), lambda e, x, lo=lo, hi=hi: pywt.threshold_firm(x, lo, hi), X((9,)))
    # packets
    pb = dict(salt=0, w="db2", mode="symmetric", lev=2, visit="natural")
    vis = {"natural": leaves("natural"), "freq": leaves("freq"), "recon": recon, "prune": prune}
    for nm, cls, sh in (("wp", pywt.WaveletPacket, (8,)), ("wp2", pywt.WaveletPacket2D, (8, 8)), ("wpn", pywt.WaveletPacketND, (4, 8))):
        v = [k for k in vis if nm != "wpn" or k != "freq"]
        star(nm, pb, dict(salt=[1], w=["haar", "@fake", "@attr", "@db2"], mode=["zero", "periodization"], lev=[1], visit=v[1:]),
             lambda salt, w, mode, lev, visit, cls=cls, sh=sh: ((lambda e, x: packet(cls, x, wav(e, w), mode, lev, vis[visit])), X(sh, salt)))
    for f in ("ecg", "aero", "camera", "nino"):
        add("data " + f, lambda e, f=f: getattr(pywt.data, f)())
    for n, f in itertools.product((16, 40), ("Blocks", "bumps", "LinChirp", "list", "HypChirps", "Chirps", "Piece-Regular", "Riemann")):
        add("demo_signal %s %d" % (f, n), lambda e, f=f, n=n: pywt.data.demo_signal(f, n) if f != "list" else pywt.data.demo_signal("list"))
    assert len({c.label for c in out}) == len(out)
    return out
