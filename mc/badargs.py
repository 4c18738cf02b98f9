"""Table of public functions with a valid call and, per parameter, values outside the documented domain.

A plain value must be rejected with an ordinary exception. L(value) marks a value the documentation leaves open
(floats where integers are meant, zero-size axes that are not transformed, ...): it may be accepted or rejected,
but must not hang, crash, or modify anything.
"""
import numpy as np
import pywt


class L:
    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return "L(%r)" % (self.v,)


A = np.arange
z = np.zeros


class Unreadable:
    """An object that is nothing pywt knows about."""

    def __repr__(self):
        return "<object>"


obj = Unreadable()


def rep(d_, **k):
    d = dict(d_)
    d.update(k)
    return d


def drop(d_, *k):
    return {a: b for a, b in d_.items() if a not in k}


def packet(cls, level=1):
    """Constructors are lazy: force one decomposition."""
    def f(**kw):
        t = cls(**kw)
        t.get_level(level)
        return t.data, [n.path for n in t.get_level(level)], [n.data for n in t.get_level(level)]
    f.__name__ = cls.__name__
    return f


def table(variant="f8"):
    """variant: dtype of the valid data (f8, f4, c16, c8, i8)."""
    dt = np.dtype(variant)
    x1 = A(16).astype(dt)
    x2 = A(64).reshape(8, 8).astype(dt)
    x3 = A(128).reshape(4, 8, 4).astype(dt)
    if dt.kind == "c":
        x1, x2, x3 = x1 * (1 + 2j), x2 * (1 - 1j), x3 * (2 + 1j)
        x1, x2, x3 = x1.astype(dt), x2.astype(dt), x3.astype(dt)
    cw = pywt.ContinuousWavelet("mexh")
    rag = [[1.0, 2.0], [3.0]]
    W = ["nope", "", None, 3, "mexh", cw, ("nope", "db2"), b"db2\xff", 1.5, obj, [], [[1, 2], [3, 4]], "db0", "db39",
         "coif18", "bior9.9", "sym1", "db2 ", "db", "db02", L("DB2")]
    W1 = W + [["db2", "db2"]]                          # 1-D functions take one wavelet
    WN = W + [["db2", "db2", "db2"]]                   # one per axis (of 2)
    M = ["nope", "", None, -1, 9, 100, 2 ** 40, 1.5, obj, ["symmetric"] * 4, [], ("nope", "zero"), "zero ", "zer",
         L(b"zero"), L("ZERO")]
    M1 = M + [["zero", "zero"]]
    MN = M + [["zero", "zero", "zero"]]
    D = [None, "abc", 5.0, [], z((0,)), z((4, 0)), rag, obj, np.array(["a", "b", "c", "d"]), {}, np.array(3.0),
         [1, "x", 3, 4], L(z((0, 4))), L(z((4, 0, 4))), L([None] * 8)]
    LV = [-1, -2, "x", obj, [1], -2 ** 70, (), L(1.5), L(2.0), L(True)]
    LVS = LV + [2 ** 70]

    def AX(nd):
        return [nd, nd + 1, -nd - 1, -nd - 2, "x", None, 2 ** 40, -2 ** 40, (0,), [], L(0.0), L(0.5)]

    def AX2(nd):
        r = [(0, nd), (nd, 0), (-nd - 1, 0), (0, -nd - 1), ("x", 0), "ab", (2 ** 40, 0), (None, 0), (0,), (), 5, None,
             (0, 1, 0), L((0.0, 1))]
        return r

    def AXN(nd):
        return [(0, nd), (nd,), (-nd - 1, 0), ("x", 0), "ab", (2 ** 40, 0), (None, 0), 5, L((0.0, 1))]
    rp2 = [(0, 0), (0, -2), (1, 1), (-1, 1)]           # repeated axes (of 2-D data)
    lrp2 = [L(v) for v in rp2]
    c1 = pywt.wavedec(x1, "db2", level=2)
    c2 = pywt.wavedec2(x2, "db2", level=2)
    cn = pywt.wavedecn(x2, "db2", level=2)
    d2 = pywt.dwt2(x2, "db2")
    dn = pywt.dwtn(x2, "db2")
    s1 = pywt.swt(x1, "db2", 2)
    s1t = pywt.swt(x1, "db2", 2, trim_approx=True)
    s2 = pywt.swt2(x2, "db2", 2)
    s2t = pywt.swt2(x2, "db2", 2, trim_approx=True)
    sn = pywt.swtn(x2, "db2", 2)
    snt = pywt.swtn(x2, "db2", 2, trim_approx=True)
    C1 = [None, [], "abc", 5, {}, obj, [c1[0], z((3, 3))], [z((0,)), z((0,))], [c1[0], c1[1][:-1], c1[2]],
          [c1[0], c1[1], c1[2][:-2]], [c1[0][:-1]] + c1[1:], [c1[0], "abc"], [c1[0], 5.0],
          [c1[0], (c1[1], c1[1], c1[1])], [c1[0], {"d": c1[1]}], z((2, 3, 3)), [c1[0], z((0,))],
          [c1[0], c1[1], c1[2], c1[2]], [c1[0][None], c1[1]], [c1[0], c1[1][None]], L([None]), L([None, c1[1]])]
    h, v, d = c2[1]
    C2 = [None, [], "abc", 5, obj, [c2[0], h], [c2[0], (h, v)], [c2[0], (h, v, d, h)], [c2[0], (h[:-1], v, d)],
          [c2[0], (h, v[:, :-1], d)], [c2[0], (h, v, d[:-1])], [c2[0], c2[1], c2[2][:2]], [c2[0][:-1], c2[1]],
          [c2[0][:, :-1], c2[1]], [c2[0], (z((3,)),) * 3], [c2[0], "abc"], [c2[0], {"da": h}],
          [z((0, 0)), (z((0, 0)),) * 3], [c2[0], 5], [c2[0][:-2], c2[1]], [c2[0], (h[:-2], v[:-2], d[:-2])],
          [c2[0], None], [c2[0], (h[None], v[None], d[None])], [c2[0][0], c2[1]], L([None])]
    e = cn[1]
    CN = [None, [], "abc", 5, [cn[0], e["dd"]], [cn[0], rep(e, dd=e["dd"][:-1])], [cn[0], rep(e, ad=e["ad"][:, :-1])],
          [cn[0], {"xx": e["dd"]}], [cn[0], {"d": e["dd"]}], [cn[0], {"ddd": e["dd"]}], [cn[0], (1, 2, 3)],
          [cn[0][:-1], e], [cn[0], rep(e, dd=z((3,)))], [cn[0], cn[2]], [cn[0], 5], [cn[0], rep(e, dd="abc")],
          [cn[0], rep(e, **{"": cn[0]})], [z((0, 0)), {k: z((0, 0)) for k in e}], [cn[0], None],
          [cn[0], rep(e, ddd=e["dd"])], [cn[0][0], e], L([None]), L([cn[0], rep(e, aa=e["dd"])])]
    CNP = [None, [], "abc", 5, [cn[0], e["dd"]], [cn[0], (1, 2, 3)], [cn[0], 5], [cn[0], None]]
    bh, bv, bd = d2[1]
    D2 = [None, [], "abc", 5, obj, (d2[0],), (d2[0], (bh, bv)), (d2[0], (bh, bv, bd, bh)), (d2[0], (bh[:-1], bv, bd)),
          (d2[0], (bh, bv[:, :-1], bd)), (d2[0], (bh, bv, bd[:-1])), (None, (None, None, None)), (d2[0], (z(5),) * 3),
          d2 + (d2[0],), (z((0, 0)), (z((0, 0)),) * 3), ("abc", d2[1]), (d2[0][:-1], d2[1]), (d2[0][:, :-1], d2[1]),
          (d2[0], None), (d2[0], 5), L((d2[0], d2[0]))]
    DN = [None, {}, "abc", 5, [], obj, rep(dn, dd=dn["dd"][:-1]), rep(dn, ad=dn["ad"][:, :-1]),
          rep(dn, da=dn["da"][:-1]), rep(dn, aa=dn["aa"][:-1]), {"xx": dn["dd"]}, {"d": dn["dd"]},
          rep(dn, ddd=dn["dd"]), rep(dn, d=dn["dd"]), {k: None for k in dn}, {k: z((0, 0)) for k in dn},
          rep(dn, dd="abc"), rep(dn, dd=z(5)), list(dn.values()), rep(dn, **{"ab": dn["dd"]})]
    fs = pywt.fswavedecn(x2, "db2")
    arr, sl = pywt.coeffs_to_array(cn)
    rv, rs, rsh = pywt.ravel_coeffs(cn)
    a10, d10 = s1[0]
    a11, d11 = s1[1]
    S1 = [None, [], "abc", 5, obj, {}, [s1[0], (a11[:-1], d11[:-1])], [s1[0], (a11, d11[:-2])], [(a10, d10[:-4]), s1[1]],
          [(a10[:-4], d10[:-4]), s1[1]], [s1[0], (a11,)], [s1t[0], s1t[1][:-2]], [s1t[0], s1t[1], s1t[2][:-8]],
          [s1t[0][:8], s1t[1], s1t[2]], [(z(6), z(6))] * 2, [(z(0), z(0))], [s1[0], None], [s1[0], s1[1] + s1[1]],
          [(z(12), z(12))] * 3, [s1[0], "ab"], L([s1t[0]]), L([(z((2, 2)), z((2, 2)))])]
    p0, (p1, p2, p3) = s2[0]
    S2 = [None, [], "abc", 5, obj, [s2[0], None], [(p0, (p1, p2))], [(p0[:-2], (p1, p2, p3))], [(p0, (p1, p2[:-2], p3))],
          [(p0, (p1, p2, p3[:, :-2]))], [(p0, (p1[:4], p2, p3))], [s2[0], s2[0][0]], L([s2[0], (p0[:4], (p1, p2, p3))]),
          [s2[0], (p0, (p1[:4], p2[:4], p3[:4]))], [(z((8, 6)), (z((8, 6)),) * 3)] * 2, [(z(8), (z(8),) * 3)],
          [s2t[0], s2t[1], tuple(q[:4] for q in s2t[2])], [s2t[0][:4], s2t[1]], L([(z((0, 0)), (z((0, 0)),) * 3)])]
    t = sn[0]
    SN = [None, [], "abc", 5, obj, [sn[0], None], [rep(t, dd=z((4, 8)))], [rep(t, dd=z((8, 4)))], [rep(t, aa=z((4, 8)))],
          [{"xx": x2}], [{k: z((8, 6)) for k in t}] * 2, [{k: z(8) for k in t}], [rep(t, ddd=x2)], [rep(t, d=x2)],
          [t, {k: q[:4] for k, q in t.items()}], [snt[0], {k: q[:4] for k, q in snt[1].items()}],
          L([drop(t, "ad")]), L([{k: z((0, 0)) for k in t}])]
    pw = [-1, (-1, 2), (2, -1), (1, 2, 3), [(1, 2), (3, 4)], "x", None, [], L(1.5), L((0.5, 1))]
    swl = LVS + [0, 5, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 1, 2 ** 63, 2 ** 64 - 1]
    sws = LVS + [3, 4, 2 ** 31, 2 ** 32 - 2, 2 ** 32 - 1, 2 ** 63, 2 ** 64 - 2, 2 ** 64 - 1]
    sn_l = [-1, "x", obj, [1], -2 ** 70, 2 ** 70, 4, 100, 2 ** 32, 2 ** 64, L(None), L(1.5), L(0)]
    sn_s = [-1, "x", obj, [1], -2 ** 70, 2 ** 70, 2, 3, 2 ** 32, None, L(0.5)]
    PL = [-1, "x", None, -100, 0, L(1.5), L(2.0)]
    F = {}

    def add(name, f, base, bad):
        F[name] = (f, base, bad)
    add("dwt", pywt.dwt, dict(data=x1, wavelet="db2", mode="zero", axis=-1),
        dict(data=D, wavelet=W1, mode=M1, axis=AX(1)))
    add("dwt_3d", pywt.dwt, dict(data=x3, wavelet="db2", mode="zero", axis=1),
        dict(data=D, wavelet=W1, mode=M1, axis=AX(3)))
    add("idwt", pywt.idwt, dict(cA=x1, cD=x1, wavelet="db2", mode="zero", axis=-1),
        dict(cA=D[1:] + [x1[:-1], x1[:-2], x2], cD=D[1:] + [x1[:-1], x1[:-2], x2], wavelet=W1, mode=M1, axis=AX(1)))
    add("idwt_3d", pywt.idwt, dict(cA=x3, cD=x3, wavelet="db2", mode="zero", axis=1),
        dict(cA=D[1:] + [x3[:-1], x3[:, :-1], x3[:, :, :-1], x2], cD=D[1:] + [x3[:-1], x3[:, :-1], x3[:, :, :-1], x2],
             wavelet=W1, mode=M1, axis=AX(3)))
    add("idwt_a", pywt.idwt, dict(cA=x1, cD=None, wavelet="db2"), dict(cA=D))
    add("idwt_d", pywt.idwt, dict(cA=None, cD=x1, wavelet="db2"), dict(cD=D))
    P = ["x", "", None, 1, "ad", "A", L(b"a"), obj, ["a"], "aa"]
    add("downcoef", pywt.downcoef, dict(part="a", data=x1, wavelet="db2", mode="zero", level=1),
        dict(part=P, data=D + [x2], wavelet=W1, mode=M1, level=LV + [0]))
    add("upcoef", pywt.upcoef, dict(part="d", coeffs=x1, wavelet="db2", level=1, take=0),
        dict(part=P, coeffs=D + [x2], wavelet=W1, level=LV + [0], take=[-1, "x", None, L(1.5), L(10 ** 6)]))
    add("pad", pywt.pad, dict(x=x1, pad_widths=(2, 3), mode="zero"),
        dict(x=[None, obj, rag] + [L(q) for q in (z((0,)), z((0, 4)), [], "abc", {}, 5.0, np.array(["a"]))],
             pad_widths=pw, mode=[m for m in M1 if m not in (-1, 9, 100, 2 ** 40)]))
    add("pad_2d", pywt.pad, dict(x=x2, pad_widths=((1, 2), (3, 4)), mode="symmetric"),
        dict(pad_widths=pw[:1] + [(1, 2, 3), [(1, 2)] * 3, [(1, -2), (3, 4)], "x", None], mode=["nope", "", None]))
    add("wavedec", pywt.wavedec, dict(data=x1, wavelet="db2", mode="zero", level=2, axis=-1),
        dict(data=D, wavelet=W1, mode=M1, level=LV, axis=AX(1)))
    add("wavedec_3d", pywt.wavedec, dict(data=x3, wavelet="db2", mode="zero", level=1, axis=1),
        dict(data=D, wavelet=W1, mode=M1, level=LV, axis=AX(3)))
    add("waverec", pywt.waverec, dict(coeffs=c1, wavelet="db2", mode="zero", axis=-1),
        dict(coeffs=C1, wavelet=W1, mode=M1, axis=AX(1)))
    add("dwt2", pywt.dwt2, dict(data=x2, wavelet="db2", mode="zero", axes=(0, 1)),
        dict(data=D + [x1], wavelet=WN, mode=MN, axes=AX2(2) + lrp2))
    add("dwtn", pywt.dwtn, dict(data=x2, wavelet="db2", mode="zero", axes=(0, 1)),
        dict(data=D, wavelet=WN, mode=MN, axes=AXN(2) + lrp2))
    add("idwt2", pywt.idwt2, dict(coeffs=d2, wavelet="db2", mode="zero", axes=(0, 1)),
        dict(coeffs=D2, wavelet=WN, mode=MN, axes=AX2(2) + lrp2))
    add("idwtn", pywt.idwtn, dict(coeffs=dn, wavelet="db2", mode="zero", axes=(0, 1)),
        dict(coeffs=DN, wavelet=WN, mode=MN, axes=AXN(2) + lrp2 + [(0,), (0, 1, 0)]))
    add("wavedec2", pywt.wavedec2, dict(data=x2, wavelet="db2", mode="zero", level=1, axes=(0, 1)),
        dict(data=D + [x1], wavelet=WN, mode=MN, level=LV, axes=AX2(2) + rp2))
    add("wavedecn", pywt.wavedecn, dict(data=x2, wavelet="db2", mode="zero", level=1, axes=(0, 1)),
        dict(data=D, wavelet=WN, mode=MN, level=LV, axes=AXN(2) + rp2))
    add("waverec2", pywt.waverec2, dict(coeffs=c2, wavelet="db2", mode="zero", axes=(0, 1)),
        dict(coeffs=C2, wavelet=WN, mode=MN, axes=AX2(2) + [(0, 0), (1, 1), L((0, -2))]))
    add("waverecn", pywt.waverecn, dict(coeffs=cn, wavelet="db2", mode="zero", axes=(0, 1)),
        dict(coeffs=CN, wavelet=WN, mode=MN, axes=AXN(2) + [(0, 0), (1, 1), L((0, -2)), (0,), (0, 1, 0)]))
    add("fswavedecn", pywt.fswavedecn, dict(data=x2, wavelet="db2", mode="zero", levels=1, axes=(0, 1)),
        dict(data=D, wavelet=WN, mode=MN, levels=[-1, -2, "x", obj, [1], -2 ** 70, (), (1,), (1, 1, 1), (1, -1),
                                                  (1, "x"), L(1.5)], axes=AXN(2) + rp2))
    add("fswaverecn", pywt.fswaverecn, dict(fswavedecn_result=fs), dict(fswavedecn_result=[None, x2, 5, "abc", cn, {}]))
    add("FswavedecnResult", lambda **k: pywt.FswavedecnResult(**k).coeffs,
        dict(coeffs=fs.coeffs, coeff_slices=fs.coeff_slices, wavelets=fs.wavelets,
             mode_enums=[pywt.Modes.zero] * 2, axes=fs.axes),
        dict(wavelets=[["db2", "db2"], [None, None], [pywt.Wavelet("db2"), "db2"], L([])],
             mode_enums=[["zero", "zero"], [None, None], [0.5, 0], L([]), L([0]), L([0, 0, 0])]))
    add("fsw_getitem", lambda key: fs[key], dict(key=(1, 1)),
        dict(key=[(1,), (1, 1, 1), (1, 3), (9, 0), (-1, 0), (0.5, 0), "ab", None, 1, ("a", 0), (), (1, -1), (2 ** 70, 0)]))
    add("fsw_setitem", lambda key, val: fs.__setitem__(key, val), dict(key=(1, 1), val=fs[(1, 1)]),
        dict(key=[(1,), (1, 3), (-1, 0), None], val=[z((1, 1)), None, "abc", fs[(1, 1)][:-1]]))
    add("swt", pywt.swt, dict(data=x1, wavelet="db2", level=2, start_level=0, axis=-1),
        dict(data=D + [z(7), z(6), z(1), z((4, 6))], wavelet=W1, level=swl, start_level=sws, axis=AX(1)))
    add("swt_3d", pywt.swt, dict(data=x3, wavelet="db2", level=2, start_level=0, axis=1),
        dict(data=D + [z((4, 7, 4)), z((4, 6, 4))], wavelet=W1, level=swl, start_level=sws, axis=AX(3)))
    add("iswt", pywt.iswt, dict(coeffs=s1, wavelet="db2", norm=False, axis=-1),
        dict(coeffs=S1, wavelet=W1, axis=AX(1)))
    add("iswt_t", pywt.iswt, dict(coeffs=s1t, wavelet="db2", norm=True), dict(coeffs=S1, wavelet=W1))
    add("swt2", pywt.swt2, dict(data=x2, wavelet="db2", level=2, start_level=0, axes=(0, 1)),
        dict(data=D + [x1, z((7, 8)), z((8, 6))], wavelet=WN, level=sn_l, start_level=sn_s, axes=AX2(2) + rp2))
    add("swtn", pywt.swtn, dict(data=x2, wavelet="db2", level=2, start_level=0, axes=(0, 1)),
        dict(data=D + [z((7, 8)), z((8, 6))], wavelet=WN, level=sn_l, start_level=sn_s, axes=AXN(2) + rp2))
    add("iswt2", pywt.iswt2, dict(coeffs=s2, wavelet="db2", norm=False, axes=(0, 1)),
        dict(coeffs=S2, wavelet=WN, axes=[q for q in AX2(2) if q is not None] + rp2))
    add("iswtn", pywt.iswtn, dict(coeffs=sn, wavelet="db2", axes=(0, 1), norm=False),
        dict(coeffs=SN, wavelet=WN, axes=AXN(2) + rp2 + [(0,), (0, 1, 0)]))
    T = ["x", None, 5, "", "dwt ", obj]
    for kind in ("swt", "dwt"):
        add("mra_" + kind, pywt.mra, dict(data=x1, wavelet="db2", level=2, axis=-1, transform=kind,
                                          mode="periodization"),
            dict(data=D, wavelet=W1, level=LV + ([9] if kind == "swt" else []), axis=AX(1),
                 transform=T + ["swt2", "dwtn"], mode=M1 + (["symmetric", "zero"] if kind == "swt" else [])))
        add("mra2_" + kind, pywt.mra2, dict(data=x2, wavelet="db2", level=2, axes=(0, 1), transform=kind + "2",
                                            mode="periodization"),
            dict(data=D + [x1], wavelet=WN, level=LV + ([9] if kind == "swt" else []), axes=AX2(2) + rp2[::2],
                 transform=T + ["swt", "dwtn"], mode=MN + (["symmetric", "zero"] if kind == "swt" else [])))
        add("mran_" + kind, pywt.mran, dict(data=x2, wavelet="db2", level=2, axes=(0, 1), transform=kind + "n",
                                            mode="periodization"),
            dict(data=D, wavelet=WN, level=LV + ([9] if kind == "swt" else []), axes=AXN(2) + rp2[::2],
                 transform=T + ["swt", "dwt2"], mode=MN + (["symmetric", "zero"] if kind == "swt" else [])))
    add("imra", pywt.imra, dict(mra_coeffs=[x1, x1]),
        dict(mra_coeffs=[None, 5, [], [x1, x1[:-1]], [x1, x2[:, :3]], [x1, None]]))
    add("imra2", pywt.imra2, dict(mra_coeffs=[x2, (x2, x2, x2)]),
        dict(mra_coeffs=[None, 5, [], [x2, (x2, x2, x2[:-1])], [x2, None], [x2, 5], L([x2, (x2, x2)]), L([x2, x1])]))
    add("imran", pywt.imran, dict(mra_coeffs=[x2, {"dd": x2, "ad": x2, "da": x2}]),
        dict(mra_coeffs=[None, 5, [], [x2, {"dd": x2[:-1]}], [x2, 5], [x2, (x2, x2)]]))
    SC = [0, -1, [0], [1, -1], [1, 0], [1, 0, 2], [3, -2, 1], [2, -1e-9, 1, 4], "x", None, [np.nan], [1, np.nan, 2], [np.inf], [1, np.inf], [1, np.nan], [[1, 2], [3]], [1j], obj,
          L([]), -0.5]
    DC = [L(q) if isinstance(q, (list, np.ndarray)) and np.size(np.array(q, dtype=object)) == 0 else q for q in D]
    for mth in ("conv", "fft"):
        add("cwt_" + mth, pywt.cwt, dict(data=x1, scales=[1, 2], wavelet="mexh", sampling_period=1.0, method=mth, axis=-1),
            dict(data=DC, scales=SC, wavelet=["nope", "", None, 3, "db2", pywt.Wavelet("db2"), [], ["mexh"], "mex", obj],
                 sampling_period=["x", None, obj, L([1, 2])], method=["x", None, 5, "", "convolve", "fft2"],
                 axis=[(0,), None, [], L(1), L("x"), L(0.5)]))
    add("cwt_2d", pywt.cwt, dict(data=x2, scales=[1, 2], wavelet="cmor1.5-1.0", axis=0),
        dict(data=DC, axis=[2, -3, 5, "x", None, (0,), 2 ** 40, L(0.5)]))
    add("coeffs_to_array", pywt.coeffs_to_array, dict(coeffs=cn, padding=0, axes=(0, 1)),
        dict(coeffs=CNP, padding=["x", obj], axes=AXN(2) + [(0, 0), L((0, -2))]))
    add("coeffs_to_array_pad", pywt.coeffs_to_array, dict(coeffs=pywt.wavedecn(x2, "haar", level=2), padding=None, axes=(0, 1)), dict(coeffs=CNP + [cn]))
    OF = ["x", None, "wavedec", "", 5, "wavedecN", L("wavedec2")]
    add("array_to_coeffs", pywt.array_to_coeffs, dict(arr=arr, coeff_slices=sl, output_format="wavedecn"),
        dict(arr=[None, 5, [1, 2]], coeff_slices=[None, [], 5, "abc"], output_format=OF))
    add("ravel_coeffs", pywt.ravel_coeffs, dict(coeffs=cn), dict(coeffs=CNP))
    add("unravel_coeffs", pywt.unravel_coeffs, dict(arr=rv, coeff_slices=rs, coeff_shapes=rsh, output_format="wavedecn"),
        dict(arr=[None, 5, rv[:-1], rv[:3]], coeff_slices=[None, [], 5, rs[:-1]],
             coeff_shapes=[None, [], 5, rsh[:-1], rsh[::-1]], output_format=OF))
    add("wavedecn_shapes", pywt.wavedecn_shapes, dict(shape=(8, 8), wavelet="db2", mode="zero", level=1, axes=(0, 1)),
        dict(shape=[None, "ab", 5, (), (0, 8), (8, 0), (-1, 8), ("x", 8), (None, 8), L((8.5, 8))], wavelet=WN, mode=MN,
             level=LV, axes=AXN(2) + rp2))
    add("wavedecn_size", pywt.wavedecn_size, dict(shapes=pywt.wavedecn_shapes((8, 8), "db2", level=1)),
        dict(shapes=[None, 5, "abc", [], L([None]), L([5])]))
    add("dwtn_max_level", pywt.dwtn_max_level, dict(shape=(8, 8), wavelet="db2", axes=(0, 1)),
        dict(shape=[None, "ab", 5, (-1, 8), ("x", 8), (None, 8)], wavelet=WN, axes=AXN(2) + rp2))
    add("dwt_max_level", pywt.dwt_max_level, dict(data_len=16, filter_len="db2"),
        dict(data_len=[-1, "x", None, -2 ** 70, 2 ** 70, [5], obj],
             filter_len=["nope", "", None, -1, 0, 1, "mexh", cw, 2 ** 70, -2 ** 70, [4], 2.5, "db0", obj]))
    add("dwt_coeff_len", pywt.dwt_coeff_len, dict(data_len=16, filter_len=4, mode="zero"),
        dict(data_len=[-1, 0, "x", None, 2 ** 70, -2 ** 70, obj], filter_len=[0, -1, "nope", None, 2 ** 70, obj], mode=M1))
    add("swt_max_level", pywt.swt_max_level, dict(input_len=16), dict(input_len=[-1, "x", None, 2 ** 70, 0, obj]))
    add("threshold", pywt.threshold, dict(data=x1, value=2, mode="soft", substitute=0),
        dict(data=["abc", None, rag, obj], value=["x", None, obj, L(-1)], mode=["x", None, 5, "", "Soft", "soft "],
             substitute=[L(obj), L("x")]))
    if dt.kind != "c":
        add("threshold_firm", pywt.threshold_firm, dict(data=x1, value_low=2, value_high=3),
            dict(data=["abc", None, rag, obj], value_low=[-1, 4, "x", None, obj], value_high=[-1, 1, "x", None, obj]))
    add("Wavelet", lambda **k: pywt.Wavelet(**k).filter_bank, dict(name="db2"), dict(name=[q for q in W1 if not isinstance(q, L)]))
    add("Wavelet_fb", lambda **k: pywt.Wavelet(**k).filter_bank, dict(name="x", filter_bank=[[1, 2]] * 4),
        dict(filter_bank=[[], [[1]], [[1, 2]] * 3, [[1, 2]] * 5, [[1, 2], [3, 4], [5, 6], [7]], [[], [], [], []], "abc", 5,
                          [[1, "x"]] * 4, [None] * 4, [[1, 2], [3, 4], [5, 6], None], [[1j, 2]] * 4, [[[1, 2]]] * 4,
                          [[1, 2], [3, 4], [[5, 6]], [7, 8]], "abcd", {1: 2}, obj]))
    add("ContinuousWavelet", lambda **k: pywt.ContinuousWavelet(**k).wavefun(4), dict(name="mexh", dtype=np.float64),
        dict(name=["nope", "", None, 3, "db2", "db1", "cmor1.5-", "cmorx-1", "gaus9", "gaus0", "cgau9", "cgau0", "shan1-",
                   "fbsp1-1.5", "fbsp1.5-1-1x", "mexh1", "morl ", "fbsp0-1-1", "gaus", "cgau", "cmor1.5-1.0-1", "gaus10",
                   "mexhx", obj, L("cmor-1-1"), L("cmor1.5-1.0x"), L("shan0-1"), L("cmor0-0")],
             dtype=[np.int32, "x", "complex128", np.float16, np.longdouble, obj]))
    add("DiscreteContinuousWavelet", pywt.DiscreteContinuousWavelet, dict(name="db2"),
        dict(name=["nope", "", None, 3, "mexhx", "db0", obj]))
    WI = ["nope", "", None, 3, [], obj, "db0", "gaus9"]
    add("integrate_wavelet", pywt.integrate_wavelet, dict(wavelet="db2", precision=4), dict(wavelet=WI, precision=PL))
    add("integrate_cwavelet", pywt.integrate_wavelet, dict(wavelet="mexh", precision=4), dict(precision=PL))
    add("central_frequency", pywt.central_frequency, dict(wavelet="db2", precision=4), dict(wavelet=WI, precision=PL))
    add("scale2frequency", pywt.scale2frequency, dict(wavelet="db2", scale=2, precision=4),
        dict(wavelet=WI, scale=["x", None, obj], precision=PL))
    add("frequency2scale", pywt.frequency2scale, dict(wavelet="db2", freq=2, precision=4),
        dict(wavelet=WI, freq=["x", None, obj], precision=PL))
    add("wavefun", pywt.Wavelet("db2").wavefun, dict(level=3), dict(level=[-1, "x", None, 0, -100, obj, L(1.5)]))
    add("wavefun_bior", pywt.Wavelet("bior2.2").wavefun, dict(level=3), dict(level=[-1, "x", None, 0, -100, obj, L(1.5)]))
    add("cwavefun", pywt.ContinuousWavelet("mexh").wavefun, dict(level=3, length=None),
        dict(level=[-1, "x", -100, obj, None, L(0), L(1.5)], length=[-1, 0, "x", obj, L(1.5)]))
    add("wavelist", pywt.wavelist, dict(family=None, kind="all"),
        dict(family=["nope", "", 3, "db2", "DBx", obj], kind=["x", None, "", "Discrete", obj]))
    add("families", pywt.families, dict(short=True), dict())
    add("qmf", pywt.qmf, dict(filt=[1, 2, 3, 4]), dict(filt=[None, "abc", rag, obj]))
    add("orthogonal_filter_bank", pywt.orthogonal_filter_bank, dict(scaling_filter=[1, 2, 3, 4]),
        dict(scaling_filter=[None, "abc", [1, 2, 3], rag, 5, [1], obj, L([]), L([[1, 2], [3, 4]])]))
    add("from_object", pywt.Modes.from_object, dict(mode="zero"), dict(mode=M1))
    add("WaveletPacket", packet(pywt.WaveletPacket), dict(data=x1, wavelet="db2", mode="zero", maxlevel=2),
        dict(data=[L(None)] + D[1:5] + D[6:-3] + [L(z((0, 4)))], wavelet=W1, mode=M1, maxlevel=["x", -1, 0, obj, [1], L(1.5)]))
    add("WaveletPacket2D", packet(pywt.WaveletPacket2D), dict(data=x2, wavelet="db2", mode="zero", maxlevel=2, axes=(0, 1)),
        dict(data=[L(None)] + D[1:-3] + [x1], wavelet=WN, mode=MN, maxlevel=["x", -1, 0, obj, L(1.5)], axes=AX2(2)[:-2] + lrp2))
    add("WaveletPacketND", packet(pywt.WaveletPacketND), dict(data=x2, wavelet="db2", mode="zero", maxlevel=2, axes=(0, 1)),
        dict(data=[L(None)] + D[1:-3], wavelet=WN, mode=MN, maxlevel=["x", -1, 0, obj, L(1.5)], axes=AXN(2) + rp2[::2]))

    def node1(path, mode="getitem", value=None, decompose=True, data=None):
        t = pywt.WaveletPacket(x1, "db2", "symmetric", maxlevel=2)
        if mode == "getitem":
            return t[path].data
        if mode == "get_node":
            return t.get_subnode(path, decompose).data
        if mode == "del":
            del t[path]
            return None
        if mode == "set":
            t[path] = value
            return t[path].data
        if mode == "level":
            return [n.path for n in t.get_level(path, value)]
        raise AssertionError(mode)
    bp = ["x", "aax", "aaa", 5, None, "ab", "A", obj, ["a"], " a"]
    add("wp_getitem", node1, dict(path="ad", mode="getitem"), dict(path=bp))
    add("wp_get_node", node1, dict(path="a", mode="get_node"), dict(path=bp))
    add("wp_del", node1, dict(path="a", mode="del"), dict(path=bp))
    add("wp_set", node1, dict(path="a", mode="set", value=[1.0, 2.0]), dict(path=bp, value=["abc", obj, rag, L(None)]))
    add("wp_level", node1, dict(path=1, mode="level", value="freq"),
        dict(path=[3, 100, "x", None, obj], value=["x", None, "", 5]))
    return F
