"""C13: wavelet objects under every history of construct / modify / copy / pickle / delete operations up to a depth.

The reference keeps, per object, a plain record of filters and attributes. Every history over the alphabet is run on fresh
objects; after its last operation every live object is compared with its record (attributes, filters, and the filters the
native code uses in single and double precision, seen through a transform). All banks of small length/rank patterns are
tried for validation; qmf and orthogonal_filter_bank are compared with their definitions on all small vectors."""
import copy
import gc
import itertools
import pickle

import numpy as np
import pywt

from common import DISCRETE, Quiet

ID = "C13"
BOUNDS = dict(
    quick="histories of depth <= 3 over 36 operations on 2 object slots (discrete, custom and continuous objects), depth 4 over 14; "
          "all 4**4 length patterns and 3**4 rank patterns of banks; pickle protocols 0-5 and copies of all 132 wavelets; "
          "qmf/orthogonal_filter_bank on all vectors over {-2,0,1,3} of even length <= 6",
    thorough="depth 4 over all 36 operations, depth 5 over 14")
ASSUMPTIONS = ["an odd-length custom filter is reported padded with one zero, as the C layer documents"]
CHUNK = 4

FB = ([0.1, 0.7, -0.2, 0.4], [0.3, -0.5, 0.25, 1.5], [-0.75, 0.5, 0.1, 2.0], [1.0, 0.2, -0.3, 0.6])
CONTN = ["gaus2", "cmor1.5-1.0", "mexh", "fbsp2-1.5-0.5", "shan1.5-1.0", "morl", "cgau3", "cmor"]


class Bank:
    def __init__(self, fb):
        self.filter_bank = fb


class OldBank:
    def __init__(self, fb):
        self.fb = fb

    def get_filters_coeffs(self):
        return self.fb


def rec_disc(w_name, fb, number=None, **kw):
    n = len(fb[0]) + len(fb[0]) % 2
    r = dict(kind="d", name=w_name, fb=tuple(list(map(float, f)) + [0.0] * (n - len(f)) for f in fb), orthogonal=False,
             biorthogonal=False, symmetry="unknown", family_name="", short_family_name="", vanishing_moments_psi=0,
             vanishing_moments_phi=0, family_number=number)
    r.update(kw)
    return r


ATTR_D = ["name", "orthogonal", "biorthogonal", "symmetry", "family_name", "short_family_name", "vanishing_moments_psi",
          "vanishing_moments_phi", "family_number"]
ATTR_C = ["name", "orthogonal", "biorthogonal", "symmetry", "family_name", "short_family_name", "family_number", "complex_cwt",
          "lower_bound", "upper_bound", "center_frequency", "bandwidth_frequency", "fbsp_order", "dt"]
BASE = {}


def base(name):
    """The record of a built-in, taken once from the first object of that name in this process (C12 checks its contents)."""
    if name not in BASE:
        with Quiet():
            w = pywt.DiscreteContinuousWavelet(name)
        BASE[name] = snap(w)
    return copy.deepcopy(BASE[name])


def snap(w):
    if isinstance(w, pywt.Wavelet):
        r = {a: getattr(w, a) for a in ATTR_D}
        r.update(kind="d", fb=tuple(map(list, w.filter_bank)))
    else:
        r = {a: getattr(w, a) for a in ATTR_C}
        r["kind"] = "c"
    return r


def native(w, dt):
    """The filters the native code uses."""
    f = w.dec_len
    x = np.zeros(2 * f, dt)
    x[f - 1] = 1
    a, d = pywt.dwt(x, w, "zero")
    b, e = pywt.dwt(np.roll(x, -1), w, "zero")
    one = np.ones(1, dt)
    return [a, d, b, e, pywt.upcoef("a", one, w, level=1), pywt.upcoef("d", one, w, level=1)]


def native_ref(fb, dt):
    f = len(fb[0])
    out = []
    for pos in (f - 1, f - 2):
        for h in (fb[0], fb[1]):
            v = np.zeros((3 * f - 1) // 2)
            for o in range(len(v)):
                j = 2 * o + 1 - pos
                if 0 <= j < f:
                    v[o] = h[j]
            out.append(v)
    out += [np.array(fb[2]), np.array(fb[3])]
    return [v.astype(dt) for v in out]


def verify(w, r, ctx, deep=True):
    ctx.traces += 1
    for a in (ATTR_D if r["kind"] == "d" else ATTR_C):
        got = getattr(w, a)
        ctx.require(got == r[a] and type(got) is type(r[a]), "attribute %s" % a, got=got, want=r[a], hist=ctx._step)
    if r["kind"] == "d":
        fb = w.filter_bank
        ctx.require(tuple(fb) == r["fb"], "filter_bank", got=fb, want=r["fb"], hist=ctx._step)
        ctx.require((w.dec_lo, w.dec_hi, w.rec_lo, w.rec_hi) == r["fb"], "filters", hist=ctx._step)
        ctx.require((len(w), w.dec_len, w.rec_len) == (len(fb[0]),) * 3, "lengths", hist=ctx._step)
        ctx.require(tuple(w.inverse_filter_bank) == (r["fb"][2][::-1], r["fb"][3][::-1], r["fb"][0][::-1], r["fb"][1][::-1]),
                    "inverse_filter_bank", hist=ctx._step)
        if deep:
            for dt in ("float64", "float32"):
                for g, want in zip(native(w, dt), native_ref(r["fb"], dt)):
                    ctx.require(g.dtype == want.dtype and g.shape == want.shape and
                                (np.abs(g - want) <= (1e-6 if dt == "float32" else 1e-15) * np.abs(want)).all(),
                                "filters used by the native code", got=g, want=want, hist=ctx._step)


class World:
    def __init__(self):
        self.o = {0: None, 1: None}
        self.r = {0: None, 1: None}
        self.src = {0: None, 1: None}     # sequences an object was built from
        self.ret = {0: None, 1: None}     # sequences an object returned


def put(W, s, o, r, src=None):
    W.o[s], W.r[s], W.src[s], W.ret[s] = o, r, src, None


def op(W, name, s):
    """Apply one operation to slot s; returns False if it does not apply."""
    t = 1 - s
    o, r = W.o[s], W.r[s]
    kind, _, arg = name.partition(":")
    if kind == "new":
        put(W, s, pywt.DiscreteContinuousWavelet(arg), base(arg))
    elif kind == "new32":
        b = base(arg)
        b["dt"] = np.float32
        put(W, s, pywt.ContinuousWavelet(arg, np.float32), b)
    elif kind == "bank":
        fb = [list(f) for f in FB]
        n = "My Wavelet"
        want = rec_disc(n, fb)
        if arg == "list":
            put(W, s, pywt.Wavelet(n, fb), want, fb)
        elif arg == "arr":
            fb = [np.array(f) for f in FB]
            put(W, s, pywt.Wavelet(n, filter_bank=fb), want, fb)
        elif arg == "odd":
            fb = [f[:3] for f in fb]
            put(W, s, pywt.DiscreteContinuousWavelet(n, fb), rec_disc(n, fb), fb)
        elif arg == "obj":
            b = Bank(fb)
            put(W, s, pywt.Wavelet(n, b), want, fb)
        elif arg == "old":
            put(W, s, pywt.Wavelet(n, OldBank(fb)), want, fb)
        elif arg == "anon":
            put(W, s, pywt.Wavelet(filter_bank=tuple(map(tuple, fb))), rec_disc("", fb))
    elif o is None:
        return False
    elif kind == "from":            # the other slot from this one's filter bank / from this object
        if r["kind"] != "d":
            return False
        if arg == "obj":
            put(W, t, pywt.Wavelet("copy of", o), rec_disc("copy of", r["fb"]))
        else:
            fb = o.inverse_filter_bank
            put(W, t, pywt.Wavelet("inv", fb), rec_disc("inv", fb), list(fb))
    elif kind == "copy":
        put(W, t, copy.copy(o), copy.deepcopy(r))
    elif kind == "deepcopy":
        put(W, t, copy.deepcopy(o), copy.deepcopy(r))
    elif kind == "pickle":
        put(W, t, pickle.loads(pickle.dumps(o, int(arg))), copy.deepcopy(r))
    elif kind == "alias":
        put(W, t, o, r)
    elif kind == "set":
        a, v = arg.split("=")
        v = float(v)
        if a in ("orthogonal", "biorthogonal"):
            setattr(o, a, int(v))
            r[a] = bool(v)
        elif r["kind"] == "d":
            return False
        elif a == "complex_cwt":
            setattr(o, a, int(v))
            r[a] = bool(v)
        elif a == "fbsp_order":
            setattr(o, a, int(v))
            r[a] = int(v) or None
        else:
            setattr(o, a, v)
            r[a] = float(np.float32(v))
    elif kind == "ro":              # read-only attributes
        for a in ("name", "filter_bank", "dec_lo", "dec_len", "symmetry", "family_name", "family_number", "dt"):
            try:
                setattr(o, a, "x")
            except AttributeError:
                pass
            else:
                raise AssertionError("attribute %s can be assigned" % a)
    elif kind == "read":
        if r["kind"] != "d":
            return False
        W.ret[s] = [o.dec_lo, o.dec_hi, o.rec_lo, o.rec_hi] + list(o.filter_bank) + list(o.inverse_filter_bank)
    elif kind == "scribble":        # change what the object was built from or has returned
        if not (W.src[s] or W.ret[s]):
            return False
        for seq in list(W.src[s] or []) + list(W.ret[s] or []):
            for i in range(len(seq)):
                seq[i] = 99.0
        for seq in (W.src[s], W.ret[s]):
            if isinstance(seq, list):
                for f in seq:
                    if isinstance(f, list):
                        f.clear()
                del seq[:]
    elif kind == "del":
        put(W, s, None, None)
        gc.collect(0)
    elif kind == "use":
        if r["kind"] == "d":
            pywt.wavedec(np.arange(32.0), o, level=2)
            if r["fb"][0][0] == 0.1:
                str(o)
            else:
                o.wavefun(3)
        elif r["complex_cwt"] == base(r["name"])["complex_cwt"]:     # (overriding it makes wavefun meaningless)
            o.wavefun(4)
            pywt.central_frequency(o, 4)
    elif kind == "badnew":
        for f in (lambda: pywt.Wavelet("nope"), lambda: pywt.Wavelet("x", [[1.0]] * 3),
                  lambda: pywt.Wavelet("x", [[1.0], [1.0], [1.0], ["a"]]), lambda: pywt.ContinuousWavelet("db2"),
                  lambda: pywt.ContinuousWavelet("cmor1-2-3"), lambda: pywt.ContinuousWavelet("gaus1", np.int32)):
            try:
                f()
            except ValueError:
                continue
            raise AssertionError("invalid wavelet accepted")
    else:
        raise KeyError(name)
    return True


OPS = ["new:db2", "new:bior2.2", "new:haar", "new:dmey", "new:gaus2", "new:cmor1.5-1.0", "new32:mexh", "new:fbsp2-1.5-0.5",
       "bank:list", "bank:arr", "bank:odd", "bank:obj", "bank:old", "bank:anon", "from:obj", "from:inv", "copy", "deepcopy",
       "pickle:0", "pickle:2", "pickle:5", "alias", "set:orthogonal=0", "set:orthogonal=1", "set:biorthogonal=0",
       "set:lower_bound=-3", "set:upper_bound=7.3", "set:center_frequency=0.7", "set:bandwidth_frequency=2.2",
       "set:fbsp_order=3", "set:complex_cwt=0", "ro", "read", "scribble", "del", "use", "badnew"]
FEW = ["new:db2", "new:fbsp2-1.5-0.5", "bank:list", "bank:odd", "from:inv", "copy", "pickle:2", "set:orthogonal=0",
       "set:lower_bound=-3", "read", "scribble", "del", "use", "alias"]


def cases(tier, seed):
    for first in OPS:
        yield ["hist", "full", first, 3]
        if tier == "thorough":
            for second in OPS:
                yield ["hist2", "full", first, second, 4]
    for first in FEW:
        for second in FEW:
            yield ["hist2", "few", first, second, 4 if tier == "quick" else 5]
    for n in DISCRETE + CONTN:
        yield ["roundtrip", n]
    yield ["lens"]
    yield ["ranks"]
    yield ["containers"]
    for n in (2, 4, 6):
        yield ["qmf", n]


def check(case, ctx):
    with Quiet():
        globals()["chk_" + case[0]](case, ctx)


def run_hist(hist, ctx):
    """hist: list of (operation, slot). Only the state after the last operation is verified: shorter histories have their own."""
    W = World()
    for name, s in hist[:-1]:
        if not op(W, name, s):
            return False
    ctx.step(hist)
    if not op(W, *hist[-1]):
        return False
    ctx.transitions += 1
    ctx.states += 1
    for s in (0, 1):
        if W.o[s] is not None:
            verify(W.o[s], W.r[s], ctx)
    return True


def walk(prefix, alpha, depth, ctx):
    for name in alpha:
        for s in (0, 1):
            h = prefix + [(name, s)]
            if run_hist(h, ctx) and len(h) < depth:
                walk(h, alpha, depth, ctx)


def chk_hist(case, ctx):
    _, which, first, depth = case
    for s in (0, 1):
        h = [(first, s)]
        if run_hist(h, ctx):
            walk(h, OPS if which == "full" else FEW, depth, ctx)


def chk_hist2(case, ctx):
    _, which, first, second, depth = case
    for s in (0,):               # by symmetry of the two slots
        for t in (0, 1):
            h = [(first, s), (second, t)]
            if run_hist(h[:1], ctx) and run_hist(h, ctx):
                walk(h, OPS if which == "full" else FEW, depth, ctx)


def chk_roundtrip(case, ctx):
    n = case[1]
    w = pywt.DiscreteContinuousWavelet(n)
    r = snap(w)
    mods = [[]]
    if r["kind"] == "d":
        mods += [[("orthogonal", 0)], [("orthogonal", 1)], [("biorthogonal", 0)]]
    else:
        vals = dict(lower_bound=-2.5, upper_bound=9.0, center_frequency=0.7, bandwidth_frequency=3.3, fbsp_order=3,
                    orthogonal=1, biorthogonal=1)
        mods += [[x] for x in vals.items()] + [list(vals.items())]
    for mod in mods:
        w = pywt.DiscreteContinuousWavelet(n)
        for a, v in mod:
            setattr(w, a, v)
        r = snap(w)
        fun = w.wavefun(3)
        for how in ["copy", "deepcopy"] + list(range(6)):
            ctx.states += 1
            ctx.transitions += 1
            ctx.step(n, mod, how)
            v = copy.copy(w) if how == "copy" else copy.deepcopy(w) if how == "deepcopy" else pickle.loads(pickle.dumps(w, how))
            ctx.require(type(v) is type(w) and v is not w, "type after the round trip")
            verify(v, r, ctx, deep=not mod)
            ctx.same(str(v), str(w), "str after the round trip")
            fv = v.wavefun(3)
            ctx.require(len(fv) == len(fun) and all(x.dtype == y.dtype and np.array_equal(x, y, equal_nan=True)
                                                   for x, y in zip(fv, fun)), "wavefun after the round trip", n=n, mod=mod)
            verify(w, r, ctx, deep=False)


def rejected(f, ctx, what):
    ctx.transitions += 1
    ctx.traces += 1
    try:
        f()
    except (ValueError, TypeError):
        return
    ctx.fail("invalid filter bank accepted", what=what)


def chk_lens(case, ctx):
    for ls in itertools.product(range(4), repeat=4):
        ctx.states += 1
        fb = [[0.5 + i + j for j in range(n)] for i, n in enumerate(ls)]
        for cont in (list, np.array, tuple):
            b = [cont(f) for f in fb]
            for mk in (lambda: pywt.Wavelet("x", b), lambda: pywt.DiscreteContinuousWavelet("x", b),
                       lambda: pywt.Wavelet("x", Bank(b))):
                if len(set(ls)) == 1 and ls[0] > 0:
                    verify(mk(), rec_disc("x", fb), ctx)
                    ctx.transitions += 1
                else:
                    rejected(mk, ctx, ls)
    for k in (0, 1, 2, 3, 5, 6, 8):
        b = [[1.0, 2.0]] * k
        for mk in (lambda: pywt.Wavelet("x", b), lambda: pywt.Wavelet("x", Bank(b)), lambda: pywt.Wavelet("x", OldBank(b)),
                   lambda: pywt.DiscreteContinuousWavelet("x", b), lambda: pywt.dwt([1.0, 2.0], pywt.Wavelet("x", b))):
            rejected(mk, ctx, k)
    rejected(lambda: pywt.Wavelet(), ctx, "nothing")
    rejected(lambda: pywt.Wavelet(""), ctx, "nothing")
    rejected(lambda: pywt.DiscreteContinuousWavelet(), ctx, "nothing")
    rejected(lambda: pywt.DiscreteContinuousWavelet(""), ctx, "nothing")
    rejected(lambda: pywt.Wavelet("db2", "haar"), ctx, "string")
    rejected(lambda: pywt.Wavelet("db2", 5), ctx, "number")
    for pos in range(4):
        for bad in ("a", [1.0], {}, 1j, "0x", object()):
            b = [[1.0, 2.0] for _ in range(4)]
            b[pos] = [1.0, bad]
            rejected(lambda: pywt.Wavelet("x", b), ctx, (pos, repr(bad)))


def chk_ranks(case, ctx):
    for ranks in itertools.product(range(3), repeat=4):
        ctx.states += 1
        b = [np.ones((2,) * r) for r in ranks]
        if set(ranks) == {1}:
            verify(pywt.Wavelet("x", b), rec_disc("x", b), ctx)
        else:
            rejected(lambda: pywt.Wavelet("x", b), ctx, ranks)
    rejected(lambda: pywt.Wavelet("x", np.ones((4, 2, 2))), ctx, "3-D")


def chk_containers(case, ctx):
    """Any sequence container and element type gives the same wavelet."""
    fb = [[1, -2, 3, 4], [0, 1, 5, -1], [7, 2, 2, 1], [1, 0, 0, -3]]
    want = rec_disc("x", fb)
    A = np.array(fb, float)
    big = np.zeros((8, 8))
    big[::2, ::2] = A
    ro = A.copy()
    ro.flags.writeable = False
    forms = [fb, tuple(map(tuple, fb)), A, A.astype(int), A.astype("f4"), A.astype(">f8"), np.asfortranarray(A), big[::2, ::2],
             A[::-1][::-1], ro, [A[0], fb[1], tuple(fb[2]), A[3].astype("i2")], [range(1, 5)] + [list(A[i]) for i in range(1, 4)],
             A.astype(np.float16), A.astype(object), np.matrix(A).A, A.astype("g")]
    for i, b in enumerate(forms):
        ctx.states += 1
        ctx.step("container", i)
        w = want
        if i == 11:
            w = rec_disc("x", [[1, 2, 3, 4]] + fb[1:])
        keep = copy.deepcopy(b)
        for arg in (b, Bank(b), OldBank(b)):
            verify(pywt.Wavelet("x", arg), w, ctx)
            ctx.transitions += 1
        ctx.require(all(list(p) == list(q) for p, q in zip(keep, b)), "bank modified")
    names = ["x", "X", "My Wavelet", "db2", "haar", "gaus1", "cmor", "ünï", "a" * 300]
    for n in names:
        for mk in (pywt.Wavelet, pywt.DiscreteContinuousWavelet):
            w = mk(n, fb)
            verify(w, rec_disc(n, fb), ctx)
            for how in range(6):
                verify(pickle.loads(pickle.dumps(w, how)), rec_disc(n, fb), ctx)


def chk_qmf(case, ctx):
    n = case[1]
    for v in itertools.product((-2.0, 0.0, 1.0, 3.0), repeat=n):
        ctx.states += 1
        want = [v[n - 1 - i] * (-1) ** i for i in range(n)]
        for src in (list(v), tuple(v), np.array(v), np.array(v, "f4"), np.array(v, int)):
            keep = list(src)
            got = pywt.qmf(src)
            ctx.transitions += 1
            ctx.traces += 1
            ctx.require(list(got) == want, "qmf", got=got, want=want)
            ctx.require(list(src) == keep, "qmf changed its input")
            if sum(v) != 0:
                fb = pywt.orthogonal_filter_bank(src)
                rl = np.sqrt(2.0) * np.array(v) / sum(v)
                rh = np.array([rl[n - 1 - i] * (-1) ** i for i in range(n)])
                for g, w in zip(fb, (rl[::-1], rh[::-1], rl, rh)):
                    ctx.transitions += 1
                    ctx.close(g, w, 1e-14, "orthogonal_filter_bank")
                ctx.require(len(fb) == 4 and list(src) == keep, "orthogonal_filter_bank changed its input")
        if n == 2:
            for m in (1, 3, 5):
                try:
                    pywt.orthogonal_filter_bank([1.0] * m)
                except ValueError:
                    continue
                ctx.fail("odd scaling filter accepted")
    if n == 4:
        for name in DISCRETE:
            w = pywt.Wavelet(name)
            if w.orthogonal:
                for g, f in zip(pywt.orthogonal_filter_bank(w.rec_lo), w.filter_bank):
                    ctx.close(g, f, 1e-14, "orthogonal_filter_bank of a built-in scaling filter")
