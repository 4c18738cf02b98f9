"""C12: every built-in filter bank, all its metadata, and the whole bounded space of names and spellings.

The reference table of filter taps (mc/data/filters.json) was checked against an independent recomputation (spectral
factorisation in 200-digit arithmetic for db1..db38, closed forms for the spline bior family); the algebraic conditions
(double-shift biorthogonality, orthonormality, quadrature mirroring, vanishing moments, sums, reversal between bior and
rbio, equality of the symlet and Daubechies autocorrelations) are evaluated on the implementation's own numbers."""
import itertools
import json
import os
from fractions import Fraction

import numpy as np
import pywt

import ref
from common import DISCRETE, EPS, Quiet

ID = "C12"
BOUNDS = dict(
    quick="all 106 discrete names: every tap of the 4 filters, float32 and float64 tables, every attribute, every mixed-case "
          "spelling; all 26 continuous names; candidate names family x order 0..60 and family x i.j for i,j in 0..12 and every "
          "one-character deletion/insertion/substitution of every name",
    thorough="the same (the space is finite and is covered entirely), with two-character edits of the names")
ASSUMPTIONS = ["taps are compared with the reference table at 1e-15 absolute"]

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "filters.json")) as f:
    GOLD = {k: {q: np.array([float.fromhex(x) for x in v[q]]) for q in v} for k, v in json.load(f).items()}
CONT = ['cgau%d' % i for i in range(1, 9)] + ['cmor', 'fbsp'] + ['gaus%d' % i for i in range(1, 9)] + ['mexh', 'morl', 'shan']
PARAM = ("cmor", "shan", "fbsp")
SHORT = ['haar', 'db', 'sym', 'coif', 'bior', 'rbio', 'dmey', 'gaus', 'mexh', 'morl', 'cgau', 'shan', 'fbsp', 'cmor']
LONG = ['Haar', 'Daubechies', 'Symlets', 'Coiflets', 'Biorthogonal', 'Reverse biorthogonal',
        'Discrete Meyer (FIR Approximation)', 'Gaussian', 'Mexican hat wavelet', 'Morlet wavelet',
        'Complex Gaussian wavelets', 'Shannon wavelets', 'Frequency B-Spline wavelets', 'Complex Morlet wavelets']
# worst double-shift error of the tabulated values
PRTOL = {"dmey": 2.5e-3, "sym": 3e-11, "bior4.4": 2e-12, "bior5.5": 2e-12, "bior6.8": 1e-12}
FULL = dict(zip(SHORT, LONG))
FULL["dmey"] = "Discrete Meyer (FIR Approximation)"
FULL["mexh"], FULL["morl"] = "Mexican hat wavelet", "Morlet wavelet"
ALPHA = "abcdefghijklmnopqrstuvwxyz0123456789.- _"


def fam_of(n):
    return n.rstrip("0123456789.")


def meta(n):
    """Advertised attributes, from the definition of the families."""
    fam = fam_of(n)
    num = n[len(fam):]
    if n == "haar":
        return dict(orth=True, symm="asymmetric", psi=1, phi=0, length=2)
    if n == "dmey":
        return dict(orth=True, symm="symmetric", psi=None, phi=None, length=62)
    if fam == "db":
        k = int(num)
        return dict(orth=True, symm="asymmetric", psi=k, phi=0, length=2 * k)
    if fam == "sym":
        k = int(num)
        return dict(orth=True, symm="near symmetric", psi=k, phi=0, length=2 * k)
    if fam == "coif":
        k = int(num)
        return dict(orth=True, symm="near symmetric", psi=2 * k, phi=2 * k - 1, length=6 * k)
    a, b = map(int, num.split("."))
    # spline pairs: the longer dual filter has length a + 2 b - 1 (odd a) or a + 2b (incl. padding zero)
    ln = {"4.4": 10, "5.5": 12, "6.8": 18}.get(num)
    if ln is None:
        ln = 2 * b + (2 if a in (1, 3) and not (a == 1) else 0)
        ln = {1: 2 * b, 2: 2 * b + 2, 3: 2 * b + 2}[a]
    return dict(orth=False, symm="symmetric", psi=a, phi=b, length=ln)


def corr(a, b):
    """sum_i a[i] b[i + 2k] for all k with overlap, k = 0 in the middle."""
    n = len(a)
    return np.array([sum(a[i] * b[i + 2 * k] for i in range(n) if 0 <= i + 2 * k < n)
                     for k in range(-(n // 2) + 1, n // 2)])


def moment(h, m):
    c = Fraction(len(h) - 1, 2)
    t = [(Fraction(i) - c) ** m * Fraction(float(v)) for i, v in enumerate(h)]
    return abs(float(sum(t) / sum(abs(x) for x in t)))


def edits1(s):
    for i in range(len(s) + 1):
        for c in ALPHA:
            yield s[:i] + c + s[i:]
        if i < len(s):
            yield s[:i] + s[i + 1:]
            for c in ALPHA:
                yield s[:i] + c + s[i + 1:]


def cases(tier, seed):
    for n in DISCRETE:
        yield ["wav", n]
    for n in CONT:
        yield ["cont", n]
    yield ["lists"]
    for i in range(0, len(DISCRETE + CONT), 6):
        yield ["spell", i]
    for fam in SHORT:
        yield ["grid", fam]
    for n in DISCRETE + CONT:
        yield ["edit", n]
    if tier == "thorough":
        for n in DISCRETE + CONT:
            if len(n) <= 5:
                for c in ALPHA:
                    yield ["edit2", n, c]


def check(case, ctx):
    globals()["chk_" + case[0]](case, ctx)


def chk_wav(case, ctx):
    n = case[1]
    w = pywt.Wavelet(n)
    g = GOLD[n]
    m = meta(n)
    fam = fam_of(n)
    ctx.states += 1
    F = m["length"]
    f = {}
    for q in ("dec_lo", "dec_hi", "rec_lo", "rec_hi"):
        v = getattr(w, q)
        ctx.require(type(v) is list and all(type(x) is float for x in v), "filter is not a list of floats", which=q)
        ctx.same(len(v), F, "filter length", which=q)
        f[q] = np.array(v)
        ctx.transitions += F
        ctx.close(f[q], g[q], 1e-15, "tap differs from the reference table", which=q)
        # the single precision table holds the same numbers, rounded
        part = "a" if q.endswith("lo") else "d"
        for dt in ("float32", "float64", "complex64", "complex128"):
            if q.startswith("rec"):
                got = pywt.upcoef(part, np.ones(1, dt), n, level=1)
                want = f[q]
            else:
                got = pywt.downcoef(part, np.array([0.0] * (F - 1) + [1.0], dt), n, mode="zero", level=1)
                xs = np.zeros(F)
                xs[-1] = 1
                want = ref.dwt_direct(xs, f[q], "zero")
            ctx.same(str(got.dtype), dt, "dtype")
            # (the single table may be scaled in single precision: two roundings)
            ctx.close(got, want, 3 * EPS[dt] * np.abs(want) + 1e-300, "taps used in %s differ" % dt, which=q)
            ctx.transitions += F
    ctx.same((w.dec_len, w.rec_len, len(w)), (F, F, F), "lengths")
    ctx.require(F % 2 == 0, "odd filter length")
    ctx.same(tuple(w.filter_bank), (w.dec_lo, w.dec_hi, w.rec_lo, w.rec_hi), "filter_bank")
    ctx.same(tuple(w.inverse_filter_bank), (w.rec_lo[::-1], w.rec_hi[::-1], w.dec_lo[::-1], w.dec_hi[::-1]),
             "inverse_filter_bank")
    dl, dh, rl, rh = (f[q] for q in ("dec_lo", "dec_hi", "rec_lo", "rec_hi"))
    tol = PRTOL.get(n, PRTOL.get(n.replace("rbio", "bior"), PRTOL.get(fam, 2e-15)))
    delta = np.zeros(F - 1)
    delta[F // 2 - 1] = 1
    for a, b, want, what in ((rl, dl[::-1], delta, "lo.lo"), (rh, dh[::-1], delta, "hi.hi"),
                             (rl, dh[::-1], 0 * delta, "lo.hi"), (rh, dl[::-1], 0 * delta, "hi.lo")):
        ctx.transitions += 1
        ctx.close(corr(a, b), want, tol, "double-shift biorthogonality " + what)
    s = (-1.0) ** np.arange(F)
    ctx.close(rh, dl * s, 1e-15, "rec_hi is the modulated dec_lo")
    ctx.close(dh, -rl * s, 1e-15, "dec_hi is the modulated rec_lo")
    for q, v in (("dec_lo", dl), ("rec_lo", rl)):
        ctx.close(v.sum(), np.sqrt(2.0), 2e-15, "sum of the lowpass taps", which=q)
    if m["orth"]:
        ctx.close(dl, rl[::-1], 1e-16, "decomposition lowpass is the reversed reconstruction lowpass")
        ctx.close(dh, rh[::-1], 1e-16, "decomposition highpass is the reversed reconstruction highpass")
    ctx.same(w.orthogonal, m["orth"], "orthogonal")
    ctx.same(w.biorthogonal, True, "biorthogonal")
    ctx.same(w.symmetry, m["symm"], "symmetry")
    ctx.same(w.vanishing_moments_psi, m["psi"], "vanishing_moments_psi")
    ctx.same(w.vanishing_moments_phi, m["phi"], "vanishing_moments_phi")
    ctx.same(w.name, n, "name")
    ctx.same(w.short_family_name, fam, "short_family_name")
    ctx.same(w.family_name, FULL[fam], "family_name")
    if m["symm"] == "symmetric":
        # symmetric about its centre of mass, after removing the padding zeros (dmey is centred on a tap)
        for q, v in f.items():
            nz = np.flatnonzero(np.abs(v) > (1e-13 if n == "dmey" else 0))
            c = v[nz[0]:nz[-1] + 1]
            if n == "dmey":
                continue
            ctx.close(np.abs(c), np.abs(c[::-1]), 1e-13, "symmetry of the taps", which=q)
    if m["psi"] is not None:
        two = m["orth"] or False
        adv = dict(dec_hi=m["psi"], rec_hi=m["psi"] if two else m["phi"])
        if fam == "rbio":
            adv = dict(dec_hi=m["phi"], rec_hi=m["psi"])
        if fam == "bior":
            adv = dict(dec_hi=m["psi"], rec_hi=m["phi"])
        for q, k in adv.items():
            have = 0
            while have < k and moment(f[q], have) < 1e-9:
                have += 1
            ctx.transitions += k
            ctx.traces += 1
            if have < k:
                ctx.fail("vanishing moments", which=q, advertised=k, have=have)
            if k <= 10 and n not in ("bior5.5", "rbio5.5"):
                ctx.require(moment(f[q], k) > 1e-6, "more vanishing moments than advertised", which=q, advertised=k)
    if fam == "coif":
        # scaling function moments about the integer centre
        c = 2 * int(n[4:])
        for k in range(1, 2 * int(n[4:])):
            t = [Fraction(i - c) ** k * Fraction(float(v)) for i, v in enumerate(rl)]
            ctx.require(abs(float(sum(t) / sum(abs(x) for x in t))) < 1e-9, "moments of the coiflet scaling function", k=k)
    if fam == "sym":
        db = np.array(pywt.Wavelet("db" + n[3:]).rec_lo)
        ctx.close(np.correlate(rl, rl, "full"), np.correlate(db, db, "full"), 3e-11, "symlet autocorrelation")
    if fam == "rbio":
        o = pywt.Wavelet("bior" + n[4:])
        ctx.same([w.dec_lo, w.dec_hi, w.rec_lo, w.rec_hi], [o.rec_lo[::-1], o.rec_hi[::-1], o.dec_lo[::-1], o.dec_hi[::-1]],
                 "rbio is the reversed bior")
    text = str(w)
    for piece in ("Wavelet " + n, FULL[fam], fam, str(F), "Orthogonal:     %s" % m["orth"], "Biorthogonal:   True",
                  "Symmetry:       " + m["symm"], "DWT:            True", "CWT:            False"):
        ctx.require(piece in text, "str() lacks an attribute", piece=piece)
    ctx.require(n in repr(w) and repr(w.filter_bank) in repr(w), "repr")


def chk_cont(case, ctx):
    n = case[1]
    ctx.states += 1
    with Quiet():
        w = pywt.ContinuousWavelet(n)
    fam = fam_of(n)
    num = int(n[4:]) if fam in ("gaus", "cgau") else 0
    sym = "symmetric"
    if fam == "gaus" or fam == "cgau":
        sym = "anti-symmetric" if num % 2 else "symmetric"
    if n in ("cmor", "shan", "fbsp"):
        sym = {"cmor": "asymmetric", "shan": "asymmetric", "fbsp": "asymmetric"}[n]
    ctx.same(w.name, n, "name")
    ctx.same(w.short_family_name, fam, "short_family_name")
    ctx.same(w.family_number, num, "family_number")
    ctx.same(w.complex_cwt, fam in ("cgau", "cmor", "fbsp", "shan"), "complex_cwt")
    hb = {"gaus": 5, "cgau": 5, "mexh": 8, "morl": 8, "cmor": 8, "shan": 20, "fbsp": 20}[fam]
    ctx.same((w.lower_bound, w.upper_bound), (-hb, hb), "bounds")
    ctx.same((w.bandwidth_frequency, w.center_frequency, w.fbsp_order),
             {"cmor": (1.0, 0.5, None), "shan": (0.5, 1.0, None), "fbsp": (1.0, 0.5, 2)}.get(fam, (None,) * 3), "parameters")
    ctx.same(w.orthogonal, False, "orthogonal")
    ctx.same(w.biorthogonal, False, "biorthogonal")
    ctx.same(w.symmetry, sym, "symmetry")
    ctx.same(w.family_name, CONTFULL[fam], "family_name")
    ctx.transitions += 12
    for k in range(3):
        text = str(w)
        ctx.require("Complex CWT:    %s" % w.complex_cwt in text and n in text, "str()")
    try:
        pywt.Wavelet(n)
    except ValueError:
        pass
    else:
        ctx.fail("Wavelet() accepts a continuous name")


CONTFULL = dict(gaus="Gaussian", mexh="Mexican hat wavelet", morl="Morlet wavelet", cgau="Complex Gaussian wavelets",
                shan="Shannon wavelets", fbsp="Frequency B-Spline wavelets", cmor="Complex Morlet wavelets")


def chk_lists(case, ctx):
    allw, d, c = (pywt.wavelist(kind=k) for k in ("all", "discrete", "continuous"))
    ctx.same(d, DISCRETE, "wavelist(kind='discrete')")
    ctx.same(c, CONT, "wavelist(kind='continuous')")
    ctx.same(sorted(allw), sorted(DISCRETE + CONT), "wavelist()")
    ctx.same(len(set(allw)), len(allw), "names are unique")
    ctx.same(pywt.wavelist(), allw, "default kind")
    ctx.same(pywt.families(), SHORT, "families()")
    ctx.same(pywt.families(short=True), SHORT, "families(short=True)")
    ctx.same(pywt.families(short=False), LONG, "families(short=False)")
    seen = []
    for fam in SHORT:
        for kind in ("all", "discrete", "continuous"):
            got = pywt.wavelist(fam, kind)
            ctx.same(sorted(got), sorted(x for x in DISCRETE + CONT if fam_of(x) == fam), "wavelist(%r)" % fam)
            nums = [tuple(int(v) for v in x[len(fam):].split(".")) if x != fam else () for x in got]
            ctx.same(nums, sorted(nums), "order of wavelist(%r)" % fam)
            ctx.transitions += 1
            ctx.states += 1
        seen += got
    ctx.same(sorted(seen), sorted(allw), "families partition the names")
    for bad in ("x", "", "DB", "haar1", "bio", "ga", "Haar", "all", "d"):
        try:
            pywt.wavelist(bad)
        except ValueError:
            ctx.transitions += 1
        else:
            ctx.fail("wavelist accepts an unknown family", family=bad)
    for bad in ("x", "", "ALL", None, "cont", "discret"):
        try:
            pywt.wavelist(kind=bad)
        except ValueError:
            ctx.transitions += 1
        else:
            ctx.fail("wavelist accepts an unknown kind", kind=bad)


def chk_spell(case, ctx):
    for n in (DISCRETE + CONT)[case[1]:case[1] + 6]:
        letters = [i for i, ch in enumerate(n) if ch.isalpha()]
        with Quiet():
            base = pywt.DiscreteContinuousWavelet(n)
            for up in itertools.product((0, 1), repeat=len(letters)):
                s = list(n)
                for i, u in zip(letters, up):
                    if u:
                        s[i] = s[i].upper()
                s = "".join(s)
                ctx.states += 1
                for make in (pywt.DiscreteContinuousWavelet, pywt.Wavelet if n in GOLD else pywt.ContinuousWavelet):
                    w = make(s)
                    ctx.transitions += 1
                    ctx.traces += 1
                    ctx.require(type(w) is type(base), "type depends on the spelling", spelling=s)
                    if n in GOLD:
                        ctx.require(w.filter_bank == base.filter_bank, "filters depend on the spelling", spelling=s)
                    ctx.require(str(w) == str(base), "attributes depend on the spelling", spelling=s, got=str(w))
                    ctx.require(w.family_number == base.family_number, "family_number depends on the spelling")


def accepts(s, ctx):
    """A name is accepted exactly if it is in the list (whatever the case), or a parametrised continuous name."""
    low = s.lower()
    for make, names in ((pywt.Wavelet, DISCRETE), (pywt.ContinuousWavelet, CONT),
                        (pywt.DiscreteContinuousWavelet, DISCRETE + CONT)):
        if low[:4] in PARAM:
            continue         # names with parameters: C17
        ctx.transitions += 1
        ctx.traces += 1
        try:
            w = make(s)
        except (ValueError, TypeError):
            ctx.require(low not in names, "valid name rejected", name=s, by=make.__name__)
        else:
            ctx.require(low in names, "invalid name accepted", name=s, by=make.__name__)
            ctx.require(w.name == low, "name", got=w.name)


def chk_grid(case, ctx):
    fam = case[1]
    for i in range(0, 61):
        for s in ("%s%d" % (fam, i), "%s0%d" % (fam, i), "%s-%d" % (fam, i), "%s%d." % (fam, i)):
            ctx.states += 1
            accepts(s, ctx)
    for i in range(13):
        for j in range(13):
            ctx.states += 1
            accepts("%s%d.%d" % (fam, i, j), ctx)
    accepts(fam, ctx)


def chk_edit(case, ctx):
    for s in edits1(case[1]):
        ctx.states += 1
        accepts(s, ctx)


def chk_edit2(case, ctx):
    n, c = case[1:]
    for s in {n[:i] + c + n[i:] for i in range(len(n) + 1)} | {n[:i] + c + n[i + 1:] for i in range(len(n))}:
        for t in edits1(s):
            ctx.states += 1
            accepts(t, ctx)
