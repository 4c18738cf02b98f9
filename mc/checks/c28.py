"""C28: the demonstration signals against their published definitions for every length, and the bundled data."""
import hashlib
import math
import os
import warnings
from fractions import Fraction

import numpy as np
import pywt
import pywt.data

ID = "C28"
BOUNDS = dict(
    quick="all 20 signals x every length 1..700 and 60 larger ones up to 2**17 (those next to powers of two, squares and "
          "multiples of 5, 7, 8, 12, 20), each sample compared with the published formula; every spelling of the names in upper, "
          "lower, title and swapped case; lengths as 2 NumPy integer types; rejected names and lengths; the 5 bundled data sets sample by sample",
    thorough="every length 1..6000 and 200 larger ones")
ASSUMPTIONS = ["where t is within 1e-12 of a jump of a signal either side's value (or the mean) is accepted",
               "lengths that WaveLab's formulas leave open (not a multiple of 8 or 5) are rounded down as the code says"]

L = np.longdouble
PI = L(math.pi) + L(1.2246467991473532e-16)
T0 = [.1, .13, .15, .23, .25, .4, .44, .65, .76, .78, .81]
NAMES = ["Blocks", "Bumps", "HeaviSine", "Doppler", "Ramp", "HiSine", "LoSine", "LinChirp", "TwoChirp", "QuadChirp", "MishMash",
         "WernerSorrows", "HypChirps", "LinChirps", "Chirps", "Gabor", "sineoneoverx", "Piece-Regular", "Piece-Polynomial", "Riemann"]
FIXED = ["Gabor", "sineoneoverx"]


def cases(tier, seed):
    top = 700 if tier == "quick" else 6000
    big = sorted({b + d for b in (1024, 2048, 4096, 1000, 1225, 1680, 10000, 16384) for d in (-1, 0, 1, 3)} |
                 {k * k + d for k in (33, 40, 55) for d in (-1, 0, k, k + 1)} | {840, 1260, 5040, 2520, 65536, 131071, 100000})
    if tier == "thorough":
        big = sorted(set(big) | {6000 + 97 * k for k in range(200)})
    for name in NAMES:
        if name in FIXED:
            yield ["fixed", name]
            continue
        for lo in range(1, top + 1, 100):
            yield ["sig", name, list(range(lo, min(lo + 100, top + 1)))]
        for i in range(0, len(big), 12):
            yield ["sig", name, [n for n in big[i:i + 12] if n > top]]
    yield ["names"]
    yield ["bad"]
    for d in ("ascent", "aero", "camera", "ecg", "nino"):
        yield ["data", d]


def check(case, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        globals()["chk_" + case[0]](case, ctx)


def chk_sig(case, ctx):
    _, name, sizes = case
    for n in sizes:
        ctx.states += 1
        ctx.transitions += 1
        ctx.step("demo_signal", name, n)
        g = pywt.data.demo_signal(name, n)
        want, alts, tol = signal(name, n)
        ctx.require(isinstance(g, np.ndarray) and g.shape == (n,), "length of the signal", name=name, n=n, got=np.shape(g))
        ctx.require(g.dtype == np.float64, "type of the signal", got=g.dtype)
        want = want.astype(float)
        bad = ~(np.abs(g - want) <= tol)
        for i in np.flatnonzero(bad):
            if not any(abs(g[i] - float(a)) <= tol for a in alts.get(int(i), ())):
                ctx.fail("sample of the signal", name=name, n=n, index=int(i), got=g[i], want=want[i])
        ctx.close(g[~bad], want[~bad], tol, "signal", n=n)
        if n <= 64 or n == 840:
            for kind in (np.int64, np.int32):
                ctx.transitions += 1
                h = pywt.data.demo_signal(name, kind(n))
                ctx.require(h.shape == (n,) and np.allclose(h, g, rtol=1e-9, atol=1e-9), "length as a numpy integer", kind=kind.__name__, n=n)


def jumps(t, at):
    """Positions within rounding of a jump."""
    return [int(i) for i in np.flatnonzero(np.abs(t - L(at)) < 1e-12)]


def signal(name, n):
    """(values in extended precision, {index: other acceptable values}, tolerance)"""
    t = np.arange(1, n + 1).astype(L) / n
    N = L(n)
    alts = {}
    tol = 1e-11 * (1 + n / 1000)
    sin, cos, exp = np.sin, np.cos, np.exp
    hill = lambda hs, ws: sum(L(h) / (1 + abs((t - L(c)) / L(w))) ** 4 for c, h, w in zip(T0, hs, ws))
    H = [4, 5, 3, 4, 5, 4.2, 2.1, 4.3, 3.1, 5.1, 4.2]
    W = [.005, .005, .006, .01, .01, .03, .01, .01, .005, .008, .005]

    def steps(parts):
        """sum of a*sign(t - c), with the values of every outcome where t is c up to rounding"""
        f = np.zeros(n, L)
        for a, c in parts:
            f = f + L(a) * np.sign(t - L(c))
        for a, c in parts:
            for i in jumps(t, c):
                base = f[i] - L(a) * np.sign(t[i] - L(c))
                alts.setdefault(i, []).extend([base + L(a), base - L(a), base])
        return f

    if name == "Blocks":
        hs = [4, -5, 3, -4, 5, -4.2, 2.1, 4.3, -3.1, 2.1, -4.2]
        f = steps([(L(h) / 2, c) for c, h in zip(T0, hs)])
        off = sum(map(L, hs)) / 2
        for i in alts:
            alts[i] = [a + off for a in alts[i]]
        f = f + off
    elif name == "Bumps":
        f = hill(H, W)
    elif name == "HeaviSine":
        s = 4 * sin(4 * PI * t)
        f = steps([(-1, 0.3), (1, 0.72)])
        for i in alts:
            alts[i] = [a + s[i] for a in alts[i]]
        f = f + s
    elif name == "Doppler":
        # at t = 1 the square root is of a rounding error
        f = np.sqrt(t * (1 - t)) * sin(2 * PI * L(1.05) / (t + L(0.05)))
    elif name == "Ramp":
        f = t - (t >= L(.37))
        for i in jumps(t, .37):
            alts[i] = [t[i], t[i] - 1]
    elif name == "HiSine":
        f = sin(PI * N * L(.6902) * t)
    elif name == "LoSine":
        f = sin(PI * N * L(.3333) * t)
    elif name == "LinChirp":
        f = sin(PI * t * N * L(.5) * t)
    elif name == "TwoChirp":
        f = sin(PI * N * t * t) + sin(PI / 3 * N * t * t)
    elif name == "QuadChirp":
        f = sin(PI / 3 * N * t ** 3)
    elif name == "MishMash":
        f = sin(PI / 3 * N * t ** 3) + sin(PI * N * L(.6902) * t) + sin(PI * N * L(.125) * t * t)
    elif name == "WernerSorrows":
        f = sin(PI * t * (N / 2) * t * t) + sin(PI * N * L(.6902) * t) + sin(PI * t * N * t) + hill(H, W)
    elif name == "HypChirps":
        alpha, beta = 15 * N * PI / 1024, 5 * N * PI / 1024
        u = (np.arange(1, n + 1).astype(L) + L(.001)) / n
        f1 = sin(alpha / (L(.8) - u)) * ((L(.1) < u) & (u < L(.68)))
        f2 = sin(beta / (L(.8) - u)) * ((L(.1) < u) & (u < L(.75)))
        m = int(round(Fraction(13 * n, 20)))        # half to even, as numpy.round
        p = m // 4
        env = np.zeros(n, L)
        start = -(-n // 10) - 1
        for j in range(m):
            edge = min(j, m - 1 - j)
            env[start + j] = 1 if edge >= p else (1 + sin(-PI / 2 + L(edge) / max(p - 1, 1) * PI)) / 2
        f = (f1 + f2) * env
        tol *= 30
        for c in (.1, .68, .75):
            for i in jumps(u, c):
                alts[i] = [f[i], 0, sin(alpha / (L(.8) - u[i])) * env[i], sin(beta / (L(.8) - u[i])) * env[i],
                           (sin(alpha / (L(.8) - u[i])) + sin(beta / (L(.8) - u[i]))) * env[i]]
    elif name == "LinChirps":
        b, a = 100 * N * PI / 1024, 250 * N * PI / 1024
        f = np.sqrt(np.abs((t - 1 / N) * (1 - t))) * (cos(a * t * t) + cos(b * t + a * t * t))
        tol *= 10
    elif name == "Chirps":
        f1 = cos((t * 10 * PI) ** 2 * N / 1024)
        f2 = cos(30 * N / 1024 * (t[::-1] * PI) ** 3)
        g = lambda start: exp(-((np.arange(start, start + n).astype(L) - N) / N * 20) ** 2 * 4 * N / 1024)
        f3 = g(n // 2) * cos(50 * PI * t * N / 1024)
        f4 = g(n // 8) * cos(350 * PI * t * N / 1024)
        q = n // 8
        env = np.ones(n, L)
        for j in range(n):
            edge = min(j, n - 1 - j)
            if edge < q:
                env[j] = (1 + sin(-PI / 2 + L(edge) / max(q - 1, 1) * PI)) / 2
        f = (f1 + f2 + f3 + f4) * env
        tol *= 30
    elif name == "Piece-Regular":
        f = np.zeros(n, L)
        k12, k7, k5, k3, k2, k20 = n // 12, n // 7, n // 5, n // 3, n // 2, n // 20
        bumps = hill(H, W)
        for i in range(k3):
            u = L(i + 1) / k3
            gauss = -70 * exp(-(u - L(.5)) ** 2 / (2 * (L(6) / 40) ** 2))
            f[i] = gauss / 2 if k7 <= i < k5 else gauss
        f[k3:k2] = -15 * bumps[k3:k2]
        for i in range(k12):
            f[k2 + i] = f[k2 + 2 * k12 - 1 - i] = -exp(4 * L(i + 1) / k12)
        f[k2 + 2 * k12 + k20:k2 + 2 * k12 + 3 * k20] = -25
        k = k2 + 2 * k12 + 3 * k20
        for i in range(k7):
            f[k + i] = exp(4 * L(i + 1) / k7) - exp(L(4))
        f[5 * k5:] = f[:n - 5 * k5][::-1].copy()
        f = f.sum() / n - f
    elif name == "Piece-Polynomial":
        f = np.zeros(n, L)
        k5, k10, k20 = n // 5, n // 10, n // 20
        for i in range(k5):
            u = L(i + 1) / k5
            f[i] = 20 * (u ** 3 + u ** 2 + 4)
            f[2 * k5 - 1 - i] = 10 * u ** 3 + 45
            f[2 * k5 + i] = 40 * (2 * u ** 3 + u) + 100
            f[3 * k5 + i] = 16 * u ** 2 + 8 * u + 16
            f[5 * k5 - 1 - i] = 20 * (u + 4)
        f[5 * k5:] = f[:n - 5 * k5][::-1].copy()
        f[k20:k20 + k10] = 10
        f[n - k10:n - k10 + k20] = 150
        f = f - f.sum() / n
    elif name == "Riemann":
        j = np.arange(n)
        f = np.zeros(n, L)
        for k in range(1, math.isqrt(n) + 1):
            f += cos(2 * PI * ((k * k - 1) * j % n).astype(L) / n) / k
        f = f / n
    return f, alts, tol


def chk_fixed(case, ctx):
    name = case[1]
    if name == "Gabor":
        n = 512
        j = np.arange(1, n + 1).astype(L) / n
        g = lambda start: np.exp(-20 * ((np.arange(start, start + n).astype(L) - n) * 5 / n) ** 2)
        re = sum(3 * g(s) * np.cos(f * PI * j) for s, f in ((n // 2, n // 16), (n // 4, n // 4)))
        im = sum(3 * g(s) * np.sin(f * PI * j) for s, f in ((n // 2, n // 16), (n // 4, n // 4)))
        want, dt = re.astype(float) + 1j * im.astype(float), np.complex128
    else:
        i = np.arange(-1023, 1025).astype(L)
        i[i == 0] = L(1) / 100
        want, dt = np.sin(L(1.5) * 1023 / i)[512:1536].astype(float), np.float64
    for form in (lambda: pywt.data.demo_signal(name), lambda: pywt.data.demo_signal(name=name, n=None)):
        ctx.states += 1
        ctx.transitions += 1
        g = form()
        ctx.require(g.dtype == dt, "type of the signal")
        ctx.close(g, want, 1e-9, "signal of fixed length")
    for n in [1, 2, 3, 512, 1024, np.int64(512)] + list(range(4, 40)):
        ctx.transitions += 1
        try:
            pywt.data.demo_signal(name, n)
        except ValueError:
            continue
        ctx.fail("a length was accepted for a signal of fixed length", n=int(n))


def chk_names(case, ctx):
    ctx.require(pywt.data.demo_signal("list") == NAMES, "list of the signals")
    for n in (None, 16, 64):
        for s in ("list", "LIST", "List"):
            ctx.states += 1
            ctx.require(pywt.data.demo_signal(s, n) == NAMES, "list of the signals")
    ctx.require(np.array_equal(pywt.data.demo_signal(n=64), pywt.data.demo_signal("Bumps", 64)), "default signal")
    for name in NAMES:
        n = None if name in FIXED else 64
        want = pywt.data.demo_signal(name, n)
        for s in {name.lower(), name.upper(), name.title(), name.swapcase(), name.capitalize()} | {
                name[:i].upper() + name[i:].lower() for i in range(len(name))}:
            ctx.states += 1
            ctx.transitions += 1
            ctx.traces += 1
            ctx.require(np.array_equal(pywt.data.demo_signal(s, n), want), "names are case-insensitive", name=s)


def chk_bad(case, ctx):
    def rejects(*a):
        ctx.states += 1
        ctx.transitions += 1
        ctx.traces += 1
        try:
            r = pywt.data.demo_signal(*a)
        except ValueError:
            return
        ctx.fail("accepted", args=repr(a), got=repr(r)[:80])
    for name in NAMES:
        if name not in FIXED:
            rejects(name)
            rejects(name, None)
            for n in (0, -1, -2, -64, 1.5, 0.5, 63.9, float("nan")):
                rejects(name, n)
        low = name.lower()
        for i in range(len(low)):
            for alt in (low[:i] + low[i + 1:], low[:i] + "x" + low[i:], low[:i] + low[i].swapcase() + "_" + low[i + 1:]):
                if alt not in [m.lower() for m in NAMES]:
                    rejects(alt, 64)
    for s in ("", " ", "unknown", "lists", "bumps ", " bumps"):
        rejects(s, 64)


DATA = dict(ascent=(512, 512), aero=(512, 512), camera=(512, 512), ecg=(1024,))
HASH = dict(ascent="d7889837d9d14ff8", aero="98a1d08a82198608", camera="b1a6165144aac8b0", ecg="b3826ec2d460e273")


def chk_data(case, ctx):
    name = case[1]
    here = os.path.dirname(pywt.data.__file__)
    for _ in range(2):
        ctx.states += 1
        ctx.transitions += 1
        g = getattr(pywt.data, name)()
        if name != "nino":
            raw = np.load(os.path.join(here, name + ".npz"))["data"]
            ctx.require(isinstance(g, np.ndarray) and g.shape == DATA[name] and g.dtype == raw.dtype, "shape or type of the data",
                        got=[np.shape(g), str(g.dtype)])
            ctx.traces += g.size
            ctx.require(np.array_equal(g, raw), "bundled data")
            h = hashlib.sha256(g.astype("<i8").tobytes()).hexdigest()[:16]
            ctx.require(h == HASH[name], "bundled data: contents", got=h)
        else:
            raw = np.load(os.path.join(here, "sst_nino3.npz"))["data"]
            ctx.require(isinstance(g, tuple) and len(g) == 2, "time and temperature")
            time, sst = g
            q = raw.shape[0] // 12 * 4
            mean = [(raw[3 * i, 4] + raw[3 * i + 1, 4] + raw[3 * i + 2, 4]) / 3.0 for i in range(q)]
            mu = sum(mean) / q
            sd = (sum((v - mu) ** 2 for v in mean) / (q - 1)) ** 0.5
            ctx.close(sst, [(v - mu) / sd for v in mean], 1e-11, "quarterly standardised temperature")
            ctx.close(time, [1950 + 0.25 * i for i in range(q)], 1e-9, "time in years")
            ctx.require(time.dtype == sst.dtype == np.float64, "type")
        for a in (g if isinstance(g, tuple) else (g,)):
            a[...] = 3          # the caller's copy
