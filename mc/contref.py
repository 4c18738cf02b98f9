"""Closed forms of the continuous wavelets, from their definitions (nothing taken from the code under test)."""
import functools

import numpy as np


def _deriv_poly(n, shift):
    """p_n with d^n/dx^n [exp(-i s x) exp(-x^2)] = p_n(x) exp(-i s x) exp(-x^2); coefficients, ascending."""
    p = np.array([1.0 + 0j])
    for _ in range(n):
        d = np.polynomial.polynomial.polyder(p) if len(p) > 1 else np.array([0j])
        m = np.polynomial.polynomial.polymul(p, np.array([-1j * shift, -2.0]))
        q = np.zeros(len(m), complex)
        q[:len(d)] += d
        q += m
        p = q
    return p


def _norm2(p):
    """integral |p(x)|^2 exp(-2 x^2)."""
    a = np.polynomial.polynomial.polymul(p, np.conj(p)).real
    s, m = 0.0, np.sqrt(np.pi / 2)      # integral of x^k exp(-2x^2): k even, m_k = m_{k-2} (k-1)/4
    for k in range(0, len(a), 2):
        if k:
            m = m * (k - 1) / 4
        s += a[k] * m
    return s


@functools.lru_cache(None)
def _gauss(n, cplx):
    p = _deriv_poly(n, 1.0 if cplx else 0.0)
    return p, np.sqrt(_norm2(p))


def psi(family, number, x, B=None, C=None, M=None):
    """(values, magnitude of the terms) at x (float64)."""
    x = np.asarray(x, float)
    if family == "gaus":
        p, nrm = _gauss(number, False)
        s = 1.0 if number % 4 in (0, 1) else -1.0
        e = np.exp(-x * x) / nrm
        return (s * np.polynomial.polynomial.polyval(x, p.real) * e,
                np.polynomial.polynomial.polyval(np.abs(x), np.abs(p)) * e)
    if family == "cgau":
        p, nrm = _gauss(number, True)
        e = np.exp(-x * x) / nrm
        return (np.polynomial.polynomial.polyval(x, p) * np.exp(-1j * x) * e,
                np.polynomial.polynomial.polyval(np.abs(x), np.abs(p.real) + np.abs(p.imag)) * e)
    if family == "mexh":
        c = 2 / (np.sqrt(3) * np.pi ** 0.25)
        return c * (1 - x * x) * np.exp(-x * x / 2), c * (1 + x * x) * np.exp(-x * x / 2)
    if family == "morl":
        return np.cos(5 * x) * np.exp(-x * x / 2), (1 + 5 * np.abs(x)) * np.exp(-x * x / 2)
    w = np.exp(2j * np.pi * C * x)
    arg = 1 + 2 * np.pi * C * np.abs(x)
    if family == "cmor":
        e = np.exp(-x * x / B) / np.sqrt(np.pi * B)
        return w * e, (arg + x * x / B) * e
    if family == "shan":
        return np.sqrt(B) * np.sinc(B * x) * w, arg * np.sqrt(B) * (np.abs(np.sinc(B * x)) + 1 / (1 + B * np.abs(x)))
    if family == "fbsp":
        s = np.sinc(B * x / M)
        # error of sinc**M: M (|s| + eps)^(M-1)
        return np.sqrt(B) * s ** M * w, (arg + M) * np.sqrt(B) * ((np.abs(s) + 1e-7) ** (M - 1) * (
            np.abs(s) + 1 / (1 + B * np.abs(x) / M)))
    raise KeyError(family)


BOUND = dict(gaus=5, cgau=5, mexh=8, morl=8, cmor=8, shan=20, fbsp=20)
DEFAULT = dict(cmor=(1.0, 0.5, None), shan=(0.5, 1.0, None), fbsp=(1.0, 0.5, 2))


def parse(name):
    """(family, number, B, C, M) of a continuous wavelet name."""
    fam = name[:4]
    if fam in DEFAULT:
        if len(name) == 4:
            return (fam, 0) + DEFAULT[fam]
        v = [float(t) for t in name[4:].split("-")]
        if fam == "fbsp":
            return fam, 0, v[1], v[2], int(v[0])
        return fam, 0, v[0], v[1], None
    return fam, int(name[4:] or 0), None, None, None


class Spec:
    """What wavefun of a continuous wavelet must return, for given parameters, bounds and precision."""

    def __init__(self, name, dtype="float64", **mods):
        self.fam, self.num, B, C, M = parse(name)
        self.lo, self.hi = -float(BOUND[self.fam]), float(BOUND[self.fam])
        f = lambda v: None if v is None else float(np.float32(v))
        self.B, self.C, self.M = f(mods.get("bandwidth_frequency", B)), f(mods.get("center_frequency", C)), mods.get("fbsp_order", M)
        self.lo, self.hi = f(mods.get("lower_bound", self.lo)), f(mods.get("upper_bound", self.hi))
        self.dtype = dtype
        self.eps = np.finfo(dtype).eps
        self.cplx = self.fam in ("cgau", "cmor", "shan", "fbsp")

    def wavefun(self, n):
        """psi, tolerance, grid."""
        x = np.linspace(self.lo, self.hi, n).astype(self.dtype)
        v, mag = psi(self.fam, self.num, x.astype(float), self.B, self.C, self.M)
        # the argument itself is a rounded number: |x| <= 20, powers up to x^8
        return v, 32 * self.eps * (mag * (1 + x.astype(float) ** 2) + (1e-30 if self.dtype == "float64" else 1e-20)), x


NAMES = ['cgau%d' % i for i in range(1, 9)] + ['gaus%d' % i for i in range(1, 9)] + ['mexh', 'morl'] + [
    'cmor', 'cmor1.5-1.0', 'cmor0.5-2', 'cmor3-.3', 'cmor10-0.75', 'shan', 'shan1.5-1.0', 'shan0.5-2', 'shan.25-0.4', 'fbsp',
    'fbsp1-1.5-1', 'fbsp3-0.5-2.0', 'fbsp2-5-1', 'fbsp7-1.25-0.5', 'fbsp4-2-.1']


def central(psi_vals, domain, err=0.0):
    """All acceptable peak frequencies (ties and near-ties; err: sum of the errors of the values)."""
    n = len(psi_vals)
    F = np.abs(np.fft.fft(psi_vals))[1:]
    ks = np.flatnonzero(F >= F.max() - 1e-9 * (np.abs(psi_vals).sum() + 1e-300) - 2 * err) + 1
    return {min(k, n - k) / domain for k in ks}
