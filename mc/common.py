"""Helpers shared by the checks (imports the pywt under test)."""
import functools
import itertools
import warnings

import numpy as np
import pywt

import ref

MODES = ref.MODES
DISCRETE = [
    'bior1.1', 'bior1.3', 'bior1.5', 'bior2.2', 'bior2.4', 'bior2.6', 'bior2.8', 'bior3.1', 'bior3.3', 'bior3.5',
    'bior3.7', 'bior3.9', 'bior4.4', 'bior5.5', 'bior6.8'] + ['coif%d' % i for i in range(1, 18)] + \
    ['db%d' % i for i in range(1, 39)] + ['dmey', 'haar'] + [
    'rbio1.1', 'rbio1.3', 'rbio1.5', 'rbio2.2', 'rbio2.4', 'rbio2.6', 'rbio2.8', 'rbio3.1', 'rbio3.3', 'rbio3.5',
    'rbio3.7', 'rbio3.9', 'rbio4.4', 'rbio5.5', 'rbio6.8'] + ['sym%d' % i for i in range(2, 21)]

EPS = {"float64": 2.0 ** -52, "complex128": 2.0 ** -52, "float32": 2.0 ** -23, "complex64": 2.0 ** -23}
DTYPES = ["float64", "float32", "complex128", "complex64"]


# banks of the user's own: @c<n> n arbitrary taps per filter, @p<n> a perfect-reconstruction bank padded to n taps
CUSTOM = ["@c2", "@c3", "@c6", "@c13", "@c46", "@p10", "@p44"]


def custom(name):
    n = int(name[2:])
    if name[1] == "c":
        r = np.random.RandomState(n)
        return r.uniform(-1, 1, (4, n)).round(3).tolist()
    b = pywt.Wavelet("db%d" % (n // 2 - 1)).filter_bank
    return [[0.0] + [v * s for v in f] + [0.0] for f, s in zip(b, (2.0, 0.5, 0.5, 2.0))]


def prec(w, dmey, other):
    """Precision to which a round trip holds for a bank."""
    return float("inf") if w.startswith("@c") else dmey if w == "dmey" else other


def exact(w):
    return w != "dmey" and not w.startswith("@c")


@functools.lru_cache(None)
def wav(name):
    if name[0] == "@":
        return pywt.Wavelet(name, filter_bank=custom(name))
    return pywt.Wavelet(name)


@functools.lru_cache(None)
def bank(name):
    """The reference model's own copy of the filters (checked against the definition by C12)."""
    w = wav(name)
    return ref.Bank(name, w.dec_lo, w.dec_hi, w.rec_lo, w.rec_hi)


class Quiet:
    """Silence warnings around implementation calls."""
    def __enter__(self):
        self.c = warnings.catch_warnings()
        self.c.__enter__()
        warnings.simplefilter("ignore")

    def __exit__(self, *a):
        self.c.__exit__(*a)


warnings.simplefilter("ignore")
np.seterr(all="ignore")


def tol_for(dtype, mag, k=32.0):
    """Absolute tolerance for results of magnitude at most mag (sum of |terms|)."""
    return k * EPS[str(dtype)] * np.maximum(mag, 1e-300)


class _Api:
    """pywt's functions, taking the names of custom banks too."""

    def __getattr__(self, name):
        f = getattr(pywt, name)
        if isinstance(f, type(call_)) or name.startswith("WaveletPacket") or type(f).__name__.startswith("cython") or \
                type(f).__name__ == "builtin_function_or_method":
            g = lambda *a, **k: f(*[tr(v) for v in a], **{i: tr(v) for i, v in k.items()})
        else:
            g = f
        setattr(self, name, g)
        return g


def call_():
    pass


def tr(v):
    if isinstance(v, str):
        return wav(v) if v[:1] == "@" else v
    if isinstance(v, tuple):
        return tuple(map(tr, v)) if any(isinstance(x, str) and x[:1] == "@" for x in v) else v
    return v


api = _Api()
