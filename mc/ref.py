"""Reference models: the transforms written from their definitions, slowly and plainly.

Nothing here is taken from, or calls, the code under test; filters are passed in as plain lists.
"""
import functools
import math

import numpy as np

MODES = ["zero", "constant", "symmetric", "periodic", "smooth", "periodization", "reflect",
         "antisymmetric", "antireflect"]


# ---------------------------------------------------------------- signal extension
def ext_row(i, n, mode):
    """x_ext[i] as {index: coefficient} over x[0..n-1], for any integer i."""
    if 0 <= i < n:
        return {i: 1.0}
    if mode == "zero":
        return {}
    if mode == "constant":
        return {0 if i < 0 else n - 1: 1.0}
    if mode == "periodic":
        return {i % n: 1.0}
    if mode == "symmetric" or mode == "antisymmetric":
        q, r = divmod(i, n)            # mirror every n samples
        s = -1.0 if (mode == "antisymmetric" and q % 2) else 1.0
        return {(r if q % 2 == 0 else n - 1 - r): s}
    if mode == "smooth":
        if n == 1:
            return {0: 1.0}
        if i < 0:
            return {0: 1.0 - i, 1: float(i)}            # x0 + (-i)(x0 - x1)
        k = i - (n - 1)
        return {n - 1: 1.0 + k, n - 2: -float(k)}       # xe + k(xe - xe-1)
    if mode == "reflect":
        if n == 1:
            raise ValueError
        p = i % (2 * n - 2)
        return {(p if p < n else 2 * n - 2 - p): 1.0}
    if mode == "antireflect":
        if n == 1:
            raise ValueError
        # odd about both end points: f(-t) = 2 x0 - f(t), so f(t + 2(n-1)) = f(t) + 2 (xe - x0)
        q, p = divmod(i, 2 * n - 2)
        c = {}
        def add(k, v):
            c[k] = c.get(k, 0.0) + v
        add(n - 1, 2.0 * q)
        add(0, -2.0 * q)
        if p < n:
            add(p, 1.0)
        else:
            add(n - 1, 2.0)
            add(2 * n - 2 - p, -1.0)
        return c
    raise KeyError(mode)


@functools.lru_cache(maxsize=64)
def ext_matrix(n, lo, hi, mode):
    """rows: x_ext[lo..hi-1]."""
    if mode == "periodization":
        m = n + n % 2
        E = np.zeros((hi - lo, n))
        for i in range(lo, hi):
            E[i - lo, min(i % m, n - 1)] = 1.0
        return E
    E = np.zeros((hi - lo, n))
    for i in range(lo, hi):
        for k, v in ext_row(i, n, mode).items():
            E[i - lo, k] += v
    return E


def coeff_len(n, f, mode):
    return (n + 1) // 2 if mode == "periodization" else (n + f - 1) // 2


@functools.lru_cache(maxsize=64)
def _tap_index(n, f, mode):
    # offset of tap j of output o inside the extension starting at -f
    out = coeff_len(n, f, mode)
    o = np.arange(out)[:, None]
    j = np.arange(f)[None, :]
    c = f // 2 if mode == "periodization" else 1
    return 2 * o + c - j


def dwt_matrix(n, filt, mode):
    """A with A @ x = the (approximation or detail) coefficients."""
    f = len(filt)
    idx = _tap_index(n, f, mode)
    lo, hi = -f, n + f + 2
    E = ext_matrix(n, lo, hi, mode)
    G = np.zeros((idx.shape[0], hi - lo))
    np.add.at(G, (np.arange(idx.shape[0])[:, None], idx - lo), np.broadcast_to(filt, idx.shape))
    return G @ E


def dwt_mag(n, filt, mode):
    """row-wise bound sum |f||E|, for tolerances."""
    f = len(filt)
    idx = _tap_index(n, f, mode)
    lo, hi = -f, n + f + 2
    if n > LARGE:
        E = np.ones(hi - lo)
        if mode != "periodization":
            for i in list(range(lo, 0)) + list(range(n, hi)):
                E[i - lo] = sum(abs(v) for v in ext_row(i, n, mode).values())
    else:
        E = np.abs(ext_matrix(n, lo, hi, mode)).sum(axis=1)
    return (np.abs(filt)[None, :] * E[idx - lo]).sum(axis=1)


def dwt_direct(x, filt, mode):
    """dwt of one (long) vector without building matrices; x real or complex 1-D."""
    x = np.asarray(x)
    n, f = len(x), len(filt)
    lo, hi = -f, n + f + 2
    xe = np.zeros(hi - lo, dtype=np.result_type(x.dtype, np.float64))
    if mode == "periodization":
        m = n + n % 2
        i = np.arange(lo, hi) % m
        xe[:] = x[np.minimum(i, n - 1)]
    else:
        xe[-lo:-lo + n] = x
        for i in list(range(lo, 0)) + list(range(n, hi)):
            xe[i - lo] = sum(v * x[k] for k, v in ext_row(i, n, mode).items())
    idx = _tap_index(n, f, mode) - lo
    return (xe[idx] * np.asarray(filt)).sum(axis=1)


def idwt_len(n, f, mode):
    return 2 * n if mode == "periodization" else 2 * n - f + 2


def idwt_matrix(n, filt, mode):
    """S with S @ c = that band's part of the reconstruction."""
    f = len(filt)
    L = idwt_len(n, f, mode)
    S = np.zeros((L, n))
    for i in range(n):
        for j in range(f):
            if mode == "periodization":
                S[(2 * i + j - (f // 2 - 1)) % L, i] += filt[j]
            else:
                k = 2 * i + j - (f - 2)
                if 0 <= k < L:
                    S[k, i] += filt[j]
    return S


def upcoef_matrix(n, filt):
    f = len(filt)
    S = np.zeros((2 * n + f - 2, n))
    for i in range(n):
        for j in range(f):
            S[2 * i + j, i] += filt[j]
    return S


def swt_matrix(n, filt, level):
    f = len(filt)
    s = 1 << (level - 1)
    A = np.zeros((n, n))
    c = f * s // 2
    o = np.arange(n)
    for k in range(f):
        A[o, (o + c - s * k) % n] += filt[k]
    return A


# ---------------------------------------------------------------- lines along an axis
def along(M, x, axis):
    """Apply matrix M to every line of x along axis."""
    if isinstance(M, Rows):
        return np.moveaxis(M @ np.moveaxis(x, axis, 0), 0, axis)
    return np.moveaxis(np.tensordot(M, x, axes=(1, axis)), 0, axis)


class Rows:
    """A large matrix of short rows: (M @ x)[o] = sum over k of w[o, k] * x[cols[o, k]]."""

    def __init__(self, cols, w, n):
        self.cols, self.w, self.shape = cols, w, (cols.shape[0], n)

    def __matmul__(self, x):
        out = np.zeros(self.shape[:1] + x.shape[1:], np.result_type(x, float))
        for k in range(self.cols.shape[1]):
            out += self.w[:, k].reshape((-1,) + (1,) * (x.ndim - 1)) * x[self.cols[:, k]]
        return out


LARGE = 700          # from here on matrices are kept as Rows


def dwt_rows(n, filt, mode):
    f = len(filt)
    idx = _tap_index(n, f, mode)
    cols, w = np.zeros((len(idx), f + 4), int), np.zeros((len(idx), f + 4))
    cols[:, :f], w[:, :f] = idx, filt
    for o in np.nonzero(((idx < 0) | (idx >= n)).any(axis=1))[0]:
        c = {}
        for j in range(f):
            i = int(idx[o, j])
            row = {min(i % (n + n % 2), n - 1): 1.0} if mode == "periodization" else ext_row(i, n, mode)
            for k, v in row.items():
                c[k] = c.get(k, 0.0) + v * filt[j]
        cols[o], w[o] = 0, 0
        cols[o, :len(c)], w[o, :len(c)] = list(c), list(c.values())
    return Rows(cols, w, n)


def idwt_rows(n, filt, mode):
    f = len(filt)
    L = idwt_len(n, f, mode)
    off = f // 2 - 1 if mode == "periodization" else f - 2
    i2 = np.arange(L)[:, None] + off - np.arange(f)[None, :]
    w = np.where(i2 % 2 == 0, np.asarray(filt)[None, :], 0.0)
    i = i2 // 2
    if mode == "periodization":
        return Rows(i % n, w, n)
    return Rows(np.clip(i, 0, n - 1), np.where((i < 0) | (i >= n), 0.0, w), n)


def swt_rows(n, filt, level):
    f, s = len(filt), 1 << (level - 1)
    cols = (np.arange(n)[:, None] + f * s // 2 - s * np.arange(f)[None, :]) % n
    return Rows(cols, np.broadcast_to(np.asarray(filt), cols.shape), n)


def iswt_rows(n, filt, level):
    """The mean over the two decimation phases of the periodized synthesis of each interleaved sub-signal."""
    f, s = len(filt), 1 << (level - 1)
    o = np.arange(n)[:, None]
    cols = o % s + s * ((o // s + f // 2 - 1 - np.arange(f)[None, :]) % (n // s))
    return Rows(cols, np.broadcast_to(0.5 * np.asarray(filt), cols.shape), n)


class Bank:
    """Plain-number filter bank."""

    def __init__(self, name, dec_lo, dec_hi, rec_lo, rec_hi):
        self.name = name
        self.dec_lo, self.dec_hi = np.array(dec_lo, float), np.array(dec_hi, float)
        self.rec_lo, self.rec_hi = np.array(rec_lo, float), np.array(rec_hi, float)
        self.f = len(self.dec_lo)
        self._c = {}

    def dec(self, n, mode):
        k = ("d", n, mode)
        if k not in self._c:
            f = dwt_matrix if n <= LARGE else dwt_rows
            self._c[k] = (f(n, self.dec_lo, mode), f(n, self.dec_hi, mode))
        return self._c[k]

    def rec(self, n, mode):
        k = ("r", n, mode)
        if k not in self._c:
            f = idwt_matrix if n <= LARGE else idwt_rows
            self._c[k] = (f(n, self.rec_lo, mode), f(n, self.rec_hi, mode))
        return self._c[k]

    def swtm(self, n, level):
        k = ("s", n, level)
        if k not in self._c:
            f = swt_matrix if n <= LARGE else swt_rows
            self._c[k] = (f(n, self.dec_lo, level), f(n, self.dec_hi, level))
        return self._c[k]

    def scaled(self, s):
        k = ("x", s)
        if k not in self._c:
            self._c[k] = Bank(self.name, self.dec_lo * s, self.dec_hi * s, self.rec_lo * s, self.rec_hi * s)
        return self._c[k]


def max_level(n, f):
    if f < 2 or n < f - 1:
        return 0
    lev = 0
    while (f - 1) << (lev + 1) <= n:
        lev += 1
    return lev


def dwt(x, b, mode, axis=-1):
    lo, hi = b.dec(x.shape[axis], mode)
    return along(lo, x, axis), along(hi, x, axis)


def idwt(a, d, b, mode, axis=-1):
    n = (a if a is not None else d).shape[axis]
    lo, hi = b.rec(n, mode)
    out = 0
    if a is not None:
        out = out + along(lo, a, axis)
    if d is not None:
        out = out + along(hi, d, axis)
    return out


def wavedec(x, b, mode, level, axis=-1):
    out = []
    for _ in range(level):
        x, d = dwt(x, b, mode, axis)
        out.append(d)
    return [x] + out[::-1]


def trim_to(a, shape_src, axes):
    """Drop one trailing sample of a along axes where it is one longer than shape_src."""
    sl = [slice(None)] * a.ndim
    for ax in axes:
        if a.shape[ax] == shape_src[ax] + 1:
            sl[ax] = slice(0, -1)
    return a[tuple(sl)]


def waverec(c, b, mode, axis=-1):
    """c: [a, d_n..d_1], details may be None (zeros)."""
    a = c[0]
    for d in c[1:]:
        if d is not None:
            a = trim_to(a, d.shape, [axis])
        a = idwt(a, d, b, mode, axis)
    return a


def dwtn(x, banks, modes, axes):
    out = {"": x}
    for ax, b, m in zip(axes, banks, modes):
        new = {}
        for k, v in out.items():
            new[k + "a"], new[k + "d"] = dwt(v, b, m, ax)
        out = new
    return out


def idwtn(c, banks, modes, axes):
    """c: {key: array or None}."""
    for i in range(len(axes) - 1, -1, -1):
        new = {}
        for k in {k[:-1] for k in c}:
            a, d = c.get(k + "a"), c.get(k + "d")
            new[k] = None if a is None and d is None else idwt(a, d, banks[i], modes[i], axes[i])
        c = new
    return c[""]


def wavedecn(x, banks, modes, axes, level):
    out = []
    for _ in range(level):
        c = dwtn(x, banks, modes, axes)
        x = c.pop("a" * len(axes))
        out.append(c)
    return [x] + out[::-1]


def waverecn(c, banks, modes, axes):
    a = c[0]
    for d in c[1:]:
        d = {k: v for k, v in d.items() if v is not None}
        if d and a is not None:
            a = trim_to(a, next(iter(d.values())).shape, axes)
        d["a" * len(axes)] = a
        a = idwtn(d, banks, modes, axes)
    return a


# ---------------------------------------------------------------- stationary
def swt(x, b, level, start_level=0, axis=-1):
    """list of (a, d), coarsest first."""
    out = []
    for j in range(start_level + 1, start_level + level + 1):
        lo, hi = b.swtm(x.shape[axis], j)
        x, d = along(lo, x, axis), along(hi, x, axis)
        out.append((x, d))
    return out[::-1]


def swtn(x, banks, axes, level, start_level=0):
    out = []
    for j in range(start_level + 1, start_level + level + 1):
        c = {"": x}
        for ax, b in zip(axes, banks):
            new = {}
            for k, v in c.items():
                lo, hi = b.swtm(v.shape[ax], j)
                new[k + "a"], new[k + "d"] = along(lo, v, ax), along(hi, v, ax)
            c = new
        x = c["a" * len(axes)]
        out.append(c)
    return out[::-1]


@functools.lru_cache(maxsize=256)
def _iswt_level_cached(n, rl, rh, level):
    """Matrices (Ra, Rd) of one inverse stationary level at dilation 2**(level-1): the mean over the two
    decimation phases, on each of the 2**(level-1) interleaved sub-signals."""
    s = 1 << (level - 1)
    m = n // s                       # samples per sub-signal (even)
    Sa = idwt_matrix(m // 2, np.array(rl), "periodization")
    Sd = idwt_matrix(m // 2, np.array(rh), "periodization")
    out = []
    for S in (Sa, Sd):
        R = np.zeros((n, n))
        for first in range(s):
            idx = np.arange(first, n, s)
            ev, od = idx[0::2], idx[1::2]
            R[np.ix_(idx, ev)] += 0.5 * S
            R[np.ix_(idx, od)] += 0.5 * np.roll(S, 1, axis=0)
        out.append(R)
    return tuple(out)


def iswt_level(n, b, level):
    if n > LARGE:
        return tuple(iswt_rows(n, f, level) for f in (b.rec_lo, b.rec_hi))
    return _iswt_level_cached(n, tuple(b.rec_lo), tuple(b.rec_hi), level)


def iswt(a, details, b, axis=-1):
    """a: coarsest approximation, details: coarsest first."""
    L = len(details)
    for i, d in enumerate(details):
        Ra, Rd = iswt_level(a.shape[axis], b, L - i)
        a = along(Ra, a, axis) + along(Rd, d, axis)
    return a


def iswtn(a, details, banks, axes):
    """details: list of dicts, coarsest first."""
    L = len(details)
    for i, c in enumerate(details):
        cur = dict(c)
        cur["a" * len(axes)] = a
        for p in range(len(axes) - 1, -1, -1):
            new = {}
            for k in {k[:-1] for k in cur}:
                Ra, Rd = iswt_level(a.shape[axes[p]], banks[p], L - i)
                new[k] = along(Ra, cur[k + "a"], axes[p]) + along(Rd, cur[k + "d"], axes[p])
            cur = new
        a = cur[""]
    return a


# ---------------------------------------------------------------- data
def dense(n, seed=1, cplx=False, salt=0):
    """A generic vector of order-1 values (Weyl sequence), no two alike."""
    k = np.arange(1, n + 1, dtype=float)
    v = np.modf(k * (0.6180339887498949 + 0.01 * (seed % 7)) + 0.137 * salt)[0] * 2 - 1 + 0.013
    if cplx:
        return v + 1j * (np.modf(k * 0.41421356237309515 + 0.2 * salt + 0.05 * (seed % 5))[0] * 2 - 1)
    return v


def ndense(shape, seed=1, cplx=False, salt=0):
    return dense(int(np.prod(shape)), seed, cplx, salt).reshape(shape)
