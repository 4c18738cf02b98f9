"""C11: wavelet packet trees under every operation history up to a depth, against a reference tree.

The reference tree holds plain arrays and the reference single-level transforms. Every history over the alphabet up to the
depth is run on a fresh real tree; beyond that depth, a breadth-first search merges histories that reach the same reference
state (same nodes with the same data) and explores every operation from each distinct state."""
import itertools
import pickle

import numpy as np

import ref
from common import CUSTOM, DISCRETE, MODES, bank, tol_for, wav, api as pywt

ID = "C11"
BOUNDS = dict(
    quick="21 configurations (1-D/2-D/N-D trees, axes, odd and even shapes, modes, maxlevel, dtypes, trees without data); 12 configurations of larger data, deeper trees (to level 6) and up to 5 axes x 6 histories; all "
          "histories of 2 operations over ~35-60 operations, breadth-first to depth 4 (or 1500 states) with state merging; "
          "106 wavelets and 7 custom banks x 9 modes single decompose/reconstruct; orders to level 5",
    thorough="all histories of 3 operations, breadth-first to depth 6 (or 20000 states)")
ASSUMPTIONS = ["the filters of each wavelet are read from the Wavelet object (C12 decides those)",
               "in the breadth-first part, histories that reach the same reference state are explored once"]
CHUNK = 1
CASE_TIMEOUT = 600

CONFIGS = [
    # kind, shape, wavelet, mode, axes, maxlevel, dtype, start
    ("1", [8], "haar", "symmetric", None, None, "float64", "data"),
    ("1", [7], "haar", "symmetric", None, None, "float64", "data"),
    ("1", [13], "db2", "reflect", None, None, "float64", "data"),
    ("1", [12], "bior1.3", "periodization", None, 2, "complex128", "data"),
    ("1", [9], "db2", "zero", None, 3, "float32", "data"),
    ("1", [5, 8], "haar", "smooth", 0, None, "float64", "data"),
    ("1", [6, 5], "haar", "periodic", -1, 2, "complex64", "data"),
    ("1", [8], "haar", "symmetric", None, 2, "float64", "none"),
    ("1", [8], "db2", "periodization", None, 3, "float64", "none"),
    ("2", [4, 4], "haar", "smooth", None, None, "float64", "data"),
    ("2", [5, 6], "haar", "symmetric", None, 2, "float64", "data"),
    ("2", [4, 3, 6], "haar", "periodization", (0, 2), None, "float64", "data"),
    ("2", [6, 5], "db2", "antireflect", (1, 0), 2, "complex128", "data"),
    ("2", [4, 8], "haar", "periodization", None, 2, "float64", "none"),
    ("n", [4, 4], "haar", "smooth", None, None, "float64", "data"),
    ("n", [5, 7], "haar", "symmetric", None, 2, "float64", "data"),
    ("n", [3, 4, 2], "haar", "constant", None, 2, "float64", "data"),
    ("n", [7, 3], "haar", "zero", 0, None, "float64", "data"),
    ("n", [5, 3, 6], "db2", "symmetric", (2, 0), 2, "complex64", "data"),
    ("n", [8, 4], "haar", "periodization", (0, 1), 2, "float64", "none"),
    ("1", [16], "haar", "antisymmetric", None, None, "float64", "data"),
]


DEEP = [("1", [300], "db2", "symmetric", None, 6, "float64"), ("1", [1000], "haar", "reflect", None, 6, "complex128"), ("1", [3, 257], "bior2.2", "periodization", 1, 5, "float64"),
        ("1", [64, 5], "haar", "zero", 0, None, "float32"), ("2", [40, 37], "db2", "smooth", None, 3, "float64"), ("2", [70, 3, 33], "haar", "periodization", (0, 2), 3, "complex64"),
        ("2", [64, 64], "haar", "symmetric", (1, 0), 4, "float64"), ("n", [20, 18, 9], "haar", "zero", None, 2, "float64"), ("n", [33, 40], "db3", "antireflect", None, 2, "complex128"),
        ("n", [3, 4, 3, 4, 2], "haar", "symmetric", None, 1, "float64"), ("n", [4, 40, 3, 36], "db2", "constant", (3, 1), 3, "float64"), ("n", [130], "haar", "symmetric", None, 6, "float64")]


def cases(tier, seed):
    for i in range(len(DEEP)):
        for h in range(6):
            yield ["deep", i, h]
    for i in range(len(CONFIGS)):
        yield ["bfs", i]
    for i in range(len(CONFIGS)):
        for first in range(len(alphabet(i))):
            yield ["hist", i, first]
    for i in range(0, len(DISCRETE + CUSTOM), 4):
        yield ["wav", (DISCRETE + CUSTOM)[i:i + 4]]
    for lev in range(1, 6):
        yield ["order", lev]


# ---------------------------------------------------------------- reference tree
class M:
    """A node of the reference tree."""

    def __init__(self, env, parent, part, data):
        self.env, self.parent = env, parent
        self.path = "" if parent is None else parent.path + part
        self.level = 0 if parent is None else parent.level + 1
        self.data = data
        self.shape = None if data is None else data.shape
        self.kids = {p: None for p in env.parts}

    def split(self):
        if self.data is None:
            for p in self.env.parts:
                if self.kids[p] is None or self.env.kind != "1":
                    self.kids[p] = M(self.env, self, p, None)
            return
        for p, v in self.env.forward(self.data).items():
            self.kids[p] = M(self.env, self, p, v)

    def decompose(self):
        if self.level >= self.env.maxlevel:
            raise Raised
        self.split()

    def sub(self, part, decompose=True):
        if part not in self.kids:
            raise Raised
        if self.kids[part] is None and decompose and self.data is not None:
            self.decompose()
        return self.kids[part]

    def get(self, path):
        n = self.env.plen
        if len(path) > self.env.maxlevel * n:
            raise Raised
        node = self
        for i in range(0, len(path), n):
            node = node.sub(path[i:i + n])
            if node is None:
                raise Raised      # nothing there and nothing to compute it from
        return node

    def set(self, path, data):
        n = self.env.plen
        if len(self.path) + len(path) > self.env.maxlevel * n:
            raise Raised
        parts = [path[i:i + n] for i in range(0, len(path), n)]
        if any(p not in self.kids for p in parts):
            raise Raised
        node = self
        for p in parts:
            if node.kids[p] is None:
                node.kids[p] = M(self.env, node, p, None)
            node = node.kids[p]
        node.data = data

    def delete(self, path):
        node = self.get(path)
        if node.parent is not None:
            node.parent.kids[path[-self.env.plen:]] = None
            node.parent = None

    def any_kid(self):
        return any(k is not None for k in self.kids.values())

    def rec(self, update=False):
        if not self.any_kid():
            return self.data
        c = {p: k.rec() if k is not None else None for p, k in self.kids.items()}
        if all(v is None for v in c.values()):
            raise Raised
        out = self.env.inverse(c)
        if self.shape is not None:
            out = out[tuple(slice(s) for s in self.shape)]
        if update:
            self.data = out
        return out

    def walk(self, f, decompose):
        if f(self) and self.level < self.env.maxlevel:
            for p in self.env.parts:
                k = self.sub(p, decompose)
                if k is not None:
                    k.walk(f, decompose)

    def walk_depth(self, f, decompose):
        if self.level < self.env.maxlevel:
            for p in self.env.parts:
                k = self.sub(p, decompose)
                if k is not None:
                    k.walk_depth(f, decompose)
        f(self)

    def at_level(self, level, decompose):
        out = []

        def f(n):
            if n.level == level:
                out.append(n)
                return False
            return True
        self.walk(f, decompose)
        return out

    def leaves(self, decompose):
        out = []

        def f(n):
            if n.level == self.env.maxlevel and n.data is not None:
                out.append(n)
                return False
            if not decompose and not n.any_kid():
                out.append(n)
                return False
            return True
        self.walk(f, decompose)
        return out

    def key(self):
        d = None if self.data is None else (self.data.shape, np.round(self.data, 6).tobytes())
        return (d, self.shape, tuple(k.key() if k is not None else None for k in self.kids.values()))


class Raised(Exception):
    pass


class Env:
    def __init__(self, kind, shape, w, mode, axes, maxlevel, dtype, start, seed):
        self.kind, self.w, self.mode, self.dtype, self.call_axes = kind, w, mode, dtype, axes
        self.shape = tuple(shape)
        nd = len(shape)
        self.b = bank(w)
        if kind == "1":
            self.axes = (nd - 1 if axes is None else axes % nd,)
        elif kind == "2":
            self.axes = tuple(a % nd for a in axes) if axes else (nd - 2, nd - 1)
        else:
            self.axes = tuple(range(nd)) if axes is None else (axes,) if np.isscalar(axes) else tuple(axes)
        r = len(self.axes)
        self.keys = ["".join(k) for k in itertools.product("ad", repeat=r)]
        if kind == "2":
            self.names = dict(aa="a", da="h", ad="v", dd="d")
            self.parts = ["a", "h", "v", "d"]
        else:
            self.names = {k: k for k in self.keys}
            self.parts = list(self.keys)
        self.plen = r if kind == "n" else 1
        n = min(self.shape[a] for a in self.axes)
        self.arg_maxlevel = maxlevel
        self.maxlevel = ref.max_level(n, self.b.f) if maxlevel is None else maxlevel
        self.none = start == "none"
        cp = dtype[0] == "c"
        self.x = ref.ndense(self.shape, seed, cp).astype(dtype)
        self.wide = "complex128" if cp else "float64"
        self.seed = seed

    def forward(self, x):
        c = ref.dwtn(x, [self.b] * len(self.axes), [self.mode] * len(self.axes), self.axes)
        return {self.names[k]: v for k, v in c.items()}

    def inverse(self, c):
        shape = {v.shape for v in c.values() if v is not None}
        if len(shape) > 1:
            raise Raised
        return ref.idwtn({k: c[self.names[k]] for k in self.keys}, [self.b] * len(self.axes),
                         [self.mode] * len(self.axes), self.axes)

    def real(self, data=None, none=None):
        none = self.none if none is None else none
        x = None if none else self.x.copy() if data is None else data
        kw = dict(mode=self.mode, maxlevel=self.maxlevel if none else self.arg_maxlevel)
        if self.kind == "1":
            ax = {} if self.call_axes is None else dict(axis=self.call_axes)
            if none:
                ax = dict(axis=0)
            return pywt.WaveletPacket(x, self.w, **kw, **ax)
        ax = {} if self.call_axes is None else dict(axes=self.call_axes)
        return (pywt.WaveletPacket2D if self.kind == "2" else pywt.WaveletPacketND)(x, self.w, **kw, **ax)

    def model(self):
        return M(self, None, "", None if self.none else self.x.astype(self.wide))

    def node_shape(self, level):
        s = list(self.shape)
        for a in self.axes:
            for _ in range(level):
                s[a] = ref.coeff_len(s[a], self.b.f, self.mode)
        return tuple(s)

    def value(self, path, k=0):
        s = self.node_shape(len(path) // self.plen)
        salt = sum((i + 2) * (ord(c) - 90) for i, c in enumerate(path)) % 50 + 3 + 50 * k
        return ref.ndense(s, self.seed, self.dtype[0] == "c", salt).astype(self.dtype)


def env_of(i, seed=1):
    return Env(*CONFIGS[i], seed)


def alphabet(i):
    e = env_of(i)
    p = e.parts
    first, last, mid = p[0], p[-1], p[len(p) // 2]
    ml = e.maxlevel
    paths = [first, last] + ([mid] if len(p) > 2 else [])
    two = [first + last, last + first, first + first] if ml >= 2 else []
    deep = [(first + last + last + first)[:0] + (first + last) * 4][0][: e.plen * ml] if ml > 2 else None
    ops = []
    for q in paths + two + ([deep] if deep else []):
        ops += [("get", q), ("set", q), ("del", q)]
    for q in paths + two[:1]:
        ops += [("dec", q), ("rec", q), ("recu", q)]
    ops += [("set", ""), ("dec", ""), ("root",), ("root0",), ("setnode", first, last), ("setnode", last, first)]
    for lev in range(1, min(ml, 3) + 1):
        ops += [("level", lev, "natural", True), ("level", lev, "natural", False)]
        if e.kind != "n":
            ops += [("level", lev, "freq", True)]
    ops += [("level", min(ml, 2), "freq", False)] if e.kind != "n" else []
    ops += [("leaves", True), ("leaves", False), ("walk", False), ("walkd", False), ("walk", True), ("pickle",), ("gettuple",)]
    ops += [("get", first * (ml + 1)), ("set", first * (ml + 1)), ("get", "x" * e.plen), ("set", first + "x" * e.plen),
            ("del", "x" * e.plen), ("rel",), ("setbad",), ("level", ml + 1, "natural", True), ("type",)]
    return ops


# ---------------------------------------------------------------- one operation on both trees
def tol(e):
    k = 2 ** len(e.axes)
    n = e.shape
    m = 1.0
    for a in e.axes:
        m *= max(ref.dwt_mag(n[a], e.b.dec_lo, e.mode).max(), ref.dwt_mag(n[a], e.b.dec_hi, e.mode).max(), 2)
    g = (np.abs(e.b.rec_lo).sum() + np.abs(e.b.rec_hi).sum()) ** len(e.axes)
    return tol_for(e.dtype, (m * g) ** e.maxlevel * k)


def cmp_data(ctx, got, want, T, msg, **kw):
    if want is None:
        return ctx.require(got is None, msg + ": expected no data", got=got, **kw)
    ctx.require(got is not None, msg + ": no data", **kw)
    ctx.close(got, want, T, msg, **kw)


def cmp_nodes(ctx, got, want, T, msg, **kw):
    ctx.same([n.path for n in got], [n.path for n in want], msg + ": paths", **kw)
    for g, w in zip(got, want):
        cmp_data(ctx, g.data, w.data, T, msg + ": data of " + repr(w.path), **kw)


def cmp_tree(ctx, e, t, m, T, **kw):
    ctx.same((t.path, t.level, t.maxlevel, t.is_empty, t.has_any_subnode, t.node_name),
             (m.path, m.level, e.maxlevel, m.data is None, m.any_kid(), m.path[-e.plen:] if m.path else ""), "node", **kw)
    ctx.same(t.path_tuple, tuple(m.path[i:i + e.plen] for i in range(0, len(m.path), e.plen)), "path_tuple", **kw)
    cmp_data(ctx, t.data, m.data, T, "data of node " + repr(m.path), **kw)
    for p in e.parts:
        k, w = t.get_subnode(p, False), m.kids[p]
        ctx.require((k is None) == (w is None), "node exists", path=m.path + p, got=k is not None, want=w is not None, **kw)
        if k is not None:
            ctx.require(k.parent is t, "parent", path=k.path, **kw)
            cmp_tree(ctx, e, k, w, T, **kw)


def gray(path, one):
    """index of a natural-order path in frequency order: Gray-code decoding"""
    out = bit = 0
    for c in path:
        bit ^= c in one
        out = 2 * out + bit
    return out


def freq(e, nodes):
    """frequency order: 1-D list, or rows of columns"""
    if e.kind == "1":
        return sorted(nodes, key=lambda n: gray(n.path, "d"))
    # 'h': high along the first axis, 'v': high along the second, 'd': both
    rows = {}
    for n in nodes:
        rows.setdefault(gray(n.path, "hd"), {})[gray(n.path, "vd")] = n
    return [[rows[r][c] for c in sorted(rows[r])] for r in sorted(rows)]


def apply(ctx, e, t, m, op, T, hist):
    """returns the (possibly replaced) trees"""
    kind = op[0]
    kw = dict(hist=hist)
    # the model first
    try:
        want = model_op(e, m, op)
        raised = False
    except Raised:
        want, raised = None, True
    try:
        got = real_op(e, t, op)
    except (ValueError, IndexError, TypeError, RuntimeError) as ex:
        if not raised:
            ctx.fail("operation raised", op=op, error=repr(ex), **kw)
        return t, m
    if raised:
        ctx.fail("operation should raise", op=op, got=got, **kw)
    if kind in ("get", "gettuple"):
        cmp_nodes(ctx, [got], [want], T, "access", op=op, **kw)
    elif kind in ("rec", "recu", "root", "root0"):
        cmp_data(ctx, got, want, T, "reconstruct", op=op, **kw)
    elif kind == "dec":
        cmp_nodes(ctx, list(got), list(want), T, "decompose", op=op, **kw)
    elif kind in ("leaves", "walk", "walkd"):
        cmp_nodes(ctx, got, want, T, kind, op=op, **kw)
    elif kind == "level":
        if e.kind == "2" and op[2] == "freq":
            ctx.same([[n.path for n in r] for r in got], [[n.path for n in r] for r in want], "frequency order", op=op, **kw)
            got, want = sum(got, []), sum(want, [])
        cmp_nodes(ctx, got, want, T, "get_level", op=op, **kw)
    elif kind == "pickle":
        return got, want
    return t, m


def model_op(e, m, op):
    k = op[0]
    if k in ("get", "rec", "recu", "dec"):
        n = m.get(op[1])
        if k == "get":
            return n
        if k == "dec":
            n.decompose()
            return [n.kids[p] for p in e.parts]
        return n.rec(update=k == "recu" or n.parent is None and n.level == 0)
    if k == "gettuple":
        return m.get(e.parts[-1] * min(2, e.maxlevel))
    if k == "set":
        v = e.value(op[1]).astype(e.wide) if set(op[1]) <= set("".join(e.parts)) and \
            len(op[1]) <= e.maxlevel * e.plen else None
        if v is None:
            m.set(op[1], None)
            raise AssertionError(op)
        return m.set(op[1], v)
    if k == "setnode":
        return m.set(op[1], m.get(op[2]).data)
    if k == "del":
        return m.delete(op[1])
    if k == "root":
        return m.rec(update=True)
    if k == "root0":
        return m.rec(update=False)
    if k == "level":
        if op[1] > e.maxlevel:
            raise Raised
        r = m.at_level(op[1], op[3])
        return freq(e, r) if op[2] == "freq" else r
    if k == "leaves":
        return m.leaves(op[1])
    if k in ("walk", "walkd"):
        out = []
        if k == "walk":
            m.walk(lambda n: out.append(n) or True, op[1])
        else:
            m.walk_depth(lambda n: out.append(n) or True, op[1])
        return out
    if k == "pickle":
        if e.kind == "n":
            return m
        return M(e, None, "", m.data)
    if k in ("rel", "setbad", "type"):
        n = m.get(e.parts[0]) if k == "rel" else None
        if k == "rel":
            # a relative path that goes below the last level
            node = n
            while node.level < e.maxlevel:
                node = node.sub(e.parts[0])
                if node is None:
                    break
        raise Raised
    raise KeyError(op)


def real_op(e, t, op):
    k = op[0]
    if k == "get":
        return t[op[1]]
    if k == "gettuple":
        return t[(e.parts[-1],) * min(2, e.maxlevel)]
    if k == "dec":
        return t[op[1]].decompose()
    if k == "rec":
        return t[op[1]].reconstruct()
    if k == "recu":
        return t[op[1]].reconstruct(update=True)
    if k == "set":
        ok = set(op[1]) <= set("".join(e.parts)) and len(op[1]) <= e.maxlevel * e.plen
        t[op[1]] = e.value(op[1]) if ok else np.zeros(3)
        return None
    if k == "setnode":
        t[op[1]] = t[op[2]]
        return None
    if k == "del":
        del t[op[1]]
        return None
    if k == "root":
        return t.reconstruct()
    if k == "root0":
        return t.reconstruct(update=False)
    if k == "level":
        if e.kind == "n":
            return t.get_level(op[1], decompose=op[3])
        return t.get_level(op[1], order=op[2], decompose=op[3])
    if k == "leaves":
        return t.get_leaf_nodes(decompose=op[1])
    if k in ("walk", "walkd"):
        out = []

        def f(n, tag, extra=None):
            assert (tag, extra) == ("tag", 5)
            out.append(n)
            return True
        (t.walk if k == "walk" else t.walk_depth)(f, ("tag",), dict(extra=5), decompose=op[1])
        return out
    if k == "pickle":
        return pickle.loads(pickle.dumps(t))
    if k == "rel":
        return t[e.parts[0]][e.parts[0] * e.maxlevel]
    if k == "setbad":
        t[e.parts[0]] = "no number"
        return None
    if k == "type":
        t[3]
        return None


def runnable(e, m, op):
    """operations outside the documented domain in this state are left out"""
    if m.env.none and m.data is None:
        # walking needs data; a data-less tree is for assembling and reconstructing
        if op[0] == "pickle" and e.kind != "n":
            return False
    if op[0] == "setnode":
        k = m.kids[op[2]]       # a node without data is not something to assign
        return k.data is not None if k is not None else m.data is not None
    if op[0] in ("setbad", "rel", "type"):
        return not e.none
    return True


def run_hist(ctx, e, hist, T):
    t, m = e.real(), e.model()
    done = []
    for op in hist:
        if not runnable(e, m, op):
            return None
        done.append(op)
        ctx.transitions += 1
        t, m = apply(ctx, e, t, m, op, T, done)
        if t is None:
            return None
    cmp_tree(ctx, e, t, m, T, hist=done)
    return m


def chk_hist(ctx, i, first):
    e, ops = env_of(i, ctx.seed), alphabet(i)
    T = tol(e)
    depth = 3 if ctx.tier == "thorough" else 2
    for rest in itertools.product(ops, repeat=depth - 1):
        hist = (ops[first],) + rest
        ctx.states += 1
        ctx.step("history", CONFIGS[i], hist)
        run_hist(ctx, e, hist, T)


def chk_bfs(ctx, i):
    e, ops = env_of(i, ctx.seed), alphabet(i)
    T = tol(e)
    depth, cap = (6, 20000) if ctx.tier == "thorough" else (4, 1500)
    seen = {e.model().key()}
    front = [()]
    level = 0
    while front and level < depth and len(seen) < cap:
        new = []
        for h in front:
            for op in ops:
                hist = h + (op,)
                ctx.step("bfs", CONFIGS[i], hist)
                m = run_hist(ctx, e, hist, T)
                if m is None:
                    continue
                k = m.key()
                if k not in seen:
                    seen.add(k)
                    ctx.states += 1
                    new.append(hist)
            if len(seen) >= cap:
                break
        else:
            level += 1
            ctx.extra["bfs_levels_completed"] += 1
        front = new
    ctx.extra["bfs_states"] += len(seen)


def chk_wav(ctx, ws):
    for w in ws:
        F = wav(w).dec_len
        for kind, shape in (("1", [min(2 * F, 40)]), ("1", [min(F + 1, 31)]), ("2", [9, 7]), ("n", [5, 6])):
            for mode in MODES:
                e = Env(kind, shape, w, mode, None, 2, "float64", "data", ctx.seed)
                T = tol(e)
                ctx.states += 1
                ctx.step("wp", w, kind, shape, mode)
                run_hist(ctx, e, [("level", 2, "natural", True), ("root0",), ("get", e.parts[0]), ("recu", e.parts[-1])], T)


def chk_deep(ctx, i, h):
    """Complete deep trees of larger data."""
    e = Env(*DEEP[i], "data", ctx.seed)
    p, lev = e.parts, e.maxlevel
    one, two = (p[-1] + p[0] * lev)[:e.plen * lev], (p[0] + p[-1] * lev)[:e.plen * lev]
    mid = (p[len(p) // 2] + p[1 % len(p)] + p[0] * lev)[:e.plen * max(1, lev - 1)]
    full = ("level", lev, "natural", True)
    hist = [[full] + ([("level", lev, "freq", True)] if e.kind != "n" else []) + [("leaves", False), ("walk", False)],
            [("get", one), ("get", two), ("recu", mid[:e.plen]) if lev > 1 else ("root0",), ("leaves", False), ("root",), ("leaves", True)],
            [full, ("set", one), ("del", two), ("leaves", False), ("root0",), ("root",), ("leaves", False)],
            [("level", max(1, lev - 1), "natural", True), ("set", mid), ("get", two), ("root",), full, ("root0",), ("leaves", True)],
            [full, ("pickle",), ("set", two), ("walkd", False), ("root",)],
            [("get", two), ("del", mid), ("level", lev, "natural", False), ("leaves", True), ("root",), ("set", ""), full, ("root0",)]][h]
    ctx.states += 1
    run_hist(ctx, e, hist, tol(e))


def chk_order(ctx, level):
    """Natural and frequency order of complete and partial levels."""
    for n in (32, 33, 47):
        for w in ("haar", "db2"):
            for drop in [None] + (list(itertools.product("ad", repeat=min(level, 2)))):
                e = Env("1", [n], w, "symmetric", None, level, "float64", "data", ctx.seed)
                T = tol(e)
                ctx.states += 1
                h = [("level", level, "natural", True)]
                if drop:
                    h += [("del", "".join(drop)), ("level", level, "freq", False), ("level", level, "natural", False),
                          ("leaves", False)]
                h += [("level", level, "freq", True), ("leaves", True), ("root",)]
                run_hist(ctx, e, h, T)
    if level <= 3:
        for shape in ([8, 16], [9, 11]):
            for drop in [None, "a", "h", "v", "d"]:
                e = Env("2", shape, "haar", "smooth", None, level, "float64", "data", ctx.seed)
                h = [("level", level, "natural", True)] + ([("del", drop), ("level", level, "freq", False)] if drop else [])
                run_hist(ctx, e, h + [("level", level, "freq", True), ("leaves", False), ("root",)], tol(e))


def check(case, ctx):
    globals()["chk_" + case[0]](ctx, *case[1:])
