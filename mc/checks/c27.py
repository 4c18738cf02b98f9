"""C27: interruptions. A call is interrupted (KeyboardInterrupt, MemoryError) at each line of each of pywt's Python functions where
something is called or computed; then its arguments, the shared wavelets, numpy's error state and the warning filters are as before,
and the same call, another of its family and finally one call of every kind give the results they have alone in a process. The
same in processes where the interrupted call is the first (forked for every point). A call that survives returns its result. Operations on packet trees are interrupted inside
every transform they make and inside callbacks; the operation done again must give the tree it gives alone."""
import ast
import inspect
import os
import sys

import numpy as np
import pywt

import alphabet
from checks import c22, c24
from checks.c22 import same_data
from common import Quiet

ID = "C27"
TECHNIQUE = "explicit-state fault enumeration on the real code: an exception at every interruptible point of every call, then the state and later calls compared with a process where nothing was interrupted"
BOUNDS = dict(
    quick="270 calls x every line that calls or computes (first two visits) x KeyboardInterrupt; MemoryError at the first visit; the same call, one of its family and one of every kind "
          "afterwards; 114 calls interrupted at each line as the first of a process; 13 operations on 3 packet trees in 4 states",
    thorough="1400 calls, first eight visits of every line, both exceptions; 270 calls as the first of a process")
ASSUMPTIONS = ["no interruption inside the header of a with statement or a finally block (where Python itself gives no guarantee)",
               "packet trees: interruptions inside transforms and callbacks, not between the creation of two sibling nodes"]
CHUNK = 1
CASE_TIMEOUT = 400
PKG = os.path.dirname(os.path.abspath(pywt.__file__)) + os.sep
LINES = {}


def lines(name):
    """The lines of a source file on which something is called or computed, outside with headers and finally blocks."""
    v = LINES.get(name)
    if v is None:
        v, bad = set(), set()
        for n in ast.walk(ast.parse(open(name).read())):
            if isinstance(n, (ast.Call, ast.BinOp, ast.Subscript, ast.Attribute, ast.ListComp, ast.For)):
                v.add(n.lineno)
            if isinstance(n, (ast.With, ast.AsyncWith)):
                bad.update(range(n.lineno, n.body[0].lineno))
            if isinstance(n, ast.Try):
                for s in n.finalbody:
                    bad.update(range(s.lineno, s.end_lineno + 1))
        v = LINES[name] = v - bad
    return v


class Interrupt:
    """A trace function that raises at the k-th point."""

    def __init__(self, k, exc, visits, but=None):
        self.but = but
        self.k, self.exc, self.visits, self.n, self.seen, self.where = k, exc, visits, 0, {}, None

    def __call__(self, frame, event, arg):
        name = frame.f_code.co_filename
        return self.local if name.startswith(PKG) and name != self.but else None

    def local(self, frame, event, arg):
        if event == "line" and self.where is None and frame.f_lineno in lines(frame.f_code.co_filename):
            key = frame.f_code, frame.f_lineno
            v = self.seen[key] = self.seen.get(key, 0) + 1
            if v <= self.visits:
                self.n += 1
                if self.n > self.k:
                    self.where = "%s:%d" % (os.path.basename(frame.f_code.co_filename), frame.f_lineno)
                    raise self.exc("interrupted")
        return self.local


def interrupted(p, c, a, k, exc, visits):
    """Runs the call, interrupting it at point k: (reached, result or exception)."""
    t = Interrupt(k, exc, visits)
    old = sys.gettrace()
    sys.settrace(t)
    try:
        r = c.fn(p.env, *a)
    except BaseException as e:
        e.__traceback__ = None
        r = e
    finally:
        sys.settrace(old)
    return t.where, r


CALLS = BASE = None


def prepare():
    global CALLS, BASE
    if CALLS is None:
        c22.prepare()
        CALLS, BASE = c22.CALLS, c22.BASE


def state(env):
    return repr([(k, w.filter_bank, w.orthogonal, w.biorthogonal, w.name, w.family_name, w.vanishing_moments_psi) for k, w in env.w.items()]) + \
        repr([np.geterr(), __import__("warnings").filters, pywt.Modes.modes, len(pywt.wavelist()), pywt.families(), np.get_printoptions()])


def verify(ctx, p, j, role, **kw):
    c = CALLS[j]
    a, _ = p.args(c.data, False)
    try:
        r = c.fn(p.env, *a)
    except Exception as e:
        e.__traceback__ = None
        r = e
    ctx.traces += 1
    if not c22.good(j, r):
        ctx.fail("a call depends on one that was interrupted before", later=CALLS[j].label, role=role, got=repr(r)[:300], alone=repr(BASE[j][1])[:300], **kw)


def one(ctx, p, i, js, k, exc, visits):
    """Interrupts call i at point k and looks at what remains; False when there is no such point."""
    c = CALLS[i]
    a, _ = p.args(c.data, False)
    before = state(p.env)
    ctx.step(c.label, exc.__name__, k)
    ctx.transitions += 1
    where, r = interrupted(p, c, a, k, exc, visits)
    if where is None:
        return False
    ctx.states += 1
    kw = dict(call=c.label, exception=exc.__name__, where=where, point=k)
    if isinstance(r, BaseException):
        ctx.extra["raised"] += 1
    elif not c22.good(i, r):
        ctx.fail("an interrupted call returns something else than its result", got=repr(r)[:300], **kw)
    if not all(map(same_data, a, c.data)):
        ctx.fail("an interrupted call leaves its arguments changed", **kw)
    if state(p.env) != before:
        ctx.fail("an interrupted call leaves shared wavelets or settings changed", **kw)
    for j in js:
        verify(ctx, p, j, "same" if j == i else "other", interrupted=kw)
    return True


def warm(ctx, i, excs):
    p = c24.Proc()
    for d in (CALLS[i],):
        d.data = [v() if isinstance(v, alphabet.Maker) else v for v in d.data]
    js = [i] + [j for j in [c22.partner(i)] if j is not None]
    for exc, visits in excs:
        k = 0
        while one(ctx, p, i, js, k, exc, visits):
            k += 1
        ctx.extra["points"] += k
    for j in c22.COMPOSITE:
        verify(ctx, p, j, "one of every kind", interrupted=CALLS[i].label)


def cold(ctx, i, excs):
    js = {i, c22.partner(i), max(j for j, c in enumerate(CALLS) if c.group == CALLS[i].group and BASE[j][0])}
    js = [i] + sorted(j for j in js if j is not None and j != i)
    CALLS[i].data = [v() if isinstance(v, alphabet.Maker) else v for v in CALLS[i].data]
    for exc, visits in excs:
        k = 0
        while True:
            def f():
                c = c22.Quick(ctx)
                return one(c, c24.Proc(), i, js, k, exc, visits), c.traces
            ctx.step("cold", CALLS[i].label, k)
            ok, r = c24.in_child(f)
            if not ok:
                ctx.fail(r[0], first_call_of_the_process=True, call=CALLS[i].label, point=k, **{x: y for x, y in r[1].items() if x not in ("call", "point")})
                return
            ctx.transitions += 1
            if not r[0]:
                break
            ctx.states += 1
            ctx.traces += r[1]
            k += 1
        ctx.extra["first_call_points"] += k


# ------------------------------------------------------------------ packet trees
PARTS = {"1": "ad", "2": "ahvd", "n": ["aa", "ad", "da", "dd"]}


def tree(kind):
    v = 1.0 + np.arange(48) ** 2 % 23
    if kind == "1":
        return pywt.WaveletPacket(v[:13], "db2", "symmetric", maxlevel=3)
    if kind == "2":
        return pywt.WaveletPacket2D(v[:42].reshape(7, 6), "haar", "reflect", maxlevel=2)
    return pywt.WaveletPacketND(v.reshape(8, 3, 2)[:7], "haar", "zero", maxlevel=2, axes=(0, 1))


def touch(t, kind, how):
    """The states in which trees are interrupted."""
    p = PARTS[kind]
    if how == "decomposed":
        t.get_level(2)
    elif how == "changed":
        t.get_level(2)
        for q, f in ((p[0] + p[1], 2.0), (p[1] + p[0], -1.0)):
            t[q].data = t[q].data * f
        del t[p[1] + p[1]]
    elif how == "one branch":
        t[p[-1] + p[0]]
        t[p[-1] + p[0]].data = t[p[-1] + p[0]].data + 3


class Boom(Exception):
    pass


def callback(limit):
    """A function for walk that raises at its limit-th node (None: never)."""
    seen = []

    def f(node, *a):
        seen.append(node.path)
        if limit is not None and len(seen) > limit:
            raise Boom
        return True
    return f, seen


def operations(kind):
    p = PARTS[kind]
    q = p[1] + p[-1]
    ops = dict(
        getitem=lambda t: t[q].data, decompose=lambda t: len(list(t.decompose())),
        get_level=lambda t: [(n.path, n.data) for n in np.ravel(np.array(t.get_level(2), dtype=object))],
        leaves=lambda t: [n.path for n in t.get_leaf_nodes(True)], present=lambda t: [n.path for n in t.get_leaf_nodes(False)],
        walk=lambda t: walk(t.walk), walk_depth=lambda t: walk(t.walk_depth), rec=lambda t: t.reconstruct(False), update=lambda t: t.reconstruct(True),
        assign=lambda t: t.__setitem__(q, np.ones_like(t[q].data)), str=str, sub=lambda t: t[p[0]].reconstruct(True))
    if kind != "n":
        ops["freq"] = lambda t: [n.path for n in np.ravel(np.array(t.get_level(2, "freq"), dtype=object))]
    return ops


def walk(w):
    f, seen = callback(None)
    w(f)
    return seen


def nodes(t, kind):
    """The nodes that exist."""
    out = {}

    def go(n):
        out[n.path] = n.data, n.maxlevel, n.level
        for p in PARTS[kind]:
            s = n.get_subnode(p, False)
            if s is not None:
                go(s)
    go(t)
    return out


def observe(t, kind):
    """Everything in the tree: nodes that exist, what their subnodes give, then all nodes to level 2."""
    out = nodes(t, kind)
    out["reconstructed"] = t.reconstruct(False)
    out["leaves"] = [n.path for n in t.get_leaf_nodes(False)]
    for a in PARTS[kind]:
        for b in PARTS[kind]:
            out["get " + a + b] = t[a + b].data
    out["at end"] = t.reconstruct(False)
    return out


def equal(a, b):
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(map(equal, a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.shape == b.shape and a.dtype == b.dtype and np.allclose(a, b, rtol=1e-9, atol=1e-9)
    return not isinstance(b, np.ndarray) and a == b


def trees(ctx, kind, how, th):
    for name, op in operations(kind).items():
        if how in ("changed", "one branch") and name not in ("rec", "update", "present", "str", "sub", "getitem"):
            continue            # where nodes were changed, decomposing again overwrites them
        t = tree(kind)
        touch(t, kind, how)
        before = nodes(t, kind)
        r0 = op(t)
        after = nodes(t, kind)
        want = observe(t, kind)
        plans = [(KeyboardInterrupt, 8 if th else 2), (MemoryError, 8 if th else 1)]
        if name.startswith("walk"):
            plans.append((Boom, None))
        for exc, visits in plans:
            k = 0
            while True:
                t = tree(kind)
                touch(t, kind, how)
                ctx.step(kind, how, name, exc.__name__, k)
                ctx.transitions += 1
                if exc is Boom:
                    f, seen = callback(k)
                    where = "callback %d" % k
                    try:
                        getattr(t, name)(f)
                        break
                    except Boom:
                        pass
                else:
                    i = Interrupt(k, exc, visits, inspect.getfile(pywt.WaveletPacket))
                    sys.settrace(i)
                    try:
                        op(t)
                    except exc as e:
                        e.__traceback__ = None
                    finally:
                        sys.settrace(None)
                    where = i.where
                    if where is None:
                        break
                ctx.states += 1
                k += 1
                kw = dict(tree=kind, before=how, operation=name, exception=exc.__name__, where=where, point=k - 1)
                for q, v in nodes(t, kind).items():
                    if not (q in before and equal(v, before[q]) or q in after and equal(v, after[q])):
                        ctx.fail("an interrupted operation on a packet tree leaves a node with neither its old nor its new data", node=q, got=repr(v)[:200], **kw)
                        break
                try:
                    r = op(t)
                    got = observe(t, kind)
                except Exception as e:
                    e.__traceback__ = None
                    ctx.fail("an operation on a packet tree fails after one that was interrupted", got=repr(e), **kw)
                    continue
                ctx.traces += 2
                if not equal(r, r0):
                    ctx.fail("an operation on a packet tree depends on one that was interrupted", got=repr(r)[:300], want=repr(r0)[:300], **kw)
                elif not equal(got, want):
                    ctx.fail("a packet tree depends on an operation that was interrupted", nodes=[x for x in want if x not in got or not equal(got[x], want[x])], **kw)
            ctx.extra["tree_points"] += k


def cases(tier, seed):
    for kind in "12n":
        for how in ("fresh", "decomposed", "changed", "one branch"):
            yield ["tree", kind, how]
    with Quiet():
        prepare()
    th = tier == "thorough"
    core = [i for i, c in enumerate(CALLS) if c.core]
    for i in (core if th else c22.COMPOSITE) + c22.FIRST + [i for i, c in enumerate(CALLS) if c.group == "data"]:
        yield ["cold", i, CALLS[i].label]
    for i in range(len(CALLS)) if th else core + c22.FIRST:
        yield ["warm", i, CALLS[i].label]


def check(case, ctx):
    th = ctx.tier == "thorough"
    if case[0] == "tree":
        return trees(ctx, case[1], case[2], th)
    with Quiet():
        prepare()
        if case[0] == "cold":
            cold(ctx, case[1], [(KeyboardInterrupt, 8 if th else 2)])
        else:
            warm(ctx, case[1], [(KeyboardInterrupt, 8 if th else 2), (MemoryError, 8 if th else 1)])
