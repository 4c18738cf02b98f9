"""C22: schedules. pywt is built with every native memory access preceded by a hook, and runs under a scheduler that owns all
switches between two threads: a call is stopped at each line of each of pywt's Python functions, at the first and last access of
each of its regions without the interpreter lock, and at every such access that conflicts with an access of the other call; there
the other call runs completely (or up to its own switch point), then both finish. Results must be those of the calls alone. When
no access conflicts, all the interleavings of the native regions are equivalent to the one that ran (partial-order argument).
The other call is: the same call on the same objects, another of its family with other parameters and data, and a sequence of one
call of every kind. The same in a process where nothing ran before (forked for every schedule)."""
import os
import pickle
import sys
import threading

import numpy as np
import pywt

import alphabet
import memhook
from checks import c24
from common import Quiet
from engine import Violation

ID = "C22"
VARIANT = "tsan"
TECHNIQUE = "stateless model checking of the real code: a controlled two-thread scheduler, partial-order reduction over recorded native accesses, preemption bound 1-2"
BOUNDS = dict(
    quick="1400 calls against themselves at native switch points; 200 core calls x 3 other calls x every Python line (one preemption); "
          "two preemptions at native switch points and conflicting accesses; 70 calls in a fresh process per schedule",
    thorough="every call x 4 others, every line and every CPython switch point within lines; two preemptions at Python lines for short calls; fresh processes for all core calls")
ASSUMPTIONS = ["numpy's own native code is thread-safe", "two threads; wavelets' attributes are not changed meanwhile"]
CHUNK = 1
CASE_TIMEOUT = 400
PKG = os.path.dirname(os.path.abspath(pywt.__file__)) + os.sep
sched = memhook.load("sched")

CALLS = BASE = None


def prepare():
    global CALLS, BASE, COMPOSITE, FIRST
    if CALLS is None:
        c24.prepare()
        CALLS, BASE = c24.CALLS, c24.BASE
        seen = set()
        COMPOSITE = []
        for i, c in enumerate(CALLS):
            if c.core and c.group not in seen and c.group != "data":
                seen.add(c.group)
                COMPOSITE.append(i)
        # the families without a core call
        FIRST = []
        for i, c in enumerate(CALLS):
            if c.group not in seen and BASE[i][0]:
                seen.add(c.group)
                FIRST.append(i)


def partner(i):
    """A call of the same family with other data and parameters."""
    c = CALLS[i]
    same = [j for j, d in enumerate(CALLS) if d.group == c.group and j != i]
    pref = [j for j in same if CALLS[j].core] or same
    if not pref:
        return None
    later = [j for j in pref if j > i]
    return later[0] if later else pref[0]


def cases(tier, seed):
    with Quiet():
        prepare()
    th = tier == "thorough"
    out = []
    core = [i for i, c in enumerate(CALLS) if c.core]
    for i in (core if th else COMPOSITE) + FIRST:
        out.append(["cold", i, CALLS[i].label])
    for i in range(len(CALLS)) if th else core + FIRST:
        out.append(["python", i, CALLS[i].label])
    for k in range(0, len(CALLS), 10):
        out.append(["native", k, min(k + 10, len(CALLS))])
    return out


# ------------------------------------------------------------------ the two threads
class Machine:
    def __init__(self):
        sched.install()
        sched.setup(-1, -1, 0, 0)
        sys.setswitchinterval(1000.0)
        self.job = {}
        self.out = {}
        for r in (1, 2):
            threading.Thread(target=self.loop, args=(r,), daemon=True).start()

    def loop(self, r):
        sched.install()
        while True:
            sched.idle(r)
            fn, trace = self.job[r]
            sched.enter(r)
            if trace is not None:
                sys.settrace(trace)
            try:
                v = fn()
            except BaseException as e:
                v = e
            sys.settrace(None)
            sched.leave()
            self.out[r] = v
            del fn, v
            sched.done(r)

    def run(self, fa, fb, na=-1, nb=-1, ta=None, tb=None, log=0, defer=0):
        """fa is stopped at its point (access number na, or where trace ta stops it), fb runs (to its own point), fa ends, fb ends.
        Returns (a stopped at the point, b stopped at its point)."""
        sched.setup(na, nb, log, defer)
        self.job = {1: (fa, ta), 2: (fb, tb)}
        self.out = {}
        sched.resume(1)
        s = self.wait(1)
        if s == 3:
            return False, False
        sched.resume(2)
        s = sched.wait(2, 700)
        bp = s == 2
        if s == 1:
            self.blocked += 1           # b waits for something a holds
        sched.resume(1)
        if bp:
            if sched.wait(1, 700) == 1:
                self.blocked += 1       # a waits for something b holds
            sched.resume(2)
        self.wait(1)
        while self.wait(2) == 2:
            sched.resume(2)
        return True, bp

    blocked = 0

    def wait(self, r):
        s = sched.wait(r, 60000)
        if s < 2:
            raise Violation("the two calls never end: deadlock", dict())
        return s


class Stop:
    """A trace function that stops the thread at the k-th point in pywt's Python code (k=None: counts them)."""

    def __init__(self, k, fine, visits):
        self.k, self.n, self.fine, self.where = k, 0, fine, None
        self.visits, self.seen = visits, {}
        self.cache = {}

    def hit(self, frame):
        if self.visits:
            k = frame.f_code, frame.f_lineno if not self.fine else frame.f_lasti
            v = self.seen[k] = self.seen.get(k, 0) + 1
            if v > self.visits:
                return
        if self.n == self.k:
            self.where = "%s:%d" % (os.path.basename(frame.f_code.co_filename), frame.f_lineno)
            self.n += 1
            sched.pause()
        else:
            self.n += 1

    def __call__(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(PKG):
            return None
        if self.fine:
            frame.f_trace_opcodes = True
        self.hit(frame)
        return self.local

    def offsets(self, code):
        """Instructions after a call: where the interpreter may switch threads."""
        v = self.cache.get(code)
        if v is None:
            import dis
            v, prev = set(), None
            for ins in dis.get_instructions(code):
                if prev is not None and ("CALL" in prev or prev in ("RESUME", "BINARY_OP", "BINARY_SUBSCR", "STORE_SUBSCR", "LOAD_ATTR", "COMPARE_OP")):
                    v.add(ins.offset)
                prev = ins.opname
            self.cache[code] = v
        return v

    def local(self, frame, event, arg):
        if event == "line":
            self.hit(frame)
        elif event == "opcode" and frame.f_lasti in self.offsets(frame.f_code):
            self.hit(frame)
        return self.local


MACHINE = None


def machine():
    global MACHINE
    if MACHINE is None:
        MACHINE = Machine()
        MACHINE.env = alphabet.Env()
    return MACHINE


def caller(m, i, args):
    c = CALLS[i]
    return lambda: c.fn(m.env, *args)


def good(i, r):
    ok, want = BASE[i]
    if isinstance(r, BaseException):
        return type(want) is tuple and len(want) == 3 and type(want[0]) is str and ("raised", type(r).__name__, str(r)) == want
    return c24.same_plain(r, want)


class Side:
    """One of the two calls (or the sequence of all kinds of calls, i = -1)."""

    def __init__(self, m, i, args=None):
        self.i = i
        self.ids = COMPOSITE if i == -1 else [i]
        self.args = args or [m.p.args(CALLS[j].data, False)[0] for j in self.ids]
        self.fns = [caller(m, j, a) for j, a in zip(self.ids, self.args)]
        self.label = "one call of every kind" if i == -1 else CALLS[i].label

    def __call__(self):
        if self.i != -1:
            return self.fns[0]()
        out = []
        for f in self.fns:
            try:
                out.append(f())
            except Exception as e:
                out.append(e)
        return out

    def verify(self, ctx, r, role, **kw):
        rs = r if self.i == -1 else [r]
        if not isinstance(rs, list):
            rs = [rs] * len(self.ids)
        for j, v in zip(self.ids, rs):
            ctx.traces += 1
            if not good(j, v):
                ctx.fail("a result depends on the schedule", call=CALLS[j].label, role=role, got=repr(v)[:400], alone=repr(BASE[j][1])[:400], **kw)

    def unchanged(self, ctx, **kw):
        for j, a in zip(self.ids, self.args):
            if not c24.same(list(a), list(CALLS[j].data)) and not same_data(a, CALLS[j].data):
                ctx.fail("concurrent calls leave their shared arguments changed", call=CALLS[j].label, **kw)


def same_data(a, b):
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes()
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(map(same_data, a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same_data(a[k], b[k]) for k in a)
    return True


def explore(ctx, m, a, b, **kw):
    """Runs one schedule and verifies both results."""
    ctx.transitions += 1
    desc = {k: (v if not isinstance(v, Stop) else v.k) for k, v in kw.items() if v not in (-1, 0, None)}
    ctx.step(a.label, b.label, desc)
    try:
        ra, rb = m.run(a, b, **kw)
    except Violation as e:
        ctx.fail(e.msg, a=a.label, b=b.label, schedule=desc)
        raise
    if not ra:
        return ra, rb
    ctx.states += 1
    w = getattr(kw.get("ta"), "where", None)
    a.verify(ctx, m.out[1], "stopped", other=b.label, schedule=desc, where=w)
    b.verify(ctx, m.out[2], "inserted", other=a.label, schedule=desc, where=w)
    if m.blocked:
        ctx.extra["schedules_where_one_call_waits_for_the_other"] += m.blocked
        m.blocked = 0
    return ra, rb


def alone(ctx, m, a):
    """Runs a by itself in thread 1: numbers of accesses without the lock and the regions' starts."""
    m.run(a, a)
    a.verify(ctx, m.out[1], "alone")
    n, _, starts, over = sched.info()
    return n, starts


def native(ctx, m, i, j, two):
    a = Side(m, i)
    b = Side(m, j, a.args if i == j else None)
    na, sa = alone(ctx, m, a)
    if not na:
        return
    nb, sb = alone(ctx, m, b)
    # which accesses conflict
    explore(ctx, m, a, b, na=0, log=1, defer=1)
    conf = sched.conflicts()
    if sched.info()[3]:
        ctx.extra["native_logs_cut_short"] += 1
    points = sorted(set(sa) | {s - 1 for s in sa if s} | {na - 1, 0})
    ctx.extra["native_regions"] += len(sa)
    if conf:
        ctx.extra["pairs_with_conflicting_accesses"] += 1
        step = max(1, len(conf) // 400)
        points = sorted(set(points) | set(conf[::step]))
        if step > 1:
            ctx.extra["conflicting_accesses_not_used"] += len(conf) - len(conf[::step])
    for k in points:
        explore(ctx, m, a, b, na=k)
    if two and nb:
        pb = sorted(set(sb) | {s - 1 for s in sb if s} | {nb - 1, 0})
        if conf:
            explore(ctx, m, b, a, na=0, log=1, defer=1)
            cb = sched.conflicts()
            pb = sorted(set(pb) | set(cb[::max(1, len(cb) // 12)]))
            points = sorted(set(sa) | set(conf[::max(1, len(conf) // 12)]))
        n = 24 if ctx.tier == "thorough" else 9
        for x in points[:n]:
            for y in pb[:n]:
                explore(ctx, m, a, b, na=x, nb=y)
    a.unchanged(ctx)
    b.unchanged(ctx)


def python(ctx, m, i, j, fine, two, visits):
    a = Side(m, i)
    b = Side(m, j, a.args if i == j else None)
    k = 0
    while True:
        if not explore(ctx, m, a, b, ta=Stop(k, fine, visits))[0]:
            break
        k += 1
        if two and k <= 60:
            y = 0
            while y < 60 and explore(ctx, m, a, b, ta=Stop(k - 1, fine, 1), tb=Stop(y, fine, 1))[1]:
                y += 1
    ctx.extra["python_points"] += k
    a.unchanged(ctx)
    b.unchanged(ctx)


def cold(ctx, i, j):
    """Every schedule in a process of its own, where no call has run yet."""
    k = 0
    while True:
        def f():
            m = machine()
            m.p = c24.Proc()
            a = Side(m, i)
            b = Side(m, j, a.args if i == j else None)
            c = Quick(ctx)
            return explore(c, m, a, b, ta=Stop(k, False, 2 if ctx.tier == 'quick' else 0))[0], c.n
        ctx.step("cold", CALLS[i].label, CALLS[j].label, k)
        ok, r = c24.in_child(f)
        if not ok:
            ctx.fail(r[0], first_calls_of_the_process=True, a=CALLS[i].label, b=CALLS[j].label, point=k, **r[1])
            return
        ctx.transitions += 1
        if not r[0]:
            break
        ctx.states += 1
        ctx.traces += r[1]
        k += 1
    ctx.extra["cold_schedules"] += k


class Quick:
    """Counts in a child process."""

    def __init__(self, ctx):
        self.transitions = self.states = self.traces = self.n = 0
        self.extra = ctx.extra.copy()

    def step(self, *a):
        pass

    def fail(self, msg, **d):
        raise Violation(msg, d)


def check(case, ctx):
    with Quiet():
        prepare()
        th = ctx.tier == "thorough"
        if case[0] == "cold":
            i = case[1]
            js = [i, partner(i)]
            if th or i in FIRST:
                js.append(max(j for j, c in enumerate(CALLS) if c.group == CALLS[i].group and BASE[j][0]))
            for j in sorted({j for j in js if j is not None}):
                cold(ctx, i, j)
            return
        m = machine()
        m.p = c24.Proc()
        m.env = m.p.env
        if case[0] == "python":
            i = case[1]
            for j in [i, partner(i), -1]:
                if j is not None and (j != -1 or th or i in COMPOSITE):
                    python(ctx, m, i, j, th and j != -1, th and j != -1, 1 if j == -1 else 0 if th else 2)
        else:
            for i in range(case[1], case[2]):
                j = partner(i)
                native(ctx, m, i, i, th or CALLS[i].core)
                if j is not None and (th or CALLS[i].core):
                    native(ctx, m, i, j, True)
                if th or i in COMPOSITE:
                    native(ctx, m, i, -1, False)
