"""C26: allocation failures. pywt is built with every malloc, calloc and realloc of its native code (the C kernels and the code
Cython generates) going through a fault injector, and with AddressSanitizer. For every call of the alphabet of C24 the allocations
it makes are counted; then it is run once per allocation with only that one failing, once per allocation with that one and all the
later ones failing. It must raise an ordinary exception or return the right result (arrays of its own memory are filled with NaN
bytes beforehand, so a result that was never written is seen); its arguments and shared wavelets stay as they were; afterwards the
same call gives the right result; the failing runs together leave no memory behind."""
import gc

import numpy as np

import alphabet
import memhook
from checks import c24
from checks.c22 import same_data
from common import Quiet

ID = "C26"
VARIANT = "fault"
BOUNDS = dict(
    quick="1400 calls x every allocation of native code (one failing; that and all later ones failing)",
    thorough="the same, every pair of failing allocations of calls with up to 40, and the calls repeated on fresh objects")
ASSUMPTIONS = ["allocations of the interpreter and of numpy succeed (their failures are exceptions at Python level: see C27)"]
CHUNK = 1
CASE_TIMEOUT = 400
fault = memhook.load("fault")


CALLS = None


def prepare():
    global CALLS
    if CALLS is None:
        CALLS = alphabet.calls()


def setup_worker(ctx):
    memhook.load("memhook").install()


def cases(tier, seed):
    with Quiet():
        prepare()
    for k in range(0, len(CALLS), 5):
        yield [k, min(k + 5, len(CALLS))]


def once(p, c, at, upto):
    a, _ = p.args(c.data, False)
    fault.arm(at, upto)
    try:
        r, exc = c.fn(p.env, *a), None
    except Exception as e:
        r, exc = None, ("raised", type(e).__name__, str(e))
        e.__traceback__ = None
    n, failed = fault.disarm()
    return a, exc, r, n, failed


def good(want, exc, r):
    return exc == want[0] if exc or want[0] else c24.same(c24.plain(r), want[1])


def state(env):
    return [(k, w.filter_bank, w.orthogonal, w.biorthogonal, w.name) for k, w in env.w.items()]


def check(case, ctx):
    with Quiet():
        prepare()
        p = c24.Proc()
        before = repr(state(p.env))
        for i in range(*case):
            c = CALLS[i]
            c.data = [v() if isinstance(v, alphabet.Maker) else v for v in c.data]
            a, exc, r, n, _ = once(p, c, -1, -1)
            want = exc, c24.plain(r)
            del a, r
            ctx.extra["allocations"] += n
            if not n:
                continue
            plans = [(k, k + 1) for k in range(n)]
            plans += [(k, 10 ** 9) for k in (range(n - 1) if ctx.tier == "thorough" or n <= 4 else {0, n // 3, n // 2, n - 2})]
            for at, upto in plans:
                ctx.transitions += 1
                ctx.step(c.label, at, upto)
                a, exc, r, _, failed = once(p, c, at, upto)
                if not failed:
                    continue
                ctx.states += 1
                if exc is None and not good(want, exc, r):
                    ctx.fail("an allocation fails and the call returns something else than its result", call=c.label, failing=(at, upto), got=r)
                elif exc is not None:
                    ctx.extra["raised"] += 1
                if not all(map(same_data, a, c.data)):
                    ctx.fail("an allocation fails and the arguments are changed", call=c.label, failing=(at, upto))
                del a, r
                a, exc, r, m, _ = once(p, c, -1, -1)
                ctx.traces += 1
                if not good(want, exc, r):
                    ctx.fail("after a failed allocation the same call gives another result", call=c.label, failing=(at, upto), got=exc or r)
                del a, r

            def all_plans():
                for at, upto in plans:
                    once(p, c, at, upto)
            leak(ctx, c, all_plans, len(plans))
        ctx.require(repr(state(p.env)) == before, "failed allocations change shared wavelets", calls=[c.label for c in CALLS[case[0]:case[1]]])


def leak(ctx, c, f, n):
    f()
    for reps in (1, 4, 20, 100, 400, 1500):
        gc.collect()
        m = [memhook.allocated()]
        for _ in range(2):
            for _ in range(reps):
                f()
            gc.collect()
            m.append(memhook.allocated())
        ctx.traces += 1
        if not (m[1] - m[0] >= 8 * reps and m[2] - m[1] >= 8 * reps):
            return
    ctx.fail("calls in which an allocation fails leave memory behind", call=c.label, bytes=m, rounds=reps)
