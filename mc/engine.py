"""Exhaustive case engine: runs every case of a check on the real code, in worker processes.

A check module provides
    ID, TITLE, BOUNDS, ASSUMPTIONS
    cases(tier, seed) -> iterable of JSON-able cases (the whole bounded space, in a fixed order)
    check(case, ctx)  -> explores one case, comparing the implementation with the reference model
A worker that dies (segfault, abort) or does not finish a case is itself a violation.
"""
import collections
import json
import mmap
import multiprocessing
import os
import signal
import struct
import sys
import time
import traceback

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = int(os.environ.get("MC_PROCS", "0")) or min(8, os.cpu_count() or 1)
SLOT = 1 << 14


class Violation(Exception):
    def __init__(self, msg, detail=None):
        super().__init__(msg)
        self.msg = msg
        self.detail = detail or {}


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        if x.size <= 64:
            return [str(x.dtype), list(x.shape), [repr(v) for v in x.ravel().tolist()]]
        return "array%s %s" % (x.shape, x.dtype)
    if isinstance(x, np.generic):
        return x.item() if x.dtype.kind != "c" else repr(x)
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


class Ctx:
    """Per-worker context: counters, comparison helpers, known-finding filter."""

    def __init__(self, prop, known, tier, seed, slot=None):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.known = known
        self.known_hits = collections.Counter()
        self.states = self.transitions = self.traces = 0
        self.extra = collections.Counter()
        self.outcomes = set()
        self.maxerr = 0.0
        self.case = None
        self.slot = slot
        self._step = None

    # -- progress mark, for attributing crashes and hangs
    def step(self, *what):
        self._step = what
        if self.slot is not None:
            b = repr(what).encode()[:2000]
            self.slot[24:24 + 4 + len(b)] = struct.pack("I", len(b)) + b
            self.slot[8:16] = struct.pack("d", time.time())

    def outcome(self, a):
        if len(self.outcomes) < 200000:
            try:
                self.outcomes.add(hash(a.tobytes() if a.size < 512 else a.ravel()[:512].tobytes()))
            except AttributeError:
                self.outcomes.add(hash(repr(a)))

    def fail(self, msg, **detail):
        rec = dict(msg=msg, case=jsonable(self.case), detail=jsonable(detail))
        for i, k in enumerate(self.known):
            if _matches(k["match"], rec):
                self.known_hits[i] += 1
                return
        raise Violation(msg, rec["detail"])

    def require(self, cond, msg, **detail):
        if not cond:
            self.fail(msg, **detail)

    def close(self, got, want, tol, msg, **detail):
        """got must have want's shape and agree within the absolute tolerance tol."""
        got = np.asarray(got)
        want = np.asarray(want)
        self.traces += 1
        if got.shape != want.shape:
            return self.fail(msg + ": shape", got=got.shape, want=want.shape, step=self._step, **detail)
        self.outcome(got)
        if got.size == 0:
            return
        d = np.abs(got - want)
        m = (d / tol).max()     # nan if anything is nan
        if m <= 1:
            if m > self.maxerr:
                self.maxerr = float(m)
            return
        bad = ~(d <= np.asarray(tol))
        same = (got == want) | ((got != got) & (want != want))   # infinities and nan in both
        bad &= ~same
        if not bad.any():
            return
        i = tuple(int(v) for v in np.argwhere(bad)[0])
        self.fail(msg, index=i, got=repr(got[i]), want=repr(want[i]), nbad=int(bad.sum()), tol=float(np.max(tol)),
                  step=self._step, **detail)

    def same(self, got, want, msg, **detail):
        """Exact equality of plain values."""
        self.traces += 1
        self.outcomes.add(hash(repr(got)))
        if got != want:
            self.fail(msg, got=got, want=want, step=self._step, **detail)


def _matches(m, rec):
    """m: nested dict of required values; strings starting with 'in:' mean substring."""
    if isinstance(m, dict):
        return isinstance(rec, dict) and all(k in rec and _matches(v, rec[k]) for k, v in m.items())
    if isinstance(m, str) and m.startswith("in:"):
        return m[3:] in str(rec)
    return m == rec


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop]


def _worker(wid, module, cases, counter, slots, conn, known, tier, seed, stop, chunk):
    os.environ["MC_WORKER"] = str(wid)
    slot = memoryview(slots)[wid * SLOT:(wid + 1) * SLOT]
    ctx = Ctx(module.ID, known, tier, seed, slot)
    nviol = 0
    ncases = 0
    if hasattr(module, "setup_worker"):
        module.setup_worker(ctx)
    while not stop.value:
        with counter.get_lock():
            i = counter.value
            counter.value = i + chunk
        if i >= len(cases):
            break
        for j in range(i, min(i + chunk, len(cases))):
            ctx.case = cases[j]
            slot[0:8] = struct.pack("q", j)
            ctx.step("start")
            try:
                module.check(cases[j], ctx)
            except Violation as v:
                nviol += 1
                conn.send(("viol", j, v.msg, v.detail))
            except Exception as e:
                nviol += 1
                conn.send(("viol", j, "exception: %s: %s" % (type(e).__name__, str(e)[:300]),
                           dict(step=jsonable(ctx._step), traceback=traceback.format_exc()[-3000:])))
            ncases += 1
            if stop.value or nviol >= 3:
                break
        if nviol >= 3:
            break
    slot[0:8] = struct.pack("q", -1)
    if hasattr(module, "finish_worker"):
        module.finish_worker(ctx)
    out = dict(states=ctx.states, transitions=ctx.transitions, traces=ctx.traces, extra=dict(ctx.extra),
               outcomes=len(ctx.outcomes), maxerr=ctx.maxerr, known={str(k): v for k, v in ctx.known_hits.items()},
               cases=ncases)
    conn.send(("done", out))
    conn.close()
    os._exit(0)


def run(module, cases, tier, seed, known, log=print):
    """Returns (totals, violations)."""
    mp = multiprocessing.get_context("fork")
    nproc = max(1, min(getattr(module, "PROCS", NPROC), NPROC, len(cases)))
    slots = mmap.mmap(-1, SLOT * nproc)
    counter, stop = mp.Value("q", 0), mp.Value("b", 0)
    chunk = max(1, min(getattr(module, "CHUNK", 1 << 30), len(cases) // (nproc * 16) or 1))
    timeout = getattr(module, "CASE_TIMEOUT", 300)
    procs = []
    for w in range(nproc):
        slots[w * SLOT:w * SLOT + 16] = struct.pack("qd", -1, time.time())
        r, s = mp.Pipe(False)
        p = mp.Process(target=_worker, args=(w, module, cases, counter, slots, s, known, tier, seed, stop, chunk))
        p.start()
        s.close()
        procs.append([p, r, w, False])
    viols, results = [], []
    t_viol = None
    while any(not q[3] for q in procs):
        multiprocessing.connection.wait([q[1] for q in procs if not q[3]] +
                                        [q[0].sentinel for q in procs if not q[3]], timeout=1)
        for q in procs:
            p, r, w, fin = q
            if fin:
                continue
            eof = False
            try:
                while r.poll():
                    m = r.recv()
                    if m[0] == "done":
                        results.append(m[1])
                        q[3] = True
                    else:
                        viols.append(dict(case=cases[m[1]], msg=m[2], detail=m[3]))
                        stop.value = 1
                        t_viol = t_viol or time.time()
            except (EOFError, OSError):
                eof = True
            if q[3]:
                continue
            idx, t0 = struct.unpack("qd", slots[w * SLOT:w * SLOT + 16])
            n = struct.unpack("I", slots[w * SLOT + 24:w * SLOT + 28])[0]
            step = slots[w * SLOT + 28:w * SLOT + 28 + n].decode(errors="replace")
            if not p.is_alive() and (eof or not r.poll()):
                q[3] = True
                stop.value = 1
                case = cases[idx] if 0 <= idx < len(cases) else None
                viols.append(dict(case=case, msg="worker process died with status %s" % p.exitcode,
                                  detail=dict(step=step)))
            elif idx >= 0 and time.time() - t0 > timeout:
                p.kill()
                q[3] = True
                stop.value = 1
                viols.append(dict(case=cases[idx], msg="no progress for %d s" % timeout, detail=dict(step=step)))
            elif t_viol and time.time() - t_viol > 60:
                p.kill()
                q[3] = True
    for p, *_ in procs:
        p.join(5)
    tot = dict(states=0, transitions=0, traces=0, outcomes=0, cases=0, maxerr=0.0)
    extra, kh = collections.Counter(), collections.Counter()
    for r in results:
        for k in ("states", "transitions", "traces", "outcomes", "cases"):
            tot[k] += r[k]
        tot["maxerr"] = max(tot["maxerr"], r["maxerr"])
        extra.update(r["extra"])
        kh.update({int(k): v for k, v in r["known"].items()})
    tot["extra"], tot["known"] = dict(extra), dict(kh)
    return tot, viols
