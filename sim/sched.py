"""Deterministic scheduler for caller threads.

Every simulated thread is a real thread, but exactly one owns the token; the others are parked on private locks.  The
running thread reaches a scheduling point at every source line (or every bytecode) of the code under test, at every
lock operation and at every sleep; there a seeded strategy decides who runs next.  The recorded decisions replay the run.
"""
import ast
import functools
import os
import sys
import threading
import _thread
import time
import types
from . import core, sites

_alloc = _thread.allocate_lock
NEWT = os.path.join(os.path.realpath(core.REPO), "newt") + os.sep
ACTIVE = None                       # the running scheduler, if any
CLOCK = None                        # set by the harness: object with now()/advance()


class SimDeadlock(BaseException):
    pass


class StepBudget(BaseException):
    pass


class RunOver(BaseException):
    """Unwinds threads that are still parked when a run has to end."""


@functools.lru_cache(None)
def is_sut(filename):
    f = os.path.realpath(filename)
    return f.startswith(NEWT) and (os.sep + "tests" + os.sep) not in f


@functools.lru_cache(None)
def fragile_lines(filename):
    """Lines where an asynchronous exception would hit clean-up machinery itself (with-headers, try-headers, handlers,
    finally bodies, and a line directly before a try): no code can protect those, so aborts are never placed there."""
    bad = set()
    try:
        tree = ast.parse(open(filename).read())
    except Exception:
        return frozenset()
    for n in ast.walk(tree):
        if isinstance(n, (ast.With, ast.AsyncWith)):
            bad.update(range(n.lineno, n.body[0].lineno))
            bad.add(n.lineno)
        if isinstance(n, ast.Try):
            bad.add(n.lineno)
            bad.update(range(n.lineno, n.body[0].lineno))
            for h in n.handlers:
                bad.update(range(h.lineno, h.end_lineno + 1))
            if n.finalbody:
                bad.update(range(n.finalbody[0].lineno, n.finalbody[-1].end_lineno + 1))
                bad.update(range(n.body[-1].end_lineno + 1, n.finalbody[0].lineno))
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list):
                for x, y in zip(b, b[1:]):
                    if isinstance(y, ast.Try):
                        bad.update(range(x.end_lineno, x.end_lineno + 1))
    return frozenset(bad)


class Th:
    def __init__(self, tid, fn):
        self.tid, self.fn, self.state, self.wait, self.until = tid, fn, "ready", None, None
        self.gate = _alloc()
        self.gate.acquire()
        self.killed = False
        self.ident = None
        self.events = 0           # scheduling points inside the current call
        self.abort = None         # (event number, exception class)
        self.aborted = False
        self.failure = None
        self.hot = False          # the latest line touches state shared by several calls (sites.py)


class Strategy:
    """Who runs next.  spec: {"mode": "random", "p":..} | {"mode": "pct", "d":.., "k":..} | {"mode":"rr","q":..} |
    {"mode": "list", "switches": [[step, tid]...]}"""
    def __init__(self, spec, rng, n):
        self.spec, self.rng, self.mode = spec, rng, spec["mode"]
        if self.mode == "list":
            self.at = {s: t for s, t in spec["switches"]}
        if self.mode == "pct":
            self.prio = list(range(n))
            rng.shuffle(self.prio)
            self.changes = sorted(rng.randrange(1, max(2, spec["k"])) for _ in range(spec["d"]))
            self.low = -1

    def next(self, step, cur, ready, hot=False):
        """ready: sorted ids; cur is in ready iff it may go on."""
        if self.mode == "list":
            t = self.at.get(step)
            if t is not None and t in ready:
                return t
            return cur if cur in ready else ready[0]
        if self.mode == "random":
            if cur in ready and not self.rng.chance(self.spec["hot"] if hot and "hot" in self.spec else self.spec["p"]):
                return cur
            return self.rng.pick(ready)
        if self.mode == "rr":
            if cur in ready and step % self.spec["q"]:
                return cur
            later = [t for t in ready if t > cur]
            return later[0] if later else ready[0]
        while self.changes and step >= self.changes[0]:
            self.changes.pop(0)
            if cur < len(self.prio):
                self.prio[cur] = self.low
                self.low -= 1
        while len(self.prio) <= max(ready):
            self.prio.append(self.rng.randrange(len(self.prio) + 1))
        return max(ready, key=lambda t: (self.prio[t], -t))


class Sched:
    def __init__(self, spec, rng, fns, max_steps=400000, opcodes=False, light=False):
        self.th = [Th(i, f) for i, f in enumerate(fns)]
        self.strategy = Strategy(spec, rng, len(fns))
        self.step, self.max_steps, self.opcodes = 0, max_steps, opcodes
        self.light = {} if light else None
        self.cur = None
        self.switches = []
        self.over = _alloc()
        self.over.acquire()
        self.end = None            # why the run ended abnormally
        self.handoffs = set()      # (thread, code, line) -> (thread) pairs seen at switches
        self.fired = 0

    # -- life of a run --
    def run(self):
        global ACTIVE
        ACTIVE = self
        for t in self.th:
            self._launch(t)
        first = self.strategy.next(0, -1, [t.tid for t in self.th])
        self.switches.append([0, first])
        self.cur = self.th[first]
        self.cur.gate.release()
        self.over.acquire()
        ACTIVE = None
        return self.end

    def _launch(self, t):
        _thread.start_new_thread(self._body, (t,))

    def spawn(self, fn):
        t = Th(len(self.th), fn)
        self.th.append(t)
        self._launch(t)
        return t

    def _body(self, t):
        t.gate.acquire()
        t.ident = _thread.get_ident()
        try:
            if not t.killed:
                sys.settrace(self.gtrace)
                t.fn(t)
        except RunOver:
            pass
        except (SimDeadlock, StepBudget) as e:
            self._finish(type(e).__name__)
        except BaseException as e:          # the harness body leaked
            t.failure = e
        sys.settrace(None)
        t.state = "done"
        if self.end is None:
            self._leave(t)
        else:
            self._finish(None)

    def _leave(self, t):
        for o in self.th:
            if o.state == "blocked" and o.wait == ("join", t.tid):
                o.state, o.wait = "ready", None
        nxt = self._pick(t)
        if nxt is None:
            if all(o.state == "done" for o in self.th):
                self._finish(None)
            else:
                self._finish("SimDeadlock")
            return
        self.cur = nxt
        nxt.gate.release()

    def _finish(self, why):
        if self.end is None and why:
            self.end = why
        # everything the run needed is recorded; remaining parked threads die with the forked process
        if self.over.locked():
            self.over.release()

    # -- decisions --
    def _ready(self):
        return [t.tid for t in self.th if t.state == "ready"]

    def _pick(self, cur, hot=False):
        ready = self._ready()
        if not ready:
            timed = [t for t in self.th if t.state == "blocked" and t.until is not None]
            if not timed:
                return None
            t = min(timed, key=lambda x: (x.until, x.tid))
            if CLOCK:
                CLOCK.advance_to(t.until)
            t.state, t.wait, t.until = "ready", ("timeout",), None
            ready = [t.tid]
        tid = self.strategy.next(self.step, cur.tid, ready, hot)
        if tid != cur.tid:
            self.switches.append([self.step, tid])
        return self.th[tid]

    def me(self):
        t = self.cur
        return t if t is not None and t.ident == _thread.get_ident() else None

    def point(self, t, where=None, hot=False):
        self.step += 1
        if self.step > self.max_steps:
            self.end = "StepBudget"
            raise StepBudget()
        nxt = self._pick(t, hot)
        if nxt is not t:
            if where is not None:
                self.handoffs.add((t.tid, nxt.tid) + where)
            self._handover(t, nxt)

    def _handover(self, t, nxt):
        self.cur = nxt
        nxt.gate.release()
        t.gate.acquire()
        if t.killed:
            raise RunOver()

    def block(self, t, wait, until=None):
        """Park t until someone makes it ready again (or its simulated deadline passes)."""
        t.state, t.wait, t.until = "blocked", wait, until
        self.step += 1
        nxt = self._pick(t)
        if nxt is None:
            self.end = "SimDeadlock"
            raise SimDeadlock()
        if nxt is not t:
            self._handover(t, nxt)

    def wake(self, wait):
        for o in self.th:
            if o.state == "blocked" and o.wait == wait:
                o.state, o.wait, o.until = "ready", None, None

    # -- tracing --
    def gtrace(self, frame, event, arg):
        if event != "call" or not is_sut(frame.f_code.co_filename):
            return None
        if self.light is not None:            # an integrand is a switch point in its first calls and in one of 50 later ones
            n = self.light[id(frame.f_code)] = self.light.get(id(frame.f_code), 0) + 1
            if n > 40 and n % 50:
                return None
        if self.opcodes:
            frame.f_trace_opcodes = True
        return self.ltrace

    def ltrace(self, frame, event, arg):
        if event == "line" or event == "opcode":
            t = self.me()
            if t is None:
                return self.ltrace
            if event == "line":
                t.events += 1
                if t.abort is not None and t.events >= t.abort[0] and not t.aborted:
                    if frame.f_lineno not in fragile_lines(frame.f_code.co_filename):
                        t.aborted = True
                        self.fired += 1
                        raise t.abort[1]("injected")
            if event == "line" and self.opcodes:
                t.hot = frame.f_lineno in sites.lines(frame)
                return self.ltrace
            hot = t.hot
            if event == "line":
                t.hot = frame.f_lineno in sites.lines(frame)
                hot = hot or t.hot
            self.point(t, (frame.f_code.co_name, frame.f_lineno), hot)
        return self.ltrace


# ---------------------------------------------------------------- primitives handed to the code under test
_uid = [0]


DEFER = None        # a list: threads started outside a scheduler wait in it until somebody needs them (stalled threads)
deferred = [0]


def run_deferred(only=None):
    """Let stalled threads go on; True when any did."""
    did = False
    while DEFER and (only is None or only in DEFER):
        th = DEFER.pop(0) if only is None else DEFER.pop(DEFER.index(only))
        did = True
        try:
            th.run()
        finally:
            th._sim_done = True
    return did


class SimLock:
    def __init__(self):
        _uid[0] += 1
        self.id = ("lock", _uid[0])
        self.owner = None

    def _sched(self):
        s = ACTIVE
        return (s, s.me()) if s is not None else (None, None)

    def acquire(self, blocking=True, timeout=-1):
        s, t = self._sched()
        if t is not None:
            s.point(t)
        until = None
        while self.owner is not None:
            if not blocking:
                return False
            if t is None:
                if timeout is not None and timeout >= 0:
                    if CLOCK:
                        CLOCK.advance(timeout)
                    return False
                if run_deferred():
                    continue
                raise SimDeadlock("lock is never released")
            if timeout is not None and timeout >= 0:
                if until is None:
                    until = (CLOCK.now() if CLOCK else 0) + timeout
                s.block(t, self.id, until)
                if t.wait == ("timeout",):
                    t.wait = None
                    return False
            else:
                s.block(t, self.id)
        self.owner = _thread.get_ident()
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.owner = None
        s, t = self._sched()
        if s is not None:
            s.wake(self.id)
        if t is not None:
            s.point(t)

    def locked(self):
        return self.owner is not None

    acquire_lock, release_lock, locked_lock = acquire, release, locked

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self.owner = None


class SimRLock(SimLock):
    def __init__(self):
        super().__init__()
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        if self.owner == _thread.get_ident():
            self.count += 1
            return True
        if super().acquire(blocking, timeout):
            self.count = 1
            return True
        return False

    def release(self):
        if self.owner != _thread.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self.count -= 1
        if self.count == 0:
            super().release()

    def _is_owned(self):
        return self.owner == _thread.get_ident()

    def _release_save(self):
        c = self.count
        self.count = 0
        SimLock.release(self)
        return c

    def _acquire_restore(self, c):
        SimLock.acquire(self)
        self.count = c

    def _recursion_count(self):
        return self.count if self._is_owned() else 0


def _th_start(self):
    s = ACTIVE
    if s is None or s.me() is None:
        # no scheduler: run it to completion at once (one legal schedule)
        self._sim_done = False
        if DEFER is not None:
            deferred[0] += 1
            DEFER.append(self)
            return
        try:
            self.run()
        finally:
            self._sim_done = True
        return
    def body(t):
        try:
            self.run()
        finally:
            self._sim_done = True
    self._sim_done = False
    self._sim_t = s.spawn(body)
    s.point(s.me())


def _th_join(self, timeout=None):
    s = ACTIVE
    t = getattr(self, "_sim_t", None)
    if s is None or t is None or s.me() is None:
        if DEFER and self in DEFER:
            if timeout is None:
                run_deferred(self)
            elif CLOCK:
                CLOCK.advance(max(0, timeout))
        return
    while t.state != "done":
        s.block(s.me(), ("join", t.tid), None if timeout is None else (CLOCK.now() if CLOCK else 0) + timeout)
        if s.me().wait == ("timeout",):
            s.me().wait = None
            return


def _th_alive(self):
    return getattr(self, "_sim_done", None) is False


def _sleep(sec):
    s = ACTIVE
    t = s.me() if s is not None else None
    if t is None:
        if CLOCK:
            CLOCK.advance(sec)
        return
    s.block(t, ("sleep",), (CLOCK.now() if CLOCK else 0) + max(0, sec))
    t.wait = None


def install():
    """Replace the blocking primitives before the code under test is imported."""
    import queue
    import concurrent.futures.thread  # noqa: so that its own start-up registration is done with real locks
    threading.Lock = SimLock
    threading._allocate_lock = SimLock
    threading.RLock = SimRLock
    _thread.allocate_lock = SimLock
    _thread.RLock = SimRLock
    threading.Thread.start = _th_start
    threading.Thread.join = _th_join
    threading.Thread.is_alive = _th_alive
    queue.SimpleQueue = queue._PySimpleQueue
    time.sleep = _sleep
