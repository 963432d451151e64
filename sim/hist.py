"""Histories of calls in one simulated process: interpreter, exact value model, fault placement, comparison with a fresh process."""
import copy
import errno
import gc
import os
import pickle
import random
import sys
from . import core, disk, sched, sites, world, calls as C, values as V

EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "OSError": OSError, "RuntimeError": RuntimeError}


class Tracer:
    """Counts (and optionally aborts at) source lines or C calls inside the code under test."""
    def __init__(self, kind, at=None, exc=None):
        self.kind, self.at, self.exc, self.n, self.fired, self.where = kind, at, exc, 0, False, None
        self.first, self.lines, self.hot, self.left = [], set(), [], 0

    def _hit(self, frame):
        if frame.f_lineno in sched.fragile_lines(frame.f_code.co_filename):
            return
        self.n += 1
        if self.at is None:
            key = (frame.f_code.co_filename, frame.f_lineno)
            if key not in self.lines:
                self.lines.add(key)
                self.first.append(self.n)
            if self.kind == "line":                 # around lines that touch state shared between calls
                self.left = 3 if frame.f_lineno in sites.lines(frame) else self.left - 1
                if self.left > 0:
                    self.hot.append(self.n)
        if self.at is not None and self.n >= self.at and not self.fired:
            self.fired = True
            self.where = (frame.f_code.co_name, frame.f_lineno)
            raise self.exc("injected")

    def trace(self, frame, event, arg):
        if event == "call":
            return self.trace if sched.is_sut(frame.f_code.co_filename) else None
        if event == "line":
            self._hit(frame)
        return self.trace

    def profile(self, frame, event, arg):
        if event == "c_call" and sched.is_sut(frame.f_code.co_filename):
            self._hit(frame)

    def __enter__(self):
        (sys.settrace if self.kind == "line" else sys.setprofile)(self.trace if self.kind == "line" else self.profile)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        sys.setprofile(None)


def _call(f, args, tracer=None):
    try:
        if tracer is None:
            return ("ret", f(*args))
        with tracer:
            return ("ret", f(*args))
    except sched.SimDeadlock:
        return ("exc", "SimDeadlock")
    except (Exception, KeyboardInterrupt) as e:
        return ("exc", type(e).__name__)


class Run:
    """Executes ops inside the forked child."""
    def __init__(self, check_settings):
        self.env, self.model, self.flag = {}, {}, {}
        self.calls = []             # records for the comparison with a fresh process
        self.viol = None
        self.stats = core.Stats()
        self.log = []
        self.check_settings = check_settings

    def bad(self, cls, detail):
        if self.viol is None:
            self.viol = {"class": cls, "detail": detail}

    def put(self, slot, v):
        self.env[slot] = v
        self.model[slot] = V.freeze(v)
        self.flag[slot] = V.flags(v)

    def audit(self, k, op, what):
        for s, v in self.env.items():
            if V.freeze(v) != self.model[s]:
                self.bad("value-changed", "step %d (%s) changed the caller's value #%s" % (k, what, s))
                return
            if V.flags(v) != self.flag[s]:
                self.bad("value-changed", "step %d (%s) changed shape or flags of the caller's value #%s" % (k, what, s))
                return

    def args(self, call):
        out = []
        for s in call["a"]:
            if isinstance(s, list) and s and s[0] == "ref":
                if s[1] not in self.env:
                    return None
                out.append(self.env[s[1]])
            else:
                out.append(V.decode(s))
        return out

    def step(self, k, op):
        t = op[0]
        st = self.stats
        if t == "new":
            self.put(op[1], V.decode(op[2]))
            what = "new value"
        elif t == "edit":
            if op[1] in self.env:
                if V.scribble(self.env[op[1]], op[2]):
                    st.add("probe.caller_edits")
                self.model[op[1]] = V.freeze(self.env[op[1]])
                self.flag[op[1]] = V.flags(self.env[op[1]])
            what = "the caller editing its value #%s" % op[1]
        elif t == "drop":
            self.env.pop(op[1], None)
            self.model.pop(op[1], None)
            if op[2:] and op[2]:
                gc.collect()
            st.add("probe.values_freed")
            return
        elif t == "seed":
            import numpy as np
            np.random.seed(op[1])
            random.seed(op[1])
            st.add("fault.rng_reseed")
            return
        elif t == "clock":
            world.CLOCK.advance(op[1])
            st.add("fault.clock_jump")
            return
        elif t == "chdir":
            os.chdir(world._fixdir(op[1]))
            st.add("fault.chdir")
            return
        elif t in ("call", "abort", "stdout", "many", "disk"):
            self.do_call(k, op)
            return
        else:
            raise core.HarnessError("op %r" % (op,))
        self.audit(k, op, what)

    def do_call(self, k, op):
        t, slot, call = op[0], op[1], op[2]
        args = self.args(call)
        if args is None:
            self.log.append([k, "skipped"])
            return
        f = C.fn(call["f"])
        data = pickle.dumps(args, protocol=4)
        fro, flg = V.freeze(args), V.flags(args)
        rand = call["f"] in C.RAND
        before = world.settings() if self.check_settings else None
        fired = None
        if t == "call":
            if rand:
                import numpy as np
                np.random.seed(0)
                before = world.settings() if self.check_settings else None
            o = _call(f, args)
        elif t == "disk":
            L, (what, nth, last, err) = world.LIB, op[3]
            L.sim_fs_begin((world.FIX + "/").encode())
            i = L.sim_fs_rule({"open": disk.OPEN, "read": disk.READ}[what], b"/", nth, last, disk.ERRNO, getattr(errno, err), b"")
            o = _call(f, args)
            fired = L.sim_fs_fired(i) > 0
            L.sim_fs_end()
            if fired:
                self.stats.add("fault.errno_%s_%s" % (what, err))
        elif t == "abort":
            kind, frac, exc = op[3], op[4], op[5]
            def dry():
                tr = Tracer(kind)
                sys.stdout = world.Sink()
                _call(f, args, tr)
                if op[6:] and op[6] == "new":            # where a line runs for the first time: state is filled in there
                    return tr.first
                if op[6:] and op[6] == "hot" and tr.hot:
                    return tr.hot
                return list(range(1, tr.n + 1))
            ok, n = core.isolate(dry, 60)
            if ok != "ok":
                raise core.HarnessError("dry run died")
            tr = Tracer(kind, n[int(frac * len(n))] if n else None, EXC[exc])
            n = len(n)
            o = _call(f, args, tr)
            fired = tr.fired
            self.stats.add("fault.%s_at_%s" % (exc, kind), int(fired))
            self.log.append([k, "abort", n, tr.where])
        else:
            old = sys.stdout
            exc = {"full": OSError(errno.ENOSPC, "full"), "pipe": BrokenPipeError(errno.EPIPE, "gone"), "closed": ValueError("closed file")}[op[4]]
            sys.stdout = sink = world.Sink(op[3], exc)
            if self.check_settings:
                before = world.settings()
            o = _call(f, args)
            if self.check_settings and sys.stdout is not sink:
                self.bad("settings-changed", "step %d %s replaced standard output" % (k, call["f"]))
            fired = sink.fired > 0
            self.stats.add("fault.stdout_" + op[4], int(fired))
            if self.check_settings:
                self._settings(k, call, before, fired, rand)
                before = None
            sys.stdout = old
        name = "step %d %s" % (k, spell(call))
        if V.freeze(args) != fro or V.flags(args) != flg:
            self.bad("argument-changed", name + " modified an argument" + (" when it was cut short" if fired else ""))
        if before is not None:
            self._settings(k, call, before, fired, rand)
        self.audit(k, op, spell(call))
        if fired and o[0] == "ret":
            self.log.append([k, "absorbed"])
        if not fired:
            blob = pickle.dumps(o, protocol=4)
            self.calls.append((k, call, data, blob))
            self.log.append([k, V.digest(o)])
            if o[0] == "ret":
                if not self.check_settings and not V.writeable(o[1]):
                    self.bad("result-locked", name + " returned an array its caller may not edit")
                if slot is not None:
                    self.put(slot, o[1])
        self.stats.add("calls")

    def _settings(self, k, call, before, fired, rand):
        diff = world.settings_diff(before, world.settings())
        if rand:
            diff = [d for d in diff if d != "np.random"]
        if diff:
            self.bad("settings-changed", "step %d %s%s changed process-wide settings: %s" % (k, spell(call), " (cut short)" if fired else "", ", ".join(diff)))


def spell(call):
    from .checks.common import spell as s
    return s(call)


def execute(trace, check_settings, timeout=90):
    """Run the history in one simulated process, then judge every completed call against a fresh process."""
    def go():
        world.fresh_process(stall=True)
        r = Run(check_settings)
        for k, op in enumerate(trace["ops"]):
            r.step(k, op)
            if r.viol:
                break
        return {"viol": r.viol, "calls": r.calls, "stats": dict(r.stats), "log": r.log, "sim": world.CLOCK.elapsed()}
    st, r = core.isolate(go, timeout)
    if st != "ok":
        raise core.HarnessError("run died: %r" % (r,))
    viol = r["viol"]
    compared = 0
    if viol is None:
        for k, call, data, blob in r["calls"]:
            if trace.get("judge") is not None and k not in trace["judge"]:
                continue
            args = pickle.loads(data)
            got = pickle.loads(blob)
            want = world.baseline(call["f"], pickle.loads(data))
            compared += 1
            w = world.compare(got, want, args)
            if w:
                viol = {"class": "history-dependent", "detail": "step %d %s: %s" % (k, spell(call), w)}
                break
    r["stats"]["compared_with_fresh_process"] = compared
    return {"violation": viol, "digest": core.digest([r["log"], viol]), "stats": r["stats"], "sim_time": r["sim"] + 1e-3 * len(trace["ops"]), "log": r["log"]}


def shrink(trace):
    from .checks.common import shrink_list, simpler_specs
    if trace.get("judge") is not None:
        trace = {k: v for k, v in trace.items() if k != "judge"}
        yield trace
    yield from shrink_list(trace, "ops", 1)
    for i, op in enumerate(trace["ops"]):
        if op[0] in ("call", "abort", "stdout", "disk"):
            for c in simpler_specs(op[2]):
                t = copy.deepcopy(trace)
                t["ops"][i][2] = c
                yield t
