"""C01: concurrent calls from several caller threads do not influence one another."""
import copy
import pickle
import sys
from .. import bodies, bthreads, core, sched, sites, world, calls as C, values as V
from .common import Base, shrink_list, simpler_specs, spell

EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "RuntimeError": RuntimeError}


class Check(Base):
    ID = "C01"
    RULE = ("a run is 2-4 caller threads with 1-3 calls each (mostly the same routine with equal or nearly equal arguments, some arguments shared), "
            "interleaved at source-line or bytecode granularity by a seeded strategy (random, PCT, round robin), a quarter of the runs with injected "
            "interrupts; one run in fourteen has threads that build, move, combine and save bodies of their own; non-trivial: at least one pre-emption inside a call; distinct: (calls, switch list) not seen before")
    STATES = "distinct pairs of (work mix, complete switch list) with at least one pre-emption"
    ASSUME = Base.ASSUME + ["C extensions (numpy, scipy) run atomically with respect to other caller threads, as under the interpreter lock"]

    def budget(self, tier):
        return (3600, 110) if tier == "quick" else (80000, 800)

    EXTRA = bodies.EXTRA

    def gen(self, seed, i, tier):
        r = V.Rng(seed, self.ID, i)
        if i % 14 == 9:
            return bthreads.gen(r, self.schedule(r))
        nt = r.weighted([(2, 6), (3, 3), (4, 1)])
        table = dict(C.T)
        table.update(C.FILES)
        names = [C.choose(r, None, table) for _ in range(r.pick([1, 1, 2, 3]))]
        names = sites.prefer(r, table, names)
        slow = sites.slow_table(r, C.SLOW, .015, C.LONG)
        if slow:
            names = [r.pick(sorted(slow))]
            nt = 2
        focus = r.chance(.75) or slow
        lmax = r.pick([3, 4, 5])
        base = {n: C.make(r, n, lmax) for n in names}
        if slow and not names[0].endswith("outer_cone"):
            base[names[0]]["L"] = base[names[0]]["a"][0] = r.pick([0, 1, 1])
        shared, threads = [], []
        for t in range(nt):
            cs = []
            for _ in range(1 if slow else r.weighted([(1, 5), (2, 3), (3, 1)])):
                n = r.pick(names)
                if focus:
                    c = C.sibling(r, base[n]) if r.chance(.8) else copy.deepcopy(base[n])
                    if slow:
                        c["L"] = c["a"][0] = base[n]["L"]
                    if r.chance(.3) and not slow:
                        c = C.sibling(r, c)
                else:
                    c = C.make(r, C.choose(r, None, table), lmax)
                cs.append(c)
                if r.chance(.25) and not slow:                     # and the same again
                    cs.append(copy.deepcopy(r.pick(cs)))
            threads.append({"calls": cs})
        if r.chance(.3):       # the same array object handed to several threads (reading it concurrently is legitimate)
            for th in threads:
                for c in th["calls"]:
                    for k, s in enumerate(c["a"]):
                        if isinstance(s, list) and s[0] in ("qlm", "pts", "ds", "tm") and r.chance(.6):
                            if s not in shared:
                                shared.append(s)
                            c["a"][k] = ["sh", shared.index(s)]
        if r.chance(.25):
            th = r.pick(threads)
            th["abort"] = {"call": r.randrange(len(th["calls"])), "at": int(2 ** r.uniform(0, 10)), "exc": r.pick(sorted(EXC))}
        s = self.schedule(r)
        # CPython 3.12 can crash when a line event raises in a frame whose every instruction is traced, so never both
        op = (not slow) and not any(t.get("abort") for t in threads) and r.chance(.3)
        return {"threads": threads, "shared": shared, "sched": s, "opcodes": op, "light": bool(slow)}

    @staticmethod
    def schedule(r):
        mode = r.weighted([("random", 6), ("pct", 4), ("rr", 1)])
        s = {"mode": mode, "seed": r.randrange(1 << 30)}
        if mode == "random":
            s["p"] = r.pick([.5, .2, .08, .03, .01])
            if sites.routines() and r.chance(.5):       # mostly where state shared by several calls is touched, if there is any
                s["p"], s["hot"] = r.pick([.02, .005]), r.pick([.7, .4, .2])
        elif mode == "pct":
            s["d"], s["k"] = r.pick([1, 2, 3, 5]), r.pick([100, 400, 1500, 4000])
        else:
            s["q"] = r.pick([1, 2, 3, 7])
        return s

    def run(self, trace):
        if trace.get("bodies"):
            return bthreads.run(trace)

        def go():
            world.fresh_process()
            shared = [V.decode(s) for s in trace["shared"]]
            sh_frozen = V.freeze(shared)
            recs = []
            fns = []
            for ti, th in enumerate(trace["threads"]):
                jobs = []
                for c in th["calls"]:
                    args = [shared[s[1]] if isinstance(s, list) and s[0] == "sh" else V.decode(s) for s in c["a"]]
                    jobs.append((c, args, V.freeze(args), pickle.dumps(args, protocol=4)))
                rec = []
                recs.append(rec)
                fns.append(self._thread(jobs, rec, th.get("abort")))
            s = sched.Sched(trace["sched"], V.Rng("sched", trace["sched"].get("seed", 0)), fns, opcodes=trace["opcodes"], max_steps=3_000_000, light=trace.get("light"))
            # an aborted call is C03's business: here the settings after threads that all came to their end
            before = None if any(t.get("abort") for t in trace["threads"]) else world.settings(rng=False)
            end = s.run()
            left = world.settings_diff(before, world.settings(rng=False)) if before and not end else []
            fails = [t.failure for t in s.th if t.failure is not None]
            if fails:
                raise fails[0]
            out = []
            for rec in recs:
                o = []
                for d in rec:
                    if d["o"] is not None and d["o"][0] == "ret" and V.freeze(d["o"][1]) != d["at_return"]:
                        d["late"] = True
                    d["args_changed"] = V.freeze(d["args"]) != d["frozen"]
                    o.append({k: d[k] for k in ("copy", "aborted", "late", "args_changed", "argdata")})
                out.append(o)
            pre = sum(1 for st, _ in s.switches if st > 0)
            return {"end": end, "out": out, "switches": s.switches, "steps": s.step, "pre": pre, "handoffs": len(s.handoffs),
                    "sites": sorted({h[2:] for h in s.handoffs})[:400], "fired": s.fired, "shared_changed": V.freeze(shared) != sh_frozen, "left": left,
                    "sim": world.CLOCK.elapsed() + s.step * 1e-6,
                    "stuck": [t.tid for t in s.th if t.state != "done"]}
        st, r = core.isolate(go, 90)
        if st != "ok":
            raise core.HarnessError("run died: %r" % (r,))
        concrete = copy.deepcopy(trace)
        concrete["sched"] = {"mode": "list", "switches": r["switches"]}
        viol = None
        dig = [r["end"], r["switches"]]
        if r["end"]:
            viol = {"class": r["end"], "detail": "the run stopped with %s after %d steps; unfinished threads %s of %s" % (
                "every thread blocked for ever" if r["end"] == "SimDeadlock" else "no completion", r["steps"], r["stuck"],
                [[spell(c) for c in t["calls"]] for t in trace["threads"]])}
        if r["shared_changed"]:
            viol = viol or {"class": "argument-changed", "detail": "an array passed to several threads was modified"}
        if r["left"]:
            viol = viol or {"class": "settings-left", "detail": "after all threads ended, %s of the process differ from before: %s" % (
                ", ".join(r["left"]), [[spell(c) for c in t["calls"]] for t in trace["threads"]])}
        if viol is None:
            for ti, rec in enumerate(r["out"]):
                for ci, d in enumerate(rec):
                    c = trace["threads"][ti]["calls"][ci]
                    o = pickle.loads(d["copy"])
                    dig.append(V.digest(o))
                    who = "thread %d call %d %s" % (ti, ci, spell(c))
                    if d["late"]:
                        viol = viol or {"class": "result-changed", "detail": who + ": the array it returned changed afterwards"}
                    if d["args_changed"]:
                        viol = viol or {"class": "argument-changed", "detail": who + ": an argument was modified"}
                    if d["aborted"] or viol:
                        continue
                    a = pickle.loads(d["argdata"])
                    w = world.compare(o, world.baseline(c["f"], a), a)
                    if w:
                        viol = {"class": "interference", "detail": "%s: %s" % (who, w)}
        key = core.digest([trace["threads"], r["switches"]])
        return {"violation": viol, "digest": core.digest(dig), "concrete": concrete, "nontrivial": r["pre"] > 0, "states": [key] if r["pre"] else [],
                "sim_time": r["sim"], "stats": {"fault.preemption": r["pre"], "fault.abort": r["fired"], "steps": r["steps"],
                                               "probe.handoff_sites": r["handoffs"], "calls": sum(len(t["calls"]) for t in trace["threads"]),
                                               "probe.bytecode_granularity": int(trace["opcodes"]), "probe.numerical_integration": int(bool(trace.get("light"))), "probe.shared_argument": len(trace["shared"])}}

    def _thread(self, jobs, rec, ab):
        def body(t):
            s = sched.ACTIVE
            for ci, (c, args, frozen, data) in enumerate(jobs):
                d = {"o": None, "aborted": False, "late": False, "args": args, "frozen": frozen, "argdata": data, "copy": None, "at_return": None}
                rec.append(d)
                t.events, t.aborted, t.abort = 0, False, None
                if ab and ab["call"] == ci:
                    t.abort = (ab["at"], EXC[ab["exc"]])
                try:
                    o = world.outcome(C.fn(c["f"]), args)
                except KeyboardInterrupt:
                    o = ("exc", "KeyboardInterrupt")
                t.abort = None
                d["aborted"] = t.aborted
                sys.settrace(s.gtrace)
                d["o"] = o
                d["copy"] = pickle.dumps(o, protocol=4)
                d["at_return"] = V.freeze(o[1])
        return body

    def shrink(self, t):
        if t.get("bodies"):
            yield from bthreads.shrink(t)
            return
        n = len(t["threads"])
        sw = t["sched"].get("switches")
        if n > 2:
            for k in range(n):
                c = copy.deepcopy(t)
                del c["threads"][k]
                if sw is not None:
                    c["sched"]["switches"] = [[s, x if x < k else x - 1] for s, x in sw if x != k]
                yield c
        for k in range(n):
            for j in range(len(t["threads"][k]["calls"])):
                if len(t["threads"][k]["calls"]) > 1:
                    c = copy.deepcopy(t)
                    del c["threads"][k]["calls"][j]
                    c["threads"][k].pop("abort", None)
                    yield c
            if t["threads"][k].get("abort"):
                c = copy.deepcopy(t)
                c["threads"][k].pop("abort")
                yield c
        if sw and len(sw) > 1:
            for c in shrink_list({"x": sw}, "x", 1):
                d = copy.deepcopy(t)
                d["sched"]["switches"] = c["x"]
                yield d
        for k in range(n):
            for j, call in enumerate(t["threads"][k]["calls"]):
                for sc in simpler_specs(call):
                    c = copy.deepcopy(t)
                    c["threads"][k]["calls"][j] = sc
                    yield c
