"""Several threads, each building and changing its own bodies (part of C01): every thread ends with the bodies it gets alone."""
import copy
import hashlib
import os
import shutil
import sys
import tempfile
from . import bodies, core, sched, world, values as V


def thread_ops(r):
    ops = [o for o in bodies.gen(r, "plain")["ops"] if o[0] != "bad"]
    if any(o[0] == "new" and o[2] in bodies.SLOW for o in ops):
        return [["new", "a", "RectPrism", 2, True, 2.0, [1.0, 2.0, 1.5, 0.3]], ["rot", "a", .3, .4, .5]]
    return ops[:r.randrange(2, 6)]


def gen(r, schedule):
    n = r.weighted([(2, 5), (3, 1)])
    first = thread_ops(r)
    threads = [first]
    for _ in range(n - 1):
        ops = copy.deepcopy(first) if r.chance(.6) else thread_ops(r)
        for o in ops:                               # the same work with other numbers
            if o[0] == "rot" and r.chance(.6):
                o[r.randrange(2, 5)] += r.pick([.001, .5, -1.])
            if o[0] == "move" and r.chance(.6):
                o[2][r.randrange(3)] += r.pick([.001, .5])
            if o[0] == "new" and r.chance(.3):
                o[3] = max(1, o[3] + r.pick([-1, 1]))
        threads.append(ops)
    for ops in threads:
        if r.chance(.3):
            ops.append(["save", r.pick([o[1] for o in ops])])
    return {"bodies": threads, "shared_dir": r.chance(.7), "sched": schedule, "opcodes": False}


def legal(B, M, op):
    s = op[1]
    if op[0] == "new":
        return True
    if s not in B or op[0] == "add" and any(x not in B or M[x].inner != M[s].inner for x in op[2]):
        return False
    return op[0] != "move" or M[s].inner and (op[3] or any(op[2])) or not M[s].inner and not op[3]


def work(ops, folder, tag, out):
    """One thread's operations.  out: bodies, outcome of each operation."""
    B, M = out["B"], {}
    for op in ops:
        if not legal(B, M, op):
            continue
        args = bodies.make_args(op, B, folder)
        if op[0] == "save":
            args = folder + "/" + tag + op[1]
        try:
            bodies.perform(B, op, args)
            out["done"].append("ok")
        except Exception as e:
            out["done"].append(type(e).__name__)
            return
        bodies.apply_model(M, op)


def result(out, folder, tag):
    files = {}
    for f in sorted(os.listdir(folder)):
        if f.startswith(tag):
            with open(folder + "/" + f, "rb") as h:
                files[f[len(tag):]] = hashlib.sha1(h.read()).hexdigest()
    return {"done": out["done"], "files": files, "bodies": {x: {"s": bodies.snap(b), "q": b.qlm, "c": b.com} for x, b in sorted(out["B"].items())}}


def differ(a, b):
    if a["done"] != b["done"]:
        return "operations ended with %s, alone with %s" % (a["done"], b["done"])
    if sorted(a["bodies"]) != sorted(b["bodies"]):
        return "other bodies"
    for x in sorted(a["bodies"]):
        d = bodies.differ(b["bodies"][x]["s"], a["bodies"][x]["s"])
        if d == ["qlm"] or d == ["com"] or d == ["com", "qlm"]:
            w = V.same(a["bodies"][x]["q"], b["bodies"][x]["q"]) or V.same(a["bodies"][x]["c"], b["bodies"][x]["c"])
            if not w:
                continue
        if d:
            return "%s of body %s differ from those it has alone" % (", ".join(d), x)
    if sorted(a["files"]) != sorted(b["files"]):
        return "saved files %s, alone %s" % (sorted(a["files"]), sorted(b["files"]))
    for f in a["files"]:
        if a["files"][f] != b["files"][f]:
            return "saved file %s differs from the one saved alone" % f
    return None


def alone(ops):
    def go():
        world.fresh_process()
        d = tempfile.mkdtemp(prefix="bt-", dir=world.FIX)
        try:
            out = {"B": {}, "done": []}
            work(ops, d, "t", out)
            return result(out, d, "t")
        finally:
            shutil.rmtree(d, ignore_errors=True)
    st, r = core.isolate(go, 60)
    if st != "ok":
        raise core.HarnessError("alone: %r" % (r,))
    return r


def run(trace):
    def go():
        world.fresh_process()
        d = tempfile.mkdtemp(prefix="bt-", dir=world.FIX)
        try:
            outs, fns, dirs, tags = [], [], [], []
            for k, ops in enumerate(trace["bodies"]):
                f = d if trace["shared_dir"] else d + "/%d" % k
                os.makedirs(f, exist_ok=True)
                out = {"B": {}, "done": []}
                outs.append(out)
                dirs.append(f)
                tags.append("t%d" % k)
                fns.append(lambda t, a=(ops, f, "t%d" % k, out): work(*a))
            s = sched.Sched(trace["sched"], V.Rng("sched", trace["sched"].get("seed", 0)), fns, max_steps=3_000_000)
            end = s.run()
            fails = [t.failure for t in s.th if t.failure is not None]
            if fails:
                raise fails[0]
            pre = sum(1 for st, _ in s.switches if st > 0)
            return {"end": end, "switches": s.switches, "pre": pre, "steps": s.step, "sim": s.step * 1e-6 + world.CLOCK.elapsed(), "handoffs": len(s.handoffs),
                    "out": None if end else [result(*x) for x in zip(outs, dirs, tags)]}
        finally:
            shutil.rmtree(d, ignore_errors=True)
    st, r = core.isolate(go, 120)
    if st != "ok":
        raise core.HarnessError("run died: %r" % (r,))
    concrete = copy.deepcopy(trace)
    concrete["sched"] = {"mode": "list", "switches": r["switches"]}
    viol = None
    if r["end"]:
        viol = {"class": r["end"], "detail": "threads working on their own bodies: the run stopped with %s after %d steps" % (r["end"], r["steps"])}
    else:
        for k, ops in enumerate(trace["bodies"]):
            w = differ(r["out"][k], alone(ops))
            if w:
                viol = {"class": "interference", "detail": "thread %d working on its own bodies (%s): %s" % (k, "; ".join(bodies.spell(o) for o in ops)[:400], w)}
                break
    return {"violation": viol, "digest": core.digest([r["end"], r["switches"], viol]), "concrete": concrete, "nontrivial": r["pre"] > 0,
            "states": [core.digest([trace["bodies"], r["switches"]])] if r["pre"] else [], "sim_time": r["sim"],
            "stats": {"fault.preemption": r["pre"], "steps": r["steps"], "probe.handoff_sites": r["handoffs"], "probe.body_threads": len(trace["bodies"]),
                      "calls": sum(len(o) for o in trace["bodies"])}}


def shrink(t):
    for k in range(len(t["bodies"])):
        if len(t["bodies"]) > 2:
            c = copy.deepcopy(t)
            del c["bodies"][k]
            sw = c["sched"].get("switches")
            if sw is not None:
                c["sched"]["switches"] = [[s, x if x < k else x - 1] for s, x in sw if x != k]
            yield c
        for j in range(len(t["bodies"][k])):
            if len(t["bodies"][k]) > 1:
                c = copy.deepcopy(t)
                del c["bodies"][k][j]
                yield c
    sw = t["sched"].get("switches")
    if sw and len(sw) > 1:
        from .checks.common import shrink_list
        for c in shrink_list({"x": sw}, "x", 1):
            d = copy.deepcopy(t)
            d["sched"]["switches"] = c["x"]
            yield d
