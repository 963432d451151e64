"""Histories of imports (C15): any part of the toolkit, in any order, from several threads, with imports that fail half-way and are repeated."""
import copy
import errno
import hashlib
import importlib
import os
import pickle
import signal
import sys
import types
from . import bodies, calls as C, core, disk, hist, sched, world, values as V

PARTS = world.MODS + ["genCAD", "shapes", "constants"]
FORMS = ["module", "as", "from"]
ERR = ["EIO", "EACCES", "EMFILE", "ENOMEM"]
TABLE = {**C.T, **C.FILES}
SHAPE_CALLS = [["RectPrism", 2.0, [1.0, 2.0, 1.5, 0.3]], ["Cylinder", 1.5, [1.0, .5]], ["Sphere", 1.0, [.7]]]


def load():
    import warnings
    world.lib()
    sched.CLOCK = world.CLOCK
    warnings.simplefilter("ignore")
    import numpy, numpy.random, numpy.fft, numpy.linalg, numpy.polynomial                      # noqa
    import scipy.special, scipy.linalg, scipy.integrate, scipy.optimize                         # noqa
    import matplotlib.pyplot, mpl_toolkits.mplot3d                                              # noqa
    import cadquery, stl                                                                        # noqa
    from OCP.OSD import OSD_ThreadPool
    OSD_ThreadPool.DefaultPool_s(1)
    sched.install()
    sys.path.insert(0, core.REPO)
    if any(m == "newt" or m.startswith("newt.") for m in sys.modules):
        raise core.HarnessError("the toolkit is imported already")


# ------------------------------------------------------------------ histories
def gen(r):
    ops = []
    n = r.randrange(2, 9)
    some = [r.pick(PARTS) for _ in range(r.pick([2, 4, 9]))]
    done = set()

    def one():
        x = r.random()
        if x < .12:
            return ["import", "", r.pick(["package", "star"])]
        return ["import", r.pick(some), r.pick(FORMS)]
    while len(ops) < n:
        x = r.random()
        if x < .35:
            o = one()
            ops.append(o)
            done.add(o[1])
        elif x < .65:
            o = one()
            if r.chance(.7):
                f = {"k": "line", "frac": r.random(), "exc": r.pick(["KeyboardInterrupt", "MemoryError", "RuntimeError"])}
            else:
                f = {"k": "disk", "part": r.pick([o[1] or "__init__", r.pick(PARTS), "__init__"]), "err": r.pick(ERR), "op": r.pick(["open", "open", "read"])}
            ops.append(["fail"] + o[1:] + [f])
            if r.chance(.6):
                ops.append(o)
                done.add(o[1])
        elif x < .8:
            th = [[one()[1:] for _ in range(r.pick([1, 2, 3]))] for _ in range(r.pick([2, 2, 3]))]
            if r.chance(.3):
                for t in th[1:]:
                    t[0] = list(th[0][0])
            # Python itself reports a deadlock when threads import parts while another still imports their package
            if r.chance(.4):
                for t in th:
                    t.insert(0, ["", "package"])
            else:
                ops.append(["import", "", "package"])
            mode = r.pick(["random", "random", "rr"])
            s = {"mode": mode, "seed": r.randrange(1 << 30)}
            s["p" if mode == "random" else "q"] = r.pick([.5, .1, .02]) if mode == "random" else r.pick([1, 2, 5])
            ops.append(["threads", th, s, [r.randrange(len(th)), int(2 ** r.uniform(0, 8)), r.pick(["KeyboardInterrupt", "MemoryError"])] if r.chance(.3) else None])
            done.update(f[0] for t in th for f in t)
        else:
            ops.append(call(r, sorted(done & set(PARTS)) or some))
    for _ in range(r.randrange(1, 4)):
        ops.append(call(r, sorted(done & set(PARTS)) or some))
    return {"ops": ops}


def call(r, parts):
    p = r.pick(parts)
    if p in ("shapes", "genCAD"):
        return ["body", copy.deepcopy(r.pick(SHAPE_CALLS)), r.randrange(4)]
    names = [n for n in TABLE if n.startswith(p + ".") and n not in C.HEAVY]
    if not names:
        p = r.pick(["rotations", "qlm", "glib"])
        names = [n for n in TABLE if n.startswith(p + ".") and n not in C.HEAVY]
    return ["call", C.make(r, r.pick(names), 3)]


# ------------------------------------------------------------------ one process
def do_import(part, form):
    if form == "package":
        exec("import newt", {})
        return ["newt"]
    if form == "star":
        exec("from newt import *", {})
        return ["newt"]
    m = "newt." + part                  # after a failed import of the package a part may be there without it
    if form == "module":
        importlib.import_module(m)
    elif form == "as":
        exec("import %s as part" % m, {})
    else:
        exec("from %s import *" % m, {})
    return [m]


def describe(v):
    if isinstance(v, types.ModuleType):
        return "module " + v.__name__
    if isinstance(v, types.FunctionType):
        return "function %s.%s" % (v.__module__, v.__qualname__)
    if isinstance(v, type):
        return "class %s.%s %s" % (v.__module__, v.__qualname__, sorted(k for k in vars(v) if not k.startswith("__")))
    if isinstance(v, (int, float, complex, str, bytes, bool, type(None))):
        return "%s %r" % (type(v).__name__, v)
    try:
        return "%s %s" % (type(v).__name__, V.digest(v))
    except Exception:
        return type(v).__name__


def names(mod):
    return {k: describe(v) for k, v in vars(sys.modules[mod]).items() if not k.startswith("_")}


_alone = {}


def alone(mod):
    """The public names of one part imported alone in a fresh process."""
    if mod not in _alone:
        def go():
            world.fresh_process()
            importlib.import_module(mod)
            return names(mod)
        st, val = core.isolate(go, 60)
        if st != "ok":
            raise core.HarnessError("importing %s alone killed the process" % mod)
        _alone[mod] = val
    return _alone[mod]


_calls = {}


def alone_call(op):
    key = pickle.dumps(op, protocol=4)
    if key not in _calls:
        def go():
            world.fresh_process()
            return make(op)
        st, val = core.isolate(go, 60)
        if st != "ok":
            raise core.HarnessError("%r alone killed the process" % (op,))
        _calls[key] = val
    return _calls[key]


def make(op):
    if op[0] == "call":
        return hist._call(C.fn(op[1]["f"]), C.decode_args(op[1]))

    def go():
        sh = importlib.import_module("newt.shapes")
        kind, mass, p = op[1]
        b = getattr(sh, kind)(2, mass, *p) if kind != "Sphere" else sh.Sphere(2, mass, *p)
        if op[2] & 1:
            b.translate([.5, 0, .25], True)
        if op[2] & 2:
            b.rotate(.1, .2, .3)
        return [b.qlm, b.com, b.mass]
    return hist._call(go, [])


def wrong(mod):
    """None, or how a module that was imported differs from the same module imported alone."""
    if mod not in sys.modules:
        return "%s was imported but is not there" % mod
    want, got = alone(mod), names(mod)
    lost = [k for k in sorted(want) if k not in got and not (mod == "newt" and want[k].startswith("module newt."))]
    if lost:
        return "%s lacks %s" % (mod, ", ".join(lost[:5]))
    for k in sorted(got):
        if k not in want:
            if mod == "newt" and got[k].startswith("module newt."):
                continue
            return "%s has %s, which it has not when imported alone" % (mod, k)
        if got[k] != want[k]:
            return "%s.%s is %s, but %s when imported alone" % (mod, k, got[k], want[k])
    return None


def history(trace):
    world.fresh_process()
    before = world.settings()
    st, log, states, viol = core.Stats(), [], [], None
    have, simsteps = [], 0

    def bad(cls, text):
        nonlocal viol
        if viol is None:
            viol = {"class": cls, "detail": text}

    def check_all(where):
        for m in have:
            w = wrong(m)
            if w:
                bad("incomplete-import", "%s: %s" % (where, w))
                return
    for k, op in enumerate(trace["ops"]):
        t = op[0]
        loaded = sorted(m for m in sys.modules if m.startswith("newt"))
        states.append(core.digest([loaded, op[:3]]))
        where = "step %d %s" % (k, spell(op))
        if t == "import":
            try:
                got = do_import(op[1], op[2])
            except Exception as e:
                bad("import-failed", "%s raised %s (%s)" % (where, type(e).__name__, str(e)[:200]))
                break
            have = sorted(set(have) | set(got))
            st.add("probe.imports")
        elif t == "fail":
            fired, o = fail(op, st)
            log.append([k, o, fired])
            if o == "ret":
                have = sorted(set(have) | {"newt." + op[1] if op[1] else "newt"})
            elif not fired:
                bad("import-failed", "%s raised %s although nothing failed" % (where, o))
        elif t == "threads":
            res, end, steps, pre, fired = threads(op, st)
            simsteps += steps
            st.add("fault.preemption", pre)
            log.append([k, res, end])
            if end:
                bad("blocked", "%s: the run stopped with %s" % (where, end))
                break
            for th, rs in zip(op[1], res):
                for f, o in zip(th, rs):
                    if o == "ret":
                        have = sorted(set(have) | {"newt." + f[0] if f[0] else "newt"})
                    elif not fired:
                        bad("import-failed", "%s: importing %s in a thread raised %s" % (where, f[0] or "newt", o))
            # parts that another thread's failed import took along are imported again
            for m in list(have):
                if m not in sys.modules and fired:
                    try:
                        importlib.import_module(m)
                    except Exception as e:
                        bad("import-failed", "%s: importing %s again raised %s (%s)" % (where, m, type(e).__name__, str(e)[:200]))
        else:
            o = make(op)
            st.add("probe.calls")
            want = alone_call(op)
            w = world.compare(o, want, C.decode_args(op[1]) if t == "call" else ())
            if w:
                bad("other-result", "%s after these imports: %s" % (where, w))
            log.append([k, V.digest(o)])
        if t == "fail":
            have = [m for m in have if m in sys.modules]
        check_all(where)
        if sys.stdout.n and t not in ("call", "body"):
            bad("printed", where + " printed something")
        if t in ("call", "body"):
            sys.stdout.n = 0
            continue
        d = world.settings_diff(before, world.settings())
        if d:
            bad("settings-changed", "%s changed process-wide settings: %s" % (where, ", ".join(d)))
        if viol:
            break
    return {"violation": viol, "digest": core.digest([log, viol]), "stats": dict(st), "states": states, "log": log,
            "nontrivial": any(x.startswith("fault.") for x in st), "sim_time": world.CLOCK.elapsed() + simsteps * 1e-6}


def fail(op, st):
    part, form, f = op[1], op[2], op[3]
    if f["k"] == "disk":
        L = world.LIB
        L.sim_fs_begin((core.REPO + "/newt/").encode())
        i = L.sim_fs_rule({"open": disk.OPEN, "read": disk.READ}[f["op"]], ("newt/%s.py" % f["part"]).encode(), 1, 1 << 30, disk.ERRNO, getattr(errno, f["err"]), b"")
        try:
            do_import(part, form)
            o = "ret"
        except Exception as e:
            o = type(e).__name__
        finally:
            fired = L.sim_fs_fired(i) > 0
            L.sim_fs_end()
        st.add("fault.source_%s_%s" % (f["op"], f["err"]), int(fired))
        return fired, o

    def dry():
        sys.stdout = world.Sink()
        with hist.Tracer("line") as tr:
            do_import(part, form)
        return tr.n
    ok, n = core.isolate(dry, 60)
    if ok != "ok":
        raise core.HarnessError("dry run died")
    tr = hist.Tracer("line", 1 + int(f["frac"] * n) if n else None, hist.EXC[f["exc"]])
    o, _ = hist._call(do_import, [part, form], tr)
    if o == "exc":
        o = _
    st.add("fault.%s_at_line" % f["exc"], int(tr.fired))
    return tr.fired, o


def threads(op, st):
    res = [[] for _ in op[1]]

    def body(k):
        def go(t):
            a = op[3]
            if a and a[0] == k:
                t.abort = (a[1], hist.EXC[a[2]])
            for part, form in op[1][k]:
                try:
                    do_import(part, form)
                    res[k].append("ret")
                except (Exception, KeyboardInterrupt) as e:
                    res[k].append(type(e).__name__)
        return go
    s = sched.Sched(op[2], V.Rng("sched", op[2].get("seed", 0)), [body(k) for k in range(len(op[1]))], max_steps=400000)
    end = s.run()
    fails = [t.failure for t in s.th if t.failure is not None]
    if fails:
        raise fails[0]
    if s.fired:
        st.add("fault.%s_in_thread" % op[3][2], s.fired)
    return res, end, s.step, sum(1 for x, _ in s.switches if x > 0), s.fired


def run(trace):
    # what the history is compared with: measured before it starts, in processes of its own
    for op in trace["ops"]:
        for part, _ in ([op[1:3]] if op[0] in ("import", "fail") else [f for t in op[1] for f in t] if op[0] == "threads" else []):
            if part:
                alone("newt." + part)
        if op[0] in ("call", "body"):
            alone_call(op)
    alone("newt")
    st, r = core.isolate(lambda: history(trace), 90)
    if st != "ok":
        raise core.HarnessError("run died: %r" % (r,))
    return r


def spell(op):
    if op[0] == "call":
        from .checks.common import spell as s
        return s(op[1])
    if op[0] == "body":
        return "building a %s" % op[1][0]
    if op[0] == "threads":
        return "importing %s in threads" % " | ".join(", ".join(f[0] or "newt" for f in t) for t in op[1])
    return "importing %s%s" % (op[1] or "newt", " (%s)" % op[2]) + ("" if op[0] == "import" else ", fault %s" % {k: v for k, v in op[3].items() if k != "frac"})


def shrink(t):
    from .checks.common import shrink_list
    yield from shrink_list(t, "ops", 1)
    for i, op in enumerate(t["ops"]):
        if op[0] == "threads":
            if op[3]:
                c = copy.deepcopy(t)
                c["ops"][i][3] = None
                yield c
            for k in range(len(op[1])):
                if len(op[1]) > 2:
                    c = copy.deepcopy(t)
                    del c["ops"][i][1][k]
                    if c["ops"][i][3] and c["ops"][i][3][0] >= k:
                        c["ops"][i][3] = None
                    yield c
                for j in range(len(op[1][k])):
                    if len(op[1][k]) > 1:
                        c = copy.deepcopy(t)
                        del c["ops"][i][1][k][j]
                        yield c
