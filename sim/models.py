"""Histories of CAD models made and combined directly through newt.genCAD (C18), with failures of the CAD kernel and of the disk.

The reference keeps, for every part of a model, its volume and its first and second moments, and moves and adds these by
hand; what a newly made part is, is measured on the same call in a fresh process."""
import copy
import math
import os
import resource
import shutil
import sys
import numpy as np
from . import bodies, cloud as K, core, disk, hist, saves, sched, values as V, world

EXTRA = bodies.EXTRA
u = lambda r, lo, hi: round(r.uniform(lo, hi), 3)


def gen_part(r):
    """(name, arguments after pmass, radius about the origin that holds it, inscribed ball or None)"""
    pi = math.pi
    n = r.weighted([("sphere", 3), ("cylinder", 2), ("annulus", 2), ("cone", 2), ("tri_iso_prism", 1), ("tri_iso_prism2", 1), ("tri_prism", 1), ("rect_prism", 3),
                    ("trapezoid", 1), ("ngon_prism", 1), ("tetrahedron", 1), ("tetrahedron2", 1), ("pyramid", 1), ("cylhole", 1), ("platehole", 1), ("outercone", 1)])
    z = [0., 0., 0.]
    if n == "sphere":
        R = u(r, .3, 1.5)
        return n, [R], R, [z, R]
    if n == "cylinder":
        H, R = u(r, .3, 2), u(r, .3, 1.5)
        return n, [H, R], math.hypot(H / 2, R), [z, min(H / 2, R)]
    if n == "annulus":
        H, Ri, d = u(r, .3, 2), u(r, .1, 1), u(r, .2, 1.2)
        return n, [H, Ri, round(Ri + d, 3), u(r, -3, 3), r.pick([pi, u(r, .3, 3)])], math.hypot(H / 2, Ri + d), None
    if n == "cone":
        H, r1, r2 = u(r, .3, 2), r.pick([0, u(r, .1, .5)]), u(r, .6, 1.5)
        return n, [H, r1, r2, u(r, -3, 3), r.pick([pi, u(r, .3, 3)])], math.hypot(H, r2), None
    if n == "tri_iso_prism":
        H, a, d = u(r, .3, 2), u(r, .3, 2), u(r, .3, 2)
        return n, [H, a, d, u(r, -3, 3)], math.sqrt(H * H / 4 + a * a / 4 + d * d), None
    if n == "tri_iso_prism2":
        H, R = u(r, .3, 2), u(r, .3, 2)
        return n, [H, R, u(r, -3, 3), u(r, .2, 1.3)], math.hypot(H / 2, R), None
    if n == "tri_prism":
        H, d, y = u(r, .3, 2), u(r, .3, 2), u(r, -1, .5)
        y2 = round(y + u(r, .3, 1.5), 3)
        return n, [H, d, y, y2], math.sqrt(H * H / 4 + d * d + max(y * y, y2 * y2)), None
    if n == "rect_prism":
        H, a, b = u(r, .3, 2), u(r, .3, 2), u(r, .3, 2)
        return n, [H, a, b, u(r, -3, 3)], math.sqrt(H * H + a * a + b * b) / 2, [z, min(H, a, b) / 2]
    if n == "trapezoid":
        t, w1, w2, h = u(r, .3, 1), u(r, .3, 1), u(r, 1.1, 2), u(r, .3, 2)
        return n, [t, w1, w2, h], math.sqrt(t * t + w2 * w2 + h * h), None
    if n == "ngon_prism":
        N, H, a = r.pick([3, 4, 5, 6, 8]), u(r, .3, 2), u(r, .3, 1.2)
        R = a / 2 / math.sin(pi / N)
        return n, [H, a, u(r, -3, 3), N], math.hypot(R, H / 2), [z, min(H / 2, R * math.cos(pi / N))]
    if n == "tetrahedron":
        x = [u(r, .3, 2) for _ in range(3)]
        return n, x, max(x), None
    if n == "tetrahedron2":
        x, y, zz = u(r, .3, 2), u(r, -1, .5), u(r, .3, 2)
        y2 = round(y + u(r, .3, 1.5), 3)
        return n, [x, y, y2, zz], max(math.hypot(x, y), math.hypot(x, y2), zz), None
    if n == "pyramid":
        x = [u(r, .3, 1.5) for _ in range(3)]
        return n, x, max(math.hypot(x[0], x[1]), x[2]), None
    if n == "cylhole":
        a = u(r, .2, .8)
        R = round(a + u(r, .1, 1), 3)
        return n, [a, R], math.hypot(a, R), None
    if n == "platehole":
        t, a, th = u(r, .2, 1), u(r, .2, .8), u(r, -.9, .9)
        c = math.cos(th)
        return n, [t, a, th], math.sqrt((a / c + t * abs(math.tan(th)) / 2) ** 2 + a * a + t * t / 4), None
    H, i, o = u(r, .3, 1.5), u(r, .4, 1), u(r, .3, 1)
    return "outercone", [H, i, round(i + o, 3), r.pick([pi, u(r, .3, 3)])], math.hypot(i + o, H), None


class Ref:
    """Reference model: parts with sign, enclosing ball (c, R), inscribed ball, and the motion M x + d of the part as made."""
    def __init__(self, name, args, pmass, R, ins):
        self.parts = [{"sign": 1 if pmass else -1, "c": np.zeros(3), "R": R, "ins": (np.array(ins[0]), ins[1]) if ins else None,
                       "M": np.eye(3), "d": np.zeros(3), "made": (name, tuple(args))}]
        self.pmass = bool(pmass)

    def copy(self):
        m = Ref.__new__(Ref)
        m.parts, m.pmass = [dict(p) for p in self.parts], self.pmass
        return m

    def moved(self, M, d):
        m = self.copy()
        for p in m.parts:
            p["M"], p["d"], p["c"] = M @ p["M"], M @ p["d"] + d, M @ p["c"] + d
            if p["ins"]:
                p["ins"] = (M @ p["ins"][0] + d, p["ins"][1])
        return m

    @staticmethod
    def sum(ms):
        m = ms[0].copy()
        m.parts = [dict(p) for x in ms for p in x.parts]
        m.pmass = any(x.pmass for x in ms)
        return m

    def moments(self, made):
        """Volume, first and second moments; made: measured parts as they were made."""
        sg = 1 if any(p["sign"] > 0 for p in self.parts) else -1
        v, f, S, sc, vs = 0., np.zeros(3), np.zeros((3, 3)), 0., 0.
        for p in self.parts:
            V0, f0, S0 = made[core.digest([p["made"][0], list(p["made"][1])])]
            M, d = p["M"], p["d"]
            f1 = M @ f0
            f2 = f1 + V0 * d
            S2 = M @ S0 @ M.T + np.outer(f1, d) + np.outer(d, f1) + V0 * np.outer(d, d)
            v, f, S = v + sg * p["sign"] * V0, f + sg * p["sign"] * f2, S + sg * p["sign"] * S2
            sc += V0 * (np.abs(p["c"]).max() + p["R"]) ** 2
            vs += V0
        return v, f, S, sc, vs


def turn(a, b, c):
    return K.rz(a) @ K.ry(b) @ K.rz(c)


def apply_ref(M, op):
    k = op[0]
    if k == "make":
        M[op[1]] = Ref(op[2], op[3], op[4][1], op[5], op[6])
    elif k == "rot" and op[2] in M:
        M[op[1]] = M[op[2]].moved(turn(*op[3:6]), np.zeros(3))
    elif k == "move" and op[2] in M:
        M[op[1]] = M[op[2]].moved(np.eye(3), np.array(op[3], float))
    elif k == "sum" and all(x in M for x in op[2]):
        M[op[1]] = Ref.sum([M[x] for x in op[2]])
    elif k == "flip" and op[1] in M and len(M[op[1]].parts) == 1:
        m = M[op[1]] = M[op[1]].copy()
        m.pmass = not m.pmass
        m.parts[0]["sign"] *= -1
    elif k == "drop":
        M.pop(op[1], None)


def valid(M, op):
    k = op[0]
    if k in ("rot", "move"):
        return op[2] in M
    if k == "sum" or k == "save" and isinstance(op[1], list):
        xs = op[2] if k == "sum" else op[1]
        return all(x in M for x in xs) and len(set(xs)) == len(xs) and bodies.fits([M[x] for x in xs])
    if k == "save":
        return op[1] in M
    if k == "flip":
        return op[1] in M and len(M[op[1]].parts) == 1
    return True


SLOTS = "abcdef"
ERR = ["ValueError", "MemoryError", "RuntimeError", "StdFail_NotDone"]


def gen(r):
    ops, M = [], {}

    def emit(op):
        if valid(M, op):
            ops.append(op)
            apply_ref(M, op)
            return True
        return False

    def free():
        return next((s for s in SLOTS if s not in M), None) or r.pick(sorted(M))

    n = r.randrange(5, 15)
    for _ in range(60):
        if len(ops) >= n:
            break
        have = sorted(M)
        k = r.weighted([("make", 3), ("rot", 2), ("move", 2), ("sum", 3), ("hole", 1.5), ("save", 1.5), ("flip", .5), ("again", 1.), ("drop", .4)])
        if k == "make" or not have:
            name, args, R, ins = gen_part(r)
            form = r.pick(["bool", "bool", "int", "np"])
            emit(["make", free(), name, args, [form, not r.chance(.2)], R, ins])
        elif k == "again":                                  # an equal model, or nearly
            made = [o for o in ops if o[0] == "make"]
            o = copy.deepcopy(r.pick(made))
            o[1] = free()
            if r.chance(.3):
                o[4][1] = not o[4][1]
            elif r.chance(.4):                                  # a size slightly smaller
                o[3][0] = round(o[3][0] * .99, 5)
                if o[6]:
                    o[6] = [o[6][0], o[6][1] * .98]
            emit(o)
        elif k == "rot":
            emit(["rot", r.pick([free(), r.pick(have)]), r.pick(have)] + [r.pick([0., math.pi / 2, math.pi, u(r, -4, 4)]) for _ in range(3)])
        elif k == "move":
            emit(["move", r.pick([free(), r.pick(have)]), r.pick(have), [0., 0., 0.] if r.chance(.15) else [u(r, -4, 4) for _ in range(3)], r.pick(["list", "tuple", "array"])])
        elif k in ("sum", "save2") and len(have) > 0:
            xs = r.sample(have, min(len(have), r.pick([1, 2, 2, 3, 4])))
            out = [xs[0]]
            for x in xs[1:]:
                if not bodies.fits([M[y] for y in out] + [M[x]]):          # put it beside the others
                    cs = np.array([p["c"] for y in out for p in M[y].parts])
                    ca = cs.mean(0)
                    ra = max(np.linalg.norm(p["c"] - ca) + p["R"] for y in out for p in M[y].parts)
                    cb = np.mean([p["c"] for p in M[x].parts], 0)
                    rb = max(np.linalg.norm(p["c"] - cb) + p["R"] for p in M[x].parts)
                    t = ca + bodies.unit(r) * (1.05 * (ra + rb) + r.random()) - cb
                    emit(["move", x, x, [round(float(v), 4) for v in t], "list"])
                if bodies.fits([M[y] for y in out] + [M[x]]):
                    out.append(x)
            if r.chance(.2):
                emit(["save", out, save_opts(r)])
            else:
                emit(["sum", r.pick([free(), out[0]]), out, r.pick(["list", "tuple", "basket"])])
        elif k == "hole":
            x = r.pick(have)
            hosts = [p for p in M[x].parts if p["sign"] > 0 and p["ins"]]
            s = next((s for s in SLOTS if s not in M), None)
            if not hosts or s is None:
                continue
            h = r.pick(hosts)
            f = round(h["ins"][1] * u(r, .3, .8), 4)
            emit(["make", s, "sphere", [f], ["bool", False], f, [[0., 0., 0.], f]])
            emit(["move", s, s, [round(float(v), 5) for v in h["ins"][0]], "array"])
            emit(["sum", r.pick([free(), x]), r.pick([[x, s], [s, x]]), r.pick(["list", "tuple", "basket"])])
        elif k == "save":
            emit(["save", r.pick(have), save_opts(r)])
        elif k == "flip":
            emit(["flip", r.pick(have)])
        elif k == "drop":
            emit(["drop", r.pick(have)])
    for op in ops:
        if op[0] in ("make", "rot", "move", "sum") and r.chance(.3):
            if r.chance(.5):
                op.append({"fault": {"where": "cadquery", "nth": r.pick([1, 1, 2, 3, 4, 6, r.randrange(1, 60)]), "exc": r.pick(ERR)}})
            else:
                op.append({"fault": {"where": "line", "nth": r.randrange(1, 14), "exc": r.pick(["KeyboardInterrupt", "MemoryError", "RuntimeError"])}})
        elif op[0] in ("make", "rot", "move", "sum") and r.chance(.06):
            op.append({"bad": r.randrange(4)})
    return {"ops": ops}


def save_opts(r):
    o = {"name": r.pick(["model", "sub/model", "b.v1", "two words", "Model-2"]), "fault": None, "form": r.pick(["list", "tuple", "basket"])}
    if r.chance(.5):
        k = r.pick(["errno_open", "errno_write", "fsize", "full", "isdir", "nodir", "closefail"])
        f = {"k": k}
        if k == "errno_open":
            f["err"] = r.pick(["EACCES", "EMFILE", "EIO", "ENOSPC", "EROFS"])
        if k == "errno_write":
            f["err"], f["nth"] = r.pick(["ENOSPC", "EIO", "EDQUOT"]), r.pick([1, 1, 2, 3])
        if k == "fsize":
            f["n"] = r.pick([0, 1, 79, 80, 83, 84, 85, 134, 500, 684, 4095, 4096, 8192])
        o["fault"] = f
    return o


# ------------------------------------------------------------------ execution
def measure_fresh(name, args):
    """The part as it is made in a fresh process."""
    import newt.genCAD as g
    v, f, S = bodies.measure(getattr(g, name)(True, *args))
    return v, np.array(f), np.array(S)


_made = {}


def made_parts(trace):
    out = {}
    for op in trace["ops"]:
        if op[0] == "make":
            key = core.digest([op[2], op[3]])
            if key not in _made:
                def go(op=op):
                    world.fresh_process()
                    return measure_fresh(op[2], op[3])
                st, r = core.isolate(go, 60)
                if st != "ok":
                    raise core.HarnessError("a part cannot be made: %r %r" % (op, r))
                _made[key] = r
            out[key] = _made[key]
    return out


class Fault(bodies.Fault):
    """At the nth entry into cadquery, or the nth source line of genCAD."""
    def hit(self, fn, frame):
        return "/cadquery/" in fn

    def exception(self):
        return KeyboardInterrupt("simulated") if self.exc == "KeyboardInterrupt" else bodies.exception(self.exc)

    def trace(self, frame, event, arg):
        if self.where == "cadquery":
            return super().trace(frame, event, arg)
        if event == "call":
            return self.trace if frame.f_code.co_filename.endswith("newt/genCAD.py") else None
        if event == "line" and self.left and frame.f_lineno not in sched.fragile_lines(frame.f_code.co_filename):
            self.left -= 1
            if not self.left:
                self.fired = "genCAD line"
                raise self.exception()
        return self.trace


def look(m):
    v, f, S = bodies.measure(m)
    return {"mesh": [round(float(x), 9) for x in np.concatenate([[v], f, S.ravel()])], "pmass": bool(m.pmass)}


def judge(m, ref, made):
    if bool(m.pmass) != ref.pmass:
        return "is marked as %s" % ("solid" if m.pmass else "hole")
    v, f, S = bodies.measure(m)
    V0, F0, S0, sc, vs = ref.moments(made)
    t = 2e-4 if any(p["made"][0] in ("cylhole", "platehole") for p in ref.parts) else 2e-6       # surfaces the kernel only approximates
    if not abs(v - V0) <= t * vs:
        return "has volume %.7g instead of %.7g" % (v, V0)
    if not np.abs(f - F0).max() <= t * vs * math.sqrt(sc / vs):
        return "is centred on %s instead of %s" % (np.round(f / v, 5), np.round(F0 / V0, 5))
    if not np.abs(S - S0).max() <= t * sc:
        return "has other second moments (off by %.2g of %.2g)" % (np.abs(S - S0).max(), sc)
    return None


def collect(form, B, xs):
    """The models as a new list, a tuple, or in the caller's one list that is emptied and filled again."""
    if form != "basket":
        return {"list": list, "tuple": tuple}[form]([B[x] for x in xs])
    BASKET[:] = [B[x] for x in xs]
    return BASKET


BASKET = []


def prepare(op, B):
    """A thunk that performs the operation, and the argument whose value must not change."""
    import newt.genCAD as g
    k = op[0]
    if k == "make":
        p = {"bool": bool, "int": int, "np": np.bool_}[op[4][0]](op[4][1])
        return (lambda: getattr(g, op[2])(p, *op[3])), None
    if k == "rot":
        return (lambda: g.rotate_mesh(B[op[2]], *op[3:6])), None
    if k == "move":
        v = {"list": list, "tuple": tuple, "array": np.array}[op[4]](op[3])
        return (lambda: g.translate_mesh(B[op[2]], v)), v
    if k == "sum":
        xs = collect(op[3], B, op[2])
        return (lambda: g.sum_mesh(xs)), xs
    raise core.HarnessError(k)


def bad_thunk(op, B, which):
    import newt.genCAD as g
    k = op[0]
    if k == "make":
        a = list(op[3])
        a[which % len(a)] = r = [None, "wide", float("nan"), [1.]][which]
        return None if isinstance(r, float) or op[2] == "outercone" else lambda: getattr(g, op[2])(True, *a)
    if k == "rot":
        return lambda: g.rotate_mesh(B[op[2]], .1, [None, "x", [1, 2], {}][which], .2)
    if k == "move":
        return lambda: g.translate_mesh(B[op[2]], [[1., 2., "x"], "abc", None, [1., None, 2.]][which])
    return lambda: g.sum_mesh([[B[op[2][0]], None], [], 5, [B[op[2][0]], "x"]][which])


def history(trace, made):
    world.fresh_process(stall=True)
    d = disk.Disk(["sub"])
    d.put("other.stl", b"someone else's model" * 9)
    os.chdir(d.root)
    B, M, last = {}, {}, {}
    st, log, states = core.Stats(), [], []
    viol = None

    def bad(cls, k, op, text):
        nonlocal viol
        if viol is None:
            viol = {"class": cls, "detail": "step %d %s: %s" % (k, bodies.spell(op), text)}

    def others(k, op, before, what, skip=()):
        for x in sorted(before):
            if x in skip:
                continue
            df = bodies.differ(before[x], look(B[x]))
            if df:
                bad("shared", k, op, "%s %s of model %s" % (what, ", ".join(df), x))

    for k, full in enumerate(trace["ops"]):
        extra = full[-1] if isinstance(full[-1], dict) and full[0] != "save" else {}
        op = full[:-1] if extra else full
        if not valid(M, op):
            continue
        before = dict(last)
        if op[0] == "drop":
            B.pop(op[1], None)
            M.pop(op[1], None)
            last.pop(op[1], None)
            continue
        if op[0] == "flip":                                # the caller edits its own model
            B[op[1]].pmass = not B[op[1]].pmass
            apply_ref(M, op)
            others(k, op, before, "changed", (op[1],))
            last[op[1]] = look(B[op[1]])
            st.add("probe.caller_edits")
            if viol:
                break
            continue
        if op[0] == "save":
            t = one_save(k, op, B, M, made, d, st)
            others(k, op, before, "changed")
            if t:
                bad(t[0], k, op, t[1])
            log.append([k, "save", t is None])
            states.append(core.digest(["save", op[2]["fault"], isinstance(op[1], list), len(M)]))
            if viol:
                break
            continue
        if "bad" in extra:
            th = bad_thunk(op, B, extra["bad"])
            if th:
                try:
                    th()
                    st.add("probe.odd_argument_taken")
                except Exception as e:
                    st.add("fault.unusable_argument")
                    log.append([k, "bad", type(e).__name__])
                others(k, op, before, "failed but changed")
        th, arg = prepare(op, B)
        fz = bodies.frozen(arg)
        if "fault" in extra:
            f = extra["fault"]
            raised = None
            with Fault(f["where"], f["nth"], f["exc"]) as ft:
                try:
                    th()
                except (Exception, KeyboardInterrupt) as e:
                    raised = type(e).__name__
            if ft.fired:
                st.add("fault.%s_%s" % (f["where"], f["exc"]))
                states.append(core.digest([op[0], op[2] if op[0] == "make" else 0, ft.fired, raised is None]))
            elif raised:
                bad("refused", k, op, "raised %s although nothing failed" % raised)
            others(k, op, before, "failed but changed" if raised else "changed")
            if bodies.frozen(arg) != fz:
                bad("argument", k, op, "changed the vector or list it was given")
            log.append([k, op[0], raised, ft.fired])
            if viol:
                break
        try:
            new = th()
        except Exception as e:
            bad("refused", k, op, "raised %s (%s)%s" % (type(e).__name__, str(e)[:80], " when repeated after a failure" if "fault" in extra else ""))
            break
        if bodies.frozen(arg) != fz:
            bad("argument", k, op, "changed the vector or list it was given")
        others(k, op, before, "changed")
        if any(new is x for x in B.values()):
            bad("shared", k, op, "returned a model the caller already has")
        B[op[1]] = new
        last[op[1]] = look(new)
        apply_ref(M, op)
        j = judge(new, M[op[1]], made)
        if j:
            bad("wrong-model", k, op, "the new model " + j)
        st.add("probe.op_" + op[0])
        if op[0] == "make":
            st.add("probe.part_" + op[2])
        states.append(core.digest([op[0], op[2] if op[0] == "make" else 0, len(M[op[1]].parts), M[op[1]].pmass, len(M)]))
        log.append([k, op[0], V.digest(np.round(np.array(last[op[1]]["mesh"]), 6) + 0.0)])
        if viol:
            break
    os.chdir("/")
    d.close()
    return {"violation": viol, "digest": core.digest([log, viol]), "stats": dict(st), "states": states, "log": log,
            "nontrivial": len(log) > 2, "sim_time": world.CLOCK.elapsed()}


def check_file(path, ref, made):
    try:
        with open(path, "rb") as h:
            data = h.read()
    except OSError as e:
        return "it cannot be read (%s)" % type(e).__name__
    t, err = saves.read_stl(data)
    if err:
        return "it is incomplete (%s)" % err
    a, b, c = t[:, 0], t[:, 1], t[:, 2]
    area = np.cross(b - a, c - a) / 2
    if not np.isfinite(t).all() or np.abs(area.sum(0)).max() > 1e-3 * np.sqrt((area ** 2).sum(1)).sum():
        return "its surface is not closed"
    v6 = np.einsum("ij,ij->i", a, np.cross(b, c))
    vol, first = v6.sum() / 6, (v6[:, None] * (a + b + c)).sum(0) / 24
    V0, F0, _, sc, vs = ref.moments(made)
    if not abs(vol - V0) <= .05 * vs:
        return "it encloses a volume of %.5g instead of %.5g" % (vol, V0)
    if not np.abs(first - F0).max() <= .05 * sum(math.sqrt(sc / vs) * vs for _ in [0]):
        return "it is centred elsewhere"
    return None


def one_save(k, op, B, M, made, d, st):
    import newt.genCAD as g
    o = op[2]
    f = o["fault"] or {"k": None}
    what = collect(o["form"], B, op[1]) if isinstance(op[1], list) else B[op[1]]
    ref = Ref.sum([M[x] for x in op[1]]) if isinstance(op[1], list) else M[op[1]]
    fz = bodies.frozen(what) if isinstance(op[1], list) else None
    name = ("nowhere/" if f["k"] == "nodir" else "") + o["name"]
    p = d.root + "/" + name + ".stl"
    before = {x: v for x, v in saves.tree(d.root).items() if x != name + ".stl"}
    rules, setup = [], f["k"] in ("nodir", "isdir", "full", "fsize")
    if f["k"] == "isdir":
        if os.path.lexists(p):
            os.remove(p)
        os.makedirs(p)
    elif f["k"] == "full":
        if os.path.lexists(p):
            os.remove(p)
        os.symlink("/dev/full", p)
    elif f["k"] == "errno_open":
        rules.append({"op": "open", "path": name + ".stl", "act": "errno", "err": f["err"], "nth": 1, "last": 1 << 30})
    elif f["k"] == "errno_write":
        rules.append({"op": "write", "path": name + ".stl", "act": "errno", "err": f["err"], "nth": f["nth"], "last": f["nth"]})
    elif f["k"] == "closefail":
        rules.append({"op": "close", "path": name + ".stl", "act": "errno", "err": "EIO", "nth": 1})
    hard = resource.getrlimit(resource.RLIMIT_FSIZE)[1]
    ids = d.arm({}, rules)
    try:
        if f["k"] == "fsize":
            resource.setrlimit(resource.RLIMIT_FSIZE, (f["n"], hard))
        try:
            g.save_stl(what, d.root + "/" + name)
            raised = None
        except Exception as e:
            raised = type(e).__name__
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (hard, hard))
        fired = any(d.disarm(ids, st, rules))
    st.add("probe.saves")
    if raised and not (fired or setup):
        return "refused", "raised %s although nothing failed" % raised
    bad = None
    if raised is None:
        t = check_file(p, ref, made) if not os.path.islink(p) else "it is the full device"
        if t:
            bad = "unsaved", "returned normally but the file is not the model's: " + t
    else:
        st.add("fault.save_" + f["k"])
    if isinstance(op[1], list) and bodies.frozen(what) != fz:
        bad = bad or ("argument", "changed the list it was given")
    if f["k"] == "isdir" and os.path.isdir(p):
        shutil.rmtree(p)
    if os.path.islink(p):
        os.remove(p)
    after = saves.tree(d.root)
    for x, v in sorted(before.items()):
        if after.get(x) != v:
            bad = bad or ("files", "changed or removed the file %s" % x)
    if raised and not bad and f["k"] != "nodir":
        try:
            g.save_stl(what, d.root + "/" + name)
        except Exception as e:
            return "refused", "the repeated save raised %s although the fault was gone" % type(e).__name__
        t = check_file(p, ref, made)
        if t:
            return "unsaved", "after the repeated save the file is not the model's: " + t
    return bad


def run(trace):
    made = made_parts(trace)
    st, r = core.isolate(lambda: history(trace, made), 120)
    if st != "ok":
        raise core.HarnessError("run died %r" % (r,))
    return r


def shrink(trace):
    from .checks.common import shrink_list
    yield from shrink_list(trace, "ops", 1)
    for i, op in enumerate(trace["ops"]):
        if op[0] == "save":
            if op[2]["fault"]:
                t = copy.deepcopy(trace)
                t["ops"][i][2]["fault"] = None
                yield t
            if isinstance(op[1], list) and len(op[1]) > 1:
                t = copy.deepcopy(trace)
                t["ops"][i][1] = op[1][:-1]
                yield t
        elif isinstance(op[-1], dict):
            t = copy.deepcopy(trace)
            t["ops"][i] = op[:-1]
            yield t
        if op[0] == "rot":
            for j in (3, 4, 5):
                if op[j]:
                    t = copy.deepcopy(trace)
                    t["ops"][i][j] = 0.
                    yield t
        if op[0] == "sum" and len(op[2]) > 2:
            t = copy.deepcopy(trace)
            t["ops"][i][2] = op[2][:-1]
            yield t
