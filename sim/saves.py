"""Histories of saves on a failing disk (C11): build, change and save bodies; kills during and right after a save."""
import math
import os
import re
import resource
import shutil
import signal
import struct
import sys
import numpy as np
from . import bodies, core, disk, sched, world, values as V

EXTRA = bodies.EXTRA
NAMES = ["body", "sub/body", "b.v1", "two words", "sub/deep/x", "Body-2"]


def gen(r):
    h = bodies.gen(r, "plain")
    ops = [o for o in h["ops"] if o[0] != "bad" and not (o[0] == "new" and o[2] in bodies.SLOW)][:r.randrange(2, 7)]
    M, out = {}, []
    for o in ops:
        if o[0] != "new" and o[1] not in M or o[0] == "add" and any(x not in M or M[x].inner != M[o[1]].inner for x in o[2]):
            continue
        if o[0] == "move" and not M[o[1]].inner and o[3]:
            continue
        bodies.apply_model(M, o)
        out.append(o)
        if o[0] == "new" and r.chance(.5):
            continue
        for _ in range(r.pick([0, 1, 1, 2])):
            out.append(save(r, sorted(M)))
    if not M:
        o = ["new", "a", "RectPrism", 2, True, 2.0, [1.0, 2.0, 1.5, 0.3]]
        bodies.apply_model(M, o)
        out.append(o)
    for _ in range(r.pick([1, 2, 3])):
        out.append(save(r, sorted(M)) if r.chance(.7) else ["move", r.pick(sorted(M)), [1.5, .25, -.5], True, "list"])
    return {"ops": out}


def save(r, slots):
    o = {"name": r.pick(NAMES), "mode": r.weighted([("inproc", 4), ("killafter", 2)]), "fault": None, "delivery": {}, "rel": r.chance(.15)}
    if r.chance(.25):
        o["delivery"] = {"chop": [r.randrange(1 << 30), r.pick([1, 7, 50, 1000]), r.pick([0, 10])]} if r.chance(.5) else {"chop": [r.randrange(1 << 30), 4096, 20]}
    if r.chance(.3):
        o["stall"] = True
    if r.chance(.6):
        k = r.weighted([("nodir", 1), ("isdir", 1), ("fsize", 4), ("full", 1.5), ("emfile", 1), ("errno_open", 2), ("errno_write", 4), ("longname", .5), ("notdir", .5), ("kill", 3), ("killsize", 2), ("closefail", .7)])
        ext = r.pick([".stl", ".txt"])
        f = {"k": k, "ext": ext}
        if k in ("fsize", "killsize"):
            f["n"] = r.pick([0, 1, 79, 80, 83, 84, 85, 133, 134, 500, 683, 684, 1000, 4095, 4096, 4097]) if r.chance(.5) else None
            f["frac"] = r.random()
            f["off"] = r.pick([-1, -1, -2, -50, 0])
            f["near"] = r.chance(.5)
        if k == "errno_open":
            f["err"], f["last"] = r.pick(["EACCES", "EMFILE", "EIO", "ENOSPC", "EROFS", "ENOENT"]), r.pick([1, 1 << 30])
        if k == "errno_write":
            f["err"], f["nth"], f["last"] = r.pick(["ENOSPC", "EIO", "EDQUOT", "EFBIG"]), r.pick([1, 1, 2, 3, 4, 6]), r.pick([0, 1 << 30])
        if k == "kill":
            f["op"], f["nth"] = r.pick(["open", "write", "write"]), r.pick([1, 1, 2, 3, 4])
        if k in ("kill", "killsize"):
            o["mode"] = "killafter"
        if k == "nodir":
            o["name"] = "nowhere/" + o["name"]
        if k == "longname":
            o["name"] = "x" * 260
        o["fault"] = f
    elif r.chance(.3):             # meanwhile another process saves a body of its own in the same folder or next to it
        stem = o["name"]
        o.update(mode="inproc", stall=False)
        o["other"] = {"at": r.randrange(1, 24), "name": r.pick([stem + "2", stem + ".b", os.path.join(os.path.dirname(stem), "other"), "other", "z" + stem[:3].strip("/")])}
    return ["save", r.pick(slots), o]


class Partner:
    """Another process with a body of its own that it saves when told to."""
    BODY = ["RectPrism", 2, True, 2.0, [4.0, 1.0, 2.0, 0.0]]

    def __init__(self):
        self.model = bodies.Model(*self.BODY)
        a, b = os.pipe(), os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(a[1]), os.close(b[0])
                B = {}
                op = ["new", "x"] + self.BODY
                bodies.perform(B, op, bodies.make_args(op, B, ""))
                while True:
                    name = os.read(a[0], 4000).decode()
                    if not name:
                        break
                    try:
                        B["x"].save_shape(name)
                        os.write(b[1], b"y")
                    except Exception:
                        os.write(b[1], b"n")
            finally:
                os._exit(0)
        os.close(a[0]), os.close(b[1])
        self.w, self.r = a[1], b[0]

    def save(self, name):
        os.write(self.w, name.encode())
        return os.read(self.r, 1) == b"y"

    def end(self):
        os.close(self.w), os.close(self.r)
        os.waitpid(self.pid, 0)


class Meanwhile:
    """At the nth source line of newt/ the other process saves its body."""
    def __init__(self, partner, path, at):
        self.partner, self.path, self.left, self.done = partner, path, at, None

    def trace(self, frame, event, arg):
        if event == "call":
            return self.trace if "/newt/" in frame.f_code.co_filename else None
        if event == "line" and self.left:
            self.left -= 1
            if not self.left:
                self.done = self.partner.save(self.path)
        return self.trace

    def __enter__(self):
        if self.partner:
            sys.settrace(self.trace)
        return self

    def __exit__(self, *a):
        sys.settrace(None)


# ------------------------------------------------------------------ reading the files back
def read_stl(data):
    """Triangles of a binary STL file, or an error text."""
    if len(data) < 84:
        return None, "%d bytes" % len(data)
    n = struct.unpack("<I", data[80:84])[0]
    if len(data) != 84 + 50 * n or not n:
        return None, "%d triangles announced, %d bytes" % (n, len(data))
    a = np.frombuffer(data, dtype=np.dtype([("n", "<f4", 3), ("v", "<f4", (3, 3)), ("a", "<u2")]), offset=84, count=n)
    return a["v"].astype(float), None


def check_stl(data, m):
    t, err = read_stl(data)
    if err:
        return "the model file is incomplete (%s)" % err
    a, b, c = t[:, 0], t[:, 1], t[:, 2]
    if not np.isfinite(t).all():
        return "the model file holds non-finite corners"
    area = np.cross(b - a, c - a) / 2
    tot = np.sqrt((area ** 2).sum(1)).sum()
    if np.abs(area.sum(0)).max() > 1e-3 * tot:
        return "the surface in the model file is not closed"
    v6 = np.einsum("ij,ij->i", a, np.cross(b, c))
    vol = v6.sum() / 6
    com = (v6[:, None] * (a + b + c)).sum(0) / 24
    V0, first, _, sc = m.solid()
    if not abs(vol - V0) <= .04 * sum(p["g"].mass for p in m.parts):
        return "the model file encloses a volume of %.5g, the body %.5g" % (vol, V0)
    vs = sum(p["g"].mass for p in m.parts)
    size = max(p["R"] for p in m.parts)
    # a facetted body is smaller, its centre moves with the missing volume
    if not np.abs(com / vol - first / V0).max() <= .04 * size + .04 * max(np.linalg.norm(p["c"] - first / V0) for p in m.parts):
        return "the model file is centred on %s, the body on %s" % (np.round(com / vol, 4), np.round(first / V0, 4))
    return None


def check_txt(data, b):
    try:
        text = data.decode()
        rows = [x for x in text.splitlines() if x.strip() and not x.startswith("#")]
        q = np.array([[complex(t.replace("+-", "-").strip("()")) for t in x.split()] for x in rows])
    except Exception as e:
        return "the moment file cannot be read (%s)" % type(e).__name__
    w = np.asarray(b.qlm)
    if q.shape != w.shape:
        return "the moment file holds a table of shape %s, the body %s" % (q.shape, w.shape)
    if not np.allclose(q, w, rtol=1e-9, atol=1e-12 * np.abs(w).max()):
        return "the moment file holds other moments than the body"
    head = "\n".join(x for x in text.splitlines() if x.startswith("#"))
    if ("Inner" in head) != bool(b.inner) and ("Inner" in head or "Outer" in head):
        return "the moment file names the wrong kind of moments"
    g = re.search(r"Mass: (\S+)", head)
    if g:
        try:
            got = float(re.sub(r"np\.float64\((.*)\)", r"\1", g.group(1)))
        except ValueError:
            return None
        if abs(got - b.mass) > 1e-6 * abs(b.mass):
            return "the moment file names mass %s, the body has %s" % (g.group(1), b.mass)
    return None


# ------------------------------------------------------------------ execution
def tree(root):
    out = {}
    for d, ds, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            try:
                with open(p, "rb") as h:
                    out[os.path.relpath(p, root)] = h.read() if not os.path.islink(p) else b"link"
            except OSError:
                out[os.path.relpath(p, root)] = b"?"
    return out


def model_size(b):
    """Bytes a complete model file will have (measured in another process)."""
    def go():
        import cadquery as cq
        f = world.FIX + "/probe-%d.stl" % os.getpid()
        cq.Compound.makeCompound(b.mesh.vals()).exportStl(f, tolerance=.01)
        n = os.path.getsize(f)
        os.remove(f)
        return n
    st, r = core.isolate(go, 30)
    return r if st == "ok" else 1000


def history(trace):
    import newt.shapes as sh                                       # noqa
    world.fresh_process()
    d = disk.Disk(["sub/deep"])
    with open(d.root + "/other.txt", "wb") as f:
        f.write(b"someone else's file\n" * 3)
    with open(d.root + "/sub/body2.stl", "wb") as f:
        f.write(b"another model" * 9)
    with open(d.root + "/plain", "wb") as f:
        f.write(b"a file, not a folder")
    os.chdir(d.root)
    B, M = {}, {}
    st, log, states, viol = core.Stats(), [], [], None
    partner = Partner() if any(op[0] == "save" and op[2].get("other") for op in trace["ops"]) else None
    for k, op in enumerate(trace["ops"]):
        s = op[1]
        if op[0] != "new" and s not in B or op[0] == "add" and any(x not in B or M[x].inner != M[s].inner for x in op[2]):
            continue
        if op[0] == "move" and ((not M[s].inner and op[3]) or (M[s].inner and not op[3] and not any(op[2]))):
            op = op[:3] + [M[s].inner, op[4]]
        if op[0] != "save":
            try:
                bodies.perform(B, op, bodies.make_args(op, B, d.root))
            except Exception as e:                       # not a save: C09 and C10 judge it
                log.append([k, "abandoned", type(e).__name__])
                st.add("probe.abandoned")
                break
            bodies.apply_model(M, op)
            st.add("probe.op_" + op[0])
            continue
        viol = one_save(k, op, B, M, d, st, log, states, partner)
        if viol:
            break
    if partner:
        partner.end()
    os.chdir("/")
    d.close()
    return {"violation": viol, "digest": core.digest([log, viol]), "stats": dict(st), "states": states, "log": log,
            "nontrivial": any(x.startswith("fault.") for x in st) or len(log) > 1, "sim_time": world.CLOCK.elapsed()}


def one_save(k, op, B, M, d, st, log, states, partner):
    b, m, o = B[op[1]], M[op[1]], op[2]
    f = o["fault"] or {"k": None}
    name = o["name"]
    if f["k"] == "notdir":
        name = "plain/body"
    base = d.root + "/" + name
    arg = name if o["rel"] else base
    desc = "step %d saving body %s (%s) as %s%s" % (k, op[1], m.kind, name[:40], ", fault %s" % {x: y for x, y in f.items() if y is not None} if f["k"] else "")
    mine = {name + ".stl", name + ".txt"}
    other = o.get("other") if f["k"] is None else None
    if other:
        mine |= {other["name"] + ".stl", other["name"] + ".txt"}
        desc += " while another process saves as %s" % other["name"]
    undo = []
    rules, fired_by_setup = [], False
    before_body = bodies.snap(b)
    if f["k"] == "isdir":
        p = base + f["ext"]
        if os.path.exists(p):
            os.remove(p)
        os.makedirs(p)
        undo.append(lambda: os.rmdir(p))
        fired_by_setup = True
    elif f["k"] == "full":
        p = base + f["ext"]
        if os.path.lexists(p):
            os.remove(p)
        os.symlink("/dev/full", p)
        undo.append(lambda: os.path.islink(p) and os.remove(p))
        fired_by_setup = True
    elif f["k"] in ("nodir", "longname", "notdir"):
        fired_by_setup = True
    elif f["k"] == "errno_open":
        rules.append({"op": "open", "path": name + f["ext"], "act": "errno", "err": f["err"], "nth": 1, "last": f["last"]})
    elif f["k"] == "errno_write":
        rules.append({"op": "write", "path": name + f["ext"], "act": "errno", "err": f["err"], "nth": f["nth"], "last": f["last"] or f["nth"]})
    elif f["k"] == "closefail":
        rules.append({"op": "close", "path": name + f["ext"], "act": "errno", "err": "EIO", "nth": 1})
    limit = None
    if f["k"] in ("fsize", "killsize"):
        limit = f["n"]
        if limit is None:
            n = model_size(b)
            limit = max(0, n + f["off"]) if f["near"] else int(f["frac"] * n)
    before = {x: v for x, v in tree(d.root).items() if x not in mine}
    for x in mine:                       # what an older save left
        if os.path.isfile(d.root + "/" + x):
            st.add("probe.older_file_there")

    def attempt():
        hard = resource.getrlimit(resource.RLIMIT_FSIZE)[1]
        nf = resource.getrlimit(resource.RLIMIT_NOFILE)
        ids = d.arm(o["delivery"] if not o["rel"] else {}, rules)
        if f["k"] == "kill":
            import ctypes
            world.LIB.sim_fs_rule({"open": disk.OPEN, "write": disk.WRITE}[f["op"]], (name + f["ext"]).encode(), f["nth"], f["nth"], disk.KILL, 0, b"")
        try:
            if limit is not None:
                if f["k"] == "killsize":
                    signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
                    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, hard))
            if f["k"] == "emfile":
                used = [int(x) for x in os.listdir("/proc/self/fd")]
                lo = next(x for x in range(4096) if x not in used)
                resource.setrlimit(resource.RLIMIT_NOFILE, (lo, nf[1]))
            sched.DEFER, n0 = ([] if o.get("stall") else None), sched.deferred[0]
            try:
                with Meanwhile(partner if other else None, d.root + "/" + other["name"] if other else None, other["at"] if other else 0) as mw:
                    b.save_shape(arg)
                if mw.done is not None:
                    other["done"] = mw.done
                out = ("ret", None)
            except Exception as e:
                out = ("exc", type(e).__name__)
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, (hard, hard))
            resource.setrlimit(resource.RLIMIT_NOFILE, nf)
            ld = core.Stats()
            fired = d.disarm(ids, ld, rules)
            if sched.deferred[0] > n0:
                ld.add("fault.stalled_thread", sched.deferred[0] - n0)
        return out, any(fired), dict(ld)

    if o["mode"] == "inproc":
        out, fired, ld = attempt()
        killed = False
    else:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                res = attempt()
                core._send(w, res)
            finally:
                os.kill(os.getpid(), signal.SIGKILL)       # nothing that was still pending survives
        os.close(w)
        buf = b""
        while True:
            x = os.read(r, 65536)
            if not x:
                break
            buf += x
        os.close(r)
        os.waitpid(pid, 0)
        if len(buf) >= 8:
            import pickle
            out, fired, ld = pickle.loads(buf[8:])
            killed = False
            st.add("fault.kill_after_save")
        else:
            out, fired, ld, killed = ("killed", None), True, {}, True
    for x, n in ld.items():
        st.add(x, n)
    if killed:
        st.add("fault.killed_during_save")
    elif f["k"] and (fired or fired_by_setup or f["k"] in ("fsize", "emfile", "killsize")):
        if f["k"] not in ("errno_open", "errno_write", "closefail"):
            st.add("fault." + f["k"])
    viol = None

    def bad(cls, text):
        return {"class": cls, "detail": "%s: %s" % (desc, text)}
    if out[0] == "ret":
        for ext in (".stl", ".txt"):
            try:
                with open(base + ext, "rb") as h:
                    data = h.read(1 << 28) if not os.path.islink(base + ext) else b""
            except OSError as e:
                viol = viol or bad("unsaved", "returned normally but %s cannot be read (%s)" % (ext, type(e).__name__))
                continue
            t = check_stl(data, m) if ext == ".stl" and m.geo else check_txt(data, b) if ext == ".txt" else None
            if t and not viol:
                viol = bad("unsaved", "returned normally but " + t)
        if other and "done" in other and not viol:
            st.add("probe.other_process_saved_meanwhile")
            viol = others(other, base, d, partner, bad)
    elif out[0] == "exc":
        st.add("probe.refused")
        possible = fired or fired_by_setup or f["k"] in ("fsize", "emfile", "killsize")
        if not possible:
            viol = bad("refused", "raised %s although nothing failed" % out[1])
        elif f["k"] == "fsize" and limit > 2_000_000:
            viol = bad("refused", "raised %s although everything fits" % out[1])
    sched.run_deferred()
    sched.DEFER = None
    df = bodies.differ(before_body, bodies.snap(b))
    if df and not viol:
        viol = bad("changed", "changed %s of the body" % ", ".join(df))
    for u in undo:
        try:
            u()
        except OSError:
            pass
    after = tree(d.root)
    for x, v in sorted(before.items()):
        if after.get(x) != v and not viol:
            viol = bad("changed", "changed or removed the file %s" % x)
    log.append([k, out[0], out[1], bool(fired)])
    states.append(core.digest([m.kind if len(m.parts) == 1 else len(m.parts), f["k"], f.get("ext"), f.get("nth"), limit, o["mode"], out[0], bool(o["delivery"])]))
    # once the fault is gone a repeated save succeeds
    if not viol and out[0] != "ret" and f["k"] not in ("nodir", "longname", "notdir"):
        try:
            b.save_shape(arg)
        except Exception as e:
            return bad("refused", "the repeated save raised %s although the fault was gone" % type(e).__name__)
        st.add("probe.repeated_save")
        for ext in (".stl", ".txt"):
            try:
                with open(base + ext, "rb") as h:
                    data = h.read()
            except OSError as e:
                return bad("unsaved", "the repeated save left no %s file" % ext)
            t = check_stl(data, m) if ext == ".stl" and m.geo else check_txt(data, b) if ext == ".txt" else None
            if t:
                return bad("unsaved", "after the repeated save " + t)
    return viol


def others(other, base, d, partner, bad):
    """What the other process's save left."""
    if not other.pop("done"):
        return bad("refused", "the other process's save was refused although nothing failed")
    p = d.root + "/" + other["name"]
    for ext in (".stl", ".txt"):
        try:
            with open(p + ext, "rb") as h:
                data = h.read()
        except OSError:
            return bad("unsaved", "the other process's save returned normally but left no %s file" % ext)
        t = check_stl(data, partner.model) if ext == ".stl" else None
        if ext == ".txt":
            text = data.decode("latin-1")
            try:
                rows = [x for x in text.splitlines() if x.strip() and not x.startswith("#")]
                q = np.array([[complex(t.replace("+-", "-").strip("()")) for t in x.split()] for x in rows])
                t = None if q.shape == partner.model.q.shape and np.allclose(q, partner.model.q, rtol=1e-9, atol=1e-9) else "the moment file holds other moments"
            except ValueError:
                t = "the moment file cannot be read"
        if t:
            return bad("unsaved", "the other process's save returned normally but " + t)
    return None


def run(trace):
    st, r = core.isolate(lambda: history(trace), 120)
    if st != "ok":
        raise core.HarnessError("run died %r" % (r,))
    return r


def shrink(trace):
    import copy
    from .checks.common import shrink_list
    yield from shrink_list(trace, "ops", 1)
    for i, op in enumerate(trace["ops"]):
        if op[0] == "save":
            o = op[2]
            for key, plain in (("other", None), ("delivery", {}), ("stall", None), ("fault", None), ("rel", False), ("mode", "inproc"), ("name", "body")):
                if o.get(key) != plain and not (key == "mode" and o["fault"] and o["fault"]["k"].startswith("kill")) and not (key == "name" and o["fault"] and o["fault"]["k"] in ("nodir", "longname")):
                    t = copy.deepcopy(trace)
                    t["ops"][i][2][key] = plain
                    yield t
        else:
            yield from bodies.shrink({"ops": trace["ops"]}) if i == 0 else ()
