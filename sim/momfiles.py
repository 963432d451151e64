"""Histories of moment files being written, damaged, delivered and loaded (C05, C06)."""
import copy
import os
import numpy as np
from . import core, disk, world, values as V

NAMES = ["a", "b", "part", "pod.gsq.old", "x.y", "gsq", "Test Mass", "é"]


def records(f):
    """Recorded coefficients of a file spec: list of (l, m, re text, im text)."""
    r = V.Rng("rec", f["seed"], f["L"])
    out = []
    for l in range(f["L"] + 1):
        for m in range(l + 1):
            k = r.random()
            a, b = r.gauss(0, 1) * 10.0 ** r.randrange(-6, 7), (r.gauss(0, 1) * 10.0 ** r.randrange(-6, 7) if m else 0.0)
            if f["fmt"] == "w":                   # very large and very small numbers
                a, b = r.gauss(0, 1) * 10.0 ** r.randrange(-140, 120), (r.gauss(0, 1) * 10.0 ** r.randrange(-140, 120) if m else -0.0)
            if f["fmt"] == "z" and k < .4:
                a = 0.0
            out.append((l, m, _t(a, f["fmt"]), _t(b, f["fmt"])))
    return out


def _t(v, fmt):
    if fmt == "E":
        return ("%.9E" % v)
    if fmt == "f":
        return "%.6f" % v
    if fmt == "w":
        return "%.15e" % v
    if fmt == "+":
        return "%+.12e" % v
    if fmt == "i":
        return "%d" % round(v)
    return repr(v)


def text(f):
    """Text of a moment file; f["keep"] of its bytes survive when it is torn."""
    lines = [f["title"], "%d %s" % (f["L"], f["l1"])] + f["head"]
    for l, m, a, b in records(f):
        lines.append(f["ind"] + a + f["sep"] + b + f["tail"])
    eol = f["eol"]
    return eol.join(lines) + (eol if f["last"] else "")


def table(f):
    L = f["L"]
    q = np.zeros((L + 1, 2 * L + 1), complex)
    for l, m, a, b in records(f):
        v = complex(float(a), float(b))
        if f["kind"] == "gsq":
            v *= 1e-3 * 0.01 ** l
        q[l, L + m] = v
        q[l, L - m] = (-1) ** m * v.conjugate()
    return q


def wrong(got, want, skip_last=False):
    if not isinstance(got, np.ndarray) or got.shape != want.shape:
        return "returned %s instead of a table of shape %s" % (getattr(got, "shape", type(got).__name__), want.shape)
    bad = ~(np.abs(got - want) <= 1e-12 * np.abs(want))
    if skip_last:
        bad[-1, -1] = bad[-1, 0] = False
    if bad.any():
        l, m = np.argwhere(bad)[0]
        return "coefficient (%d,%d) is %r, recorded %r" % (l, m - (len(want) - 1), complex(got[l, m]), complex(want[l, m]))
    return None


def gen_file(r, kind=None, L=None):
    L = r.weighted([(0, .5), (1, 1), (2, 2), (3, 2), (5, 2), (8, 1), (10, 1), (12, 1), (25, .6), (40, .15)]) if L is None else L
    return {"kind": kind or r.pick(["gsq", "gsq", "gbq"]), "L": L, "seed": r.randrange(1 << 20), "fmt": r.pick(["r", "E", "f", "+", "i", "z", "w"]),
            "title": r.pick(["part", "", "12 3", "ring é", "a % b", "add"]), "l1": r.pick(["0", "", "10", "0 0 0"]),
            "head": [r.pick(["0.0 0.0", "header", "", "1 2 3 4", "%", "-1.0 5"]) for _ in range(7)],
            "ind": r.pick(["", "", " ", "   ", "\t"]), "sep": r.pick([" ", "  ", "\t", "      "]), "tail": r.pick(["", "", "", " ", "  0 0"]),
            "eol": r.pick(["\n", "\n", "\r\n"]), "last": r.chance(.7)}


def sizes(f):
    """(byte length needed for all records but the last token, total length) of the encoded text."""
    return len(text(f).encode())


def gen(r, faulty):
    ops = []
    nf = r.pick([1, 1, 2, 3])
    names = [r.pick(NAMES) + str(k) for k in range(nf)]
    dirs = r.pick([[""], [""], ["x/"], ["x/", "y/"], ["x/", "y/"]])       # projects whose files have the same names
    files = {}
    n = r.randrange(3, 12)
    styles = r.pick([["abs"], ["abs"], ["abs", "dots"], ["rel"], ["rel", "abs"], ["here", "rel", "deep"]])
    kinds = r.pick([["gsq"], ["gbq"], ["gsq", "gsq", "gbq"], ["gsq", "gbq"]])
    while len(ops) < n:
        nm = [r.pick(dirs), r.pick(names), r.pick(kinds)]
        key = "|".join(nm)
        if key not in files or r.chance(.15):
            like = [x for y, x in sorted(files.items()) if y.split("|")[1] == nm[1]]
            if key in files and r.chance(.6):        # new content of the same size and kind
                f = dict(files[key], seed=r.randrange(1 << 20))
            elif like and r.chance(.5):              # the same size as its namesake in another folder
                f = dict(r.pick(like), seed=r.randrange(1 << 20), kind=nm[2])
            else:
                f = gen_file(r, nm[2], r.pick([None, files[key]["L"]]) if key in files else None)
            files[key] = f
            ops.append(["write", key, f])
            continue
        if r.chance(.12):
            ops.append(["edit"])
            continue
        f = files[key]
        op = {"name": key, "style": r.pick(styles), "ext": r.randrange(2), "delivery": disk.gen_delivery(r), "faults": [], "damage": None}
        if r.chance(.2):
            op["faults"].append({"op": r.pick(["read", "open"]), "path": "/", "act": "stall", "arg": r.pick([10 ** 9, 10 ** 13])})
        if faulty and r.chance(.6):
            size = sizes(f)
            kind = r.weighted([("torn", 4), ("drop", 3), ("errno_read", 3), ("errno_open", 1), ("eof", 3), ("trunc", 3), ("swap", 3), ("missing", .7), ("empty", .4), ("nofolder", .3)])
            chop = op["delivery"].get("chop")
            per = max(1, (chop[1] + 1) // 2) if chop else 8192
            nread = max(1, min(60, size // per + 2)) if kind != "swap" else 3
            nth = r.randrange(1, nread + 1) if r.chance(.7) else r.pick([1, 2])
            if kind == "torn":
                op["damage"] = {"keep": r.weighted([(r.randrange(size + 1), 3), (max(0, size - r.randrange(1, 60)), 3)])}
            elif kind == "drop":
                op["damage"] = {"drop": r.pick([1, 1, 2, f["L"] + 1, r.randrange(1, (f["L"] + 1) * (f["L"] + 2) // 2 + 1)])}
            elif kind == "empty":
                op["damage"] = {"keep": 0}
            elif kind == "missing":
                op["damage"] = {"missing": 1}
            elif kind == "nofolder":
                op["damage"] = {"nofolder": 1}
            elif kind == "errno_read":
                op["faults"].append({"op": "read", "path": "/mom/", "act": "errno", "err": r.pick(disk.READ_ERR), "nth": nth, "last": r.pick([nth, 1 << 30])})
            elif kind == "errno_open":
                op["faults"].append({"op": "open", "path": "/mom/", "act": "errno", "err": r.pick(disk.OPEN_ERR), "nth": 1, "last": 1 << 30})
            elif kind == "eof":
                op["faults"].append({"op": "read", "path": "/mom/", "act": "eof", "nth": nth, "last": 1 << 30})
            elif kind == "trunc":
                op["faults"].append({"op": r.pick(["read", "read", "open"]), "path": "/mom/", "act": "trunc", "arg": r.randrange(size + 1), "nth": nth})
            elif kind == "swap":
                op["faults"].append({"op": r.pick(["read", "open"]), "path": "/mom/", "act": "swap", "aux": "new", "nth": nth})
                op["new"] = dict(f, seed=r.randrange(1 << 20)) if r.chance(.5) else gen_file(r, f["kind"])
        ops.append(["load", op])
        if (op["faults"] or op["damage"]) and r.chance(.7):
            ops.append(["load", {"name": key, "style": op["style"], "ext": op["ext"], "delivery": disk.gen_delivery(r), "faults": [], "damage": None}])
    return {"ops": ops, "few": r.chance(.3), "stamps": r.pick(disk.STAMPS)}


def execute(trace):
    import newt.read_multiFor as rm

    def go():
        world.fresh_process(stall=True)
        d = disk.Disk(["mom", "x/mom", "y/mom"])
        d.how = trace.get("stamps", "step")
        if trace.get("few"):
            disk.few_descriptors()
        stats, log, viol, states = core.Stats(), [], None, []
        stats.add("fault.stamps_" + d.how, int(d.how != "step"))
        files, last = {}, None
        for k, op in enumerate(trace["ops"]):
            if viol:
                break
            if op[0] == "write":
                f = op[2]
                files[op[1]] = f
                d.put(where(op[1]), text(f))
                continue
            if op[0] == "edit":
                if last is not None:
                    V.scribble(last, k)
                    stats.add("probe.caller_edits")
                continue
            o = op[1]
            f = files.get(o["name"])
            if f is None:
                continue
            viol, last = one_load(rm, d, f, o, k, stats, log, states, last)
            if d.texts.get(where(o["name"])) != text(f).encode():
                files[o["name"]] = o["new"]
        os.chdir("/")
        d.close()
        return {"violation": viol, "digest": core.digest([log, viol]), "stats": dict(stats), "states": states, "log": log,
                "nontrivial": any(s.startswith("fault.") for s in stats), "sim_time": world.CLOCK.elapsed()}
    st, r = core.isolate(go, 60)
    if st != "ok":
        raise core.HarnessError("run died %r" % (r,))
    return r


def where(key):
    top, stem, kind = key.split("|")
    return "%smom/%s.%s" % (top, stem, kind)


def one_load(rm, d, f, o, k, stats, log, states, last):
    rel = where(o["name"])
    top, stem, _ = o["name"].split("|")
    full = text(f).encode()
    must_fail, prefix_len = None, None
    dmg = o.get("damage")
    os.chdir(d.root + "/" + top + ("mom" if o["style"] in ("here", "deep") else ""))
    folder = {"abs": d.root + "/" + top + "mom/", "dots": d.root + "/" + top + "mom/../mom/", "rel": "mom/", "here": "", "deep": "../mom/"}[o["style"]]
    if dmg:
        stats.add("fault.file_" + sorted(dmg)[0])
        if "missing" in dmg:
            os.remove(d.root + "/" + rel)
            must_fail = "the file is missing"
            stats.add("probe.namesake_elsewhere", int(any(x != rel and os.path.basename(x).split(".g")[0] == stem for x in d.texts)))
        elif "nofolder" in dmg:
            folder = d.root + "/" + top + "mom2/"
            must_fail = "the folder is missing"
        else:
            if "drop" in dmg:
                eol = f["eol"].encode()
                lines = (full[:-len(eol)] if f["last"] else full).split(eol)
                data = eol.join(lines[:max(0, len(lines) - dmg["drop"])]) + eol
            else:
                data = full[:dmg["keep"]]
            d.write(rel, data)
            prefix_len = len(data)
    if "new" in o:
        d.write("new", text(o["new"]).encode())
        d.texts["new"] = text(o["new"]).encode()
    name = stem + ("." + f["kind"] if o["ext"] else "")
    fn = rm.read_gsq if f["kind"] == "gsq" else rm.read_gbq
    ids = d.arm(o["delivery"], o["faults"])
    try:
        out = world.outcome(fn, [name, folder])
    finally:
        fired = d.disarm(ids, stats, o["faults"])
    want = table(f)
    desc = "step %d loading %s (degree %d)" % (k, rel, f["L"])
    kinds = {x["act"] for x, y in zip(o["faults"], fired) if y}
    cut_at = None
    if "errno" in kinds:
        must_fail = "%s failed with %s" % (o["faults"][-1]["op"], o["faults"][-1]["err"])
    # did the swap take effect on disk?
    swapped = "swap" in kinds and not os.path.exists(d.root + "/new")
    if "trunc" in kinds:
        prefix_len = min(len(full), next(x["arg"] for x in o["faults"] if x["act"] == "trunc"))
    viol = None
    if prefix_len is not None and "trunc" not in kinds and lacking(f, full[:prefix_len]):
        must_fail = "only %d of %d bytes of it exist and coefficients are missing" % (prefix_len, len(full))
    partial = prefix_len is not None and prefix_len < len(full) or "eof" in kinds or "trunc" in kinds
    if out[0] == "ret":
        wants = [want]
        if swapped:
            wants.append(table(o["new"]))
        errs = [wrong(out[1], w, skip_last=partial) for w in wants]
        if must_fail:
            viol = {"class": "accepted-incomplete", "detail": "%s returned normally although %s" % (desc, must_fail)}
        elif all(errs):
            cls = "accepted-incomplete" if partial else "wrong-moments"
            viol = {"class": cls, "detail": "%s: %s" % (desc, errs[0])}
        elif not out[1].flags.writeable:
            viol = {"class": "wrong-moments", "detail": desc + ": the returned table is read-only"}
        last = out[1]
    else:
        if not (must_fail or partial):
            viol = {"class": "refused-complete", "detail": "%s raised %s although every byte was delivered" % (desc, out[1])}
        stats.add("probe.refused")
    if kinds or dmg:
        states.append(core.digest([f["kind"], f["L"], sorted(kinds), sorted(dmg or {}), out[0], o["delivery"].get("chop", [0, 0])[1], [x.get("nth") for x in o["faults"]]]))
    else:
        states.append(core.digest([f["kind"], f["L"], f["fmt"], f["eol"], o["delivery"].get("chop", [0, 0])[1:], o["ext"], o["style"], top]))
    stats.add("probe.path_" + o["style"])
    log.append([k, out[0], V.digest(out[1]) if out[0] == "ret" else out[1], sorted(kinds)])
    # restore the disk
    if dmg or "trunc" in kinds:
        d.write(rel, full)
    if "new" in o:
        if swapped:
            d.texts[rel] = d.texts.pop("new")
        elif os.path.exists(d.root + "/new"):
            os.remove(d.root + "/new")
            d.texts.pop("new")
    ch = d.unchanged()
    if ch and not viol:
        viol = {"class": "disk-changed", "detail": "%s: %s" % (desc, ch)}
    return viol, last


def lacking(f, data):
    """Does this prefix lack at least one whole coefficient record?"""
    recs = records(f)
    lines = data.decode(errors="replace").replace("\r\n", "\n").replace("\r", "\n").split("\n")[9:]
    whole = [ln for ln in lines if len(ln.split()) >= 2]
    return len(whole) < len(recs)


def shrink(trace):
    from .checks.common import shrink_list
    yield from shrink_list(trace, "ops", 1)
    if trace.get("few"):
        yield dict(trace, few=False)
    for i, op in enumerate(trace["ops"]):
        def rep(new):
            t = copy.deepcopy(trace)
            t["ops"][i] = new
            return t
        if op[0] == "load":
            o = op[1]
            if o["delivery"]:
                yield rep(["load", dict(o, delivery={})])
            if o["style"] != "abs":
                yield rep(["load", dict(o, style="abs")])
            for j in range(len(o["faults"])):
                yield rep(["load", dict(o, faults=o["faults"][:j] + o["faults"][j + 1:])])
        if op[0] == "write":
            f = op[2]
            for L in (0, 1, 2, 3):
                if L < f["L"]:
                    yield rep(["write", op[1], dict(f, L=L)])
            plain = dict(f, fmt="r", title="part", l1="0", head=["h"] * 7, ind="", sep=" ", tail="", eol="\n", last=True)
            if plain != f:
                yield rep(["write", op[1], plain])
