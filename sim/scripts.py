"""Histories of script runs on a simulated disk (C07 without failing operations, C08 with them)."""
import copy
import os
import numpy as np
from . import core, disk, mpc, world, values as V


FOLDERS = ["mpc", "mpc", "mpc", "a/mpc", "mpc-runs/mpc", "newt/tests/mpc"]


def gen(r, faulty):
    """One project, or two whose scripts and components have the same names, worked on by turns."""
    folder = r.pick(FOLDERS)
    t = {"ops": gen_project(r, faulty), "folders": [folder], "few": r.chance(.3)}
    if r.chance(.2):
        t["folders"].append(r.pick([f for f in FOLDERS if f != folder]))
        if r.chance(.5):                 # the same scripts with components of the same names but other content
            other = copy.deepcopy(t["ops"])
            for op in other:
                if op[0] == "part":
                    op[2] = r.randrange(40)
        else:
            other = gen_project(r, faulty)
        a, b, out, at = t["ops"], other, [], 0
        while a or b:
            k = 0 if not b else 1 if not a else int(r.chance(.5))
            if k != at:
                out.append(["at", k])
                at = k
            out.append((a, b)[k].pop(0))
        t["ops"] = out
    styles = r.pick([["abs"], ["abs"], ["abs", "dots"], ["rel"], ["rel", "abs", "top"]])
    for op in t["ops"]:
        if op[0] == "run":
            op[1]["style"] = r.pick(styles)
    t["stamps"] = r.pick(disk.STAMPS)
    return t


def gen_project(r, faulty):
    L = r.weighted([(1, .6), (2, 3), (3, 3), (4, 2), (5, 2), (6, .7), (8, .3)])
    ops = []
    parts, scripts, pool = {}, {}, []
    slow = not faulty and r.chance(.004)
    if slow:
        L = 1
    for k in range(r.pick([0, 1, 2, 3]) if not faulty else r.pick([1, 2, 2, 3])):
        n = r.pick(mpc.NAMES)
        n = n % k if "%" in n else n
        parts[n] = [r.randrange(40), L]
        ops.append(["part", n, parts[n][0], L, {"eol": r.pick(["\n", "\r\n"])}])
    n = r.randrange(2, 6) if not slow else 1
    while n:
        sn = r.pick(["s", "s", "t", "load it", "part"])
        if sn not in scripts or r.chance(.5):
            prog = mpc.gen_program(r, L, sorted(parts) if not faulty or not r.chance(.6) else sorted(parts) * 2, slow=slow, pool=pool)
            if faulty and r.chance(.7) and parts:      # fault targets: programs that load
                at = r.randrange(len(prog) + 1) if prog[-1][0] != "end" else r.randrange(len(prog))
                if not any(c[0] == "unknown" for c in prog[:at]) and not any(c[0] == "end" for c in prog[:at]):
                    prog[at:at] = [["load", r.pick(sorted(parts))], ["add"]]
            scripts[sn] = [prog, mpc.gen_style(r)]
            ops.append(["script", sn, prog, scripts[sn][1]])
        if parts and r.chance(.15):
            pn = r.pick(sorted(parts))
            ops.append(["part", pn, r.randrange(40), L, {}])
        if r.chance(.12):
            ops.append(["edit"])
        o = {"name": sn, "ext": r.randrange(2), "L": L, "delivery": disk.gen_delivery(r) if r.chance(.4) else {}, "faults": [], "damage": None}
        prog = scripts[sn][0]
        used = [c[1] for c in prog if c[0] == "load"]
        if parts and r.chance(.06):
            o["L"] = L + (r.pick([1, -1]) if L not in (1, 5) else 1 if L == 1 else -1)
        if faulty and r.chance(.65):
            kind = r.weighted([("errno_open", 2), ("errno_read", 3), ("missing", 2), ("torn", 3), ("drop", 3), ("eof", 2), ("trunc", 2), ("swap", 2), ("degree", 2), ("noscript", .7), ("cutblock", 1.5), ("stolen", .7)])
            tgt = r.pick(used) if used else None
            path = "/%s.gsq" % tgt if tgt and r.chance(.75) else "/%s.mpc" % sn
            chop = o["delivery"].get("chop")
            nread = 3 if not chop else max(1, min(40, 1200 // max(1, chop[1])))
            nth = r.randrange(1, nread + 1)
            if kind == "errno_open":
                o["faults"].append({"op": "open", "path": path, "act": "errno", "err": r.pick(disk.OPEN_ERR), "nth": r.pick([1, 1, 2]), "last": 1 << 30})
            elif kind == "errno_read":
                o["faults"].append({"op": "read", "path": path, "act": "errno", "err": r.pick(disk.READ_ERR), "nth": r.pick([1, nth]), "last": r.pick([nth, 1 << 30])})
            elif kind == "noscript":
                o["damage"] = {"kind": "missing", "path": "mpc", "name": sn}
            elif kind == "cutblock":
                cr = [k for k, c in enumerate(prog) if c[0] == "create"]
                if cr:
                    o["damage"] = {"kind": "cutblock", "at": r.pick(cr), "lines": r.pick([1, 2, 3])}
            elif kind == "swap":
                nf = "script" if path.endswith("mpc") else "part"
                o["faults"].append({"op": r.pick(["open", "read"]), "path": path, "act": "swap", "aux": "new", "nth": r.pick([1, 2])})
                o["new"] = [nf, tgt, r.randrange(40)] if nf == "part" else [nf, sn, mpc.gen_program(r, L, sorted(parts)), mpc.gen_style(r)]
            elif tgt:
                if kind == "missing":
                    o["damage"] = {"kind": "missing", "path": "mom", "name": tgt}
                elif kind == "stolen":                  # the component lies in the script folder only
                    o["damage"] = {"kind": "stolen", "name": tgt}
                elif kind == "torn":
                    o["damage"] = {"kind": "torn", "name": tgt, "frac": r.random()}
                elif kind == "drop":
                    o["damage"] = {"kind": "drop", "name": tgt, "n": r.pick([1, 1, 2, 3])}
                elif kind == "degree":
                    o["damage"] = {"kind": "degree", "name": tgt, "L": max(1, L + r.pick([-1, 1, 2, -2]))}
                elif kind == "eof":
                    o["faults"].append({"op": "read", "path": "/%s.gsq" % tgt, "act": "eofat", "frac": r.random(), "nth": 1, "last": 1 << 30})
                elif kind == "trunc":
                    o["faults"].append({"op": r.pick(["open", "read"]), "path": "/%s.gsq" % tgt, "act": "trunc", "frac": r.random(), "nth": r.pick([1, nth])})
        ops.append(["run", o])
        if (o["faults"] or o["damage"]) and r.chance(.8):
            ops.append(["run", {"name": sn, "ext": o["ext"], "L": L, "delivery": {}, "faults": [], "damage": None}])
        n -= 1
    return ops


def reached(prog):
    """Commands that are carried out."""
    out, skip = [], False
    for c in prog:
        if c[0] == "end":
            break
        if c[0] == "create":
            skip = False
        if skip:
            continue
        if c[0] == "unknown":
            skip = True
        out.append(c)
    return out


def execute(trace):
    import newt.read_multiFor as rm
    pairs = [(fd, "mom".join(fd.rsplit("mpc", 1))) for fd in trace["folders"]]

    def go():
        world.fresh_process(stall=True)
        d = disk.Disk([x for p in pairs for x in p])
        d.how = trace.get("stamps", "step")
        if trace.get("few"):
            disk.few_descriptors()
        st, log, states = core.Stats(), [], []
        st.add("fault.stamps_" + d.how, int(d.how != "step"))
        ws = [{"rm": rm, "d": d, "fd": fd, "md": md, "parts": {}, "scripts": {}, "stats": st, "log": log, "states": states, "last": None} for fd, md in pairs]
        viol, w = None, ws[0]
        for k, op in enumerate(trace["ops"]):
            fd, md = w["fd"], w["md"]
            if op[0] == "at":
                w = ws[min(op[1], len(ws) - 1)]
                st.add("probe.other_project")
            elif op[0] == "part":
                w["parts"][op[1]] = op[2:5]
                d.put("%s/%s.gsq" % (md, op[1]), mpc.part_text(op[2], op[3], op[4]))
            elif op[0] == "script":
                w["scripts"][op[1]] = op[2:4]
                d.put("%s/%s.mpc" % (fd, op[1]), mpc.render(op[2], op[3]))
            elif op[0] == "edit":
                if w["last"] is not None:
                    V.scribble(w["last"], k)
                    w["stats"].add("probe.caller_edits")
            elif op[1]["name"] in w["scripts"]:
                viol = one_run(w, op[1], k)
                if viol:
                    break
        os.chdir("/")
        d.close()
        return {"violation": viol, "digest": core.digest([log, viol]), "stats": dict(st), "states": states, "log": log,
                "nontrivial": any(s.startswith("fault.") for s in st) or len(log) > 1, "sim_time": world.CLOCK.elapsed()}
    st, r = core.isolate(go, 90)
    if st != "ok":
        raise core.HarnessError("run died %r" % (r,))
    return r


def one_run(w, o, k):
    d, stats, rm = w["d"], w["stats"], w["rm"]
    L = o["L"]
    prog, style = w["scripts"][o["name"]]
    exe = reached(prog)
    used = [c[1] for c in exe if c[0] == "load"]
    desc = "step %d running %s.mpc (degree %d)" % (k, o["name"], L)
    missing = [n for n in used if n not in w["parts"]]
    if missing:                    # a minimised history no longer writes this part
        return None
    must = None
    srel = "%s/%s.mpc" % (w["fd"], o["name"])
    for n in used:
        if w["parts"][n][1] != L:
            must = "component %s has degree %d" % (n, w["parts"][n][1])
            stats.add("fault.degree_mismatch")
    dm = o.get("damage")
    undo = []

    def patch(rel, data):
        undo.append((rel, d.texts[rel]))
        if data is None:
            os.remove(d.root + "/" + rel)
        else:
            d.write(rel, data)
    effective = False
    if dm:
        kd, effective = dm["kind"], True
        rel = "%s/%s.gsq" % (w["md"], dm.get("name"))
        if kd == "cutblock" and (dm["at"] >= len(prog) or prog[dm["at"]][0] != "create"):
            kd, effective = None, False
        elif kd == "missing" and dm["path"] == "mpc":
            patch(srel, None)
            must = "the script is missing"
        elif kd == "cutblock":
            full = d.texts[srel]
            eol = style.get("eol", "\n")
            before = mpc.render(prog[:dm["at"]], dict(style, lasteol=True)).count(eol)
            keep = mpc.render(prog[:dm["at"] + 1], style).split(eol)[:before + dm["lines"]]
            patch(srel, (style.get("eol", "\n").join(keep)).encode())
            if any(c is prog[dm["at"]] for c in exe):
                must = "the script ends inside a create command"
            else:
                effective = False
        elif dm.get("name") in used:
            if kd == "missing":
                patch(rel, None)
                must = "component %s is missing" % dm["name"]
            elif kd == "stolen":
                patch(rel, None)
                stray = "%s/%s.gsq" % (w["fd"], dm["name"])
                d.write(stray, d.texts[rel])
                undo.append((stray, None))
                must = "component %s is missing from the moment folder" % dm["name"]
            elif kd in ("torn", "drop"):
                full = d.texts[rel]
                seed, pl = w["parts"][dm["name"]][:2]
                nrec = (pl + 1) * (pl + 2) // 2
                lines = full.splitlines(keepends=True)
                if kd == "drop":
                    data = b"".join(lines[:-dm["n"]])
                else:
                    body = len(full) - len(lines[-1].split()[-1]) - 2       # before the last number
                    data = full[:int(dm["frac"] * body)]
                patch(rel, data)
                must = "component %s is incomplete" % dm["name"]
            elif kd == "degree":
                seed, pl = w["parts"][dm["name"]][:2]
                patch(rel, mpc.part_text(seed, dm["L"], {}).encode())
                if dm["L"] != L:
                    must = "component %s has degree %d" % (dm["name"], dm["L"])
                else:
                    must = None if all(w["parts"][n][1] == L for n in used if n != dm["name"]) else must
        else:
            effective = False
        if effective:
            stats.add("fault.file_" + kd)
    if "new" in o:
        nw = o["new"]
        txt = mpc.part_text(nw[2], w["parts"].get(nw[1], [0, L])[1], {}) if nw[0] == "part" else mpc.render(nw[2], nw[3])
        d.write("new", txt.encode())
    faults = [dict(f) for f in o["faults"]]
    for f in faults:
        if "frac" in f:                 # a byte position before the last number of the component
            t = d.texts["%s%s" % (w["md"], f["path"])]
            f["arg"] = int(f["frac"] * (t.rindex(b" ") + 1))
    how = o["style"]
    os.chdir(d.root + "/" + (w["fd"][:-3] if how == "rel" else ""))
    folder = {"abs": d.root + "/" + w["fd"] + "/", "dots": d.root + "/" + w["fd"] + "/../mpc/", "rel": "mpc/", "top": w["fd"] + "/"}[how]
    stats.add("probe.path_" + how)
    ids = d.arm(o["delivery"], faults)
    try:
        out = world.outcome(rm.read_mpc, [L, o["name"] + (".mpc" if o["ext"] else ""), folder])
    finally:
        fired = d.disarm(ids, stats, faults)
    acts = [f["act"] for f, x in zip(faults, fired) if x]
    maybe = None
    for f, x in zip(faults, fired):
        if x and f["act"] == "errno":
            must = "%s of %s failed with %s" % (f["op"], f["path"], f["err"])
        elif x and f["act"] in ("eofat", "trunc"):
            maybe = f
    swapped = "swap" in acts
    viol = None
    clouds = {n: mpc.part_cloud(p[0]) for n, p in w["parts"].items()}
    if out[0] == "ret":
        newscript = swapped and o["new"][0] == "script"
        if must and not newscript:
            viol = {"class": "partial-body", "detail": "%s returned normally although %s" % (desc, must)}
        else:
            wants = [(prog, style, clouds)] if not must else []
            if swapped:
                nw = o["new"]
                if nw[0] == "part":
                    wants += mixes(prog, style, clouds, nw)
                elif all(c[1] in clouds and w["parts"][c[1]][1] == L for c in reached(nw[2]) if c[0] == "load"):
                    wants.append((nw[2], nw[3], clouds))
                elif not wants:
                    viol = {"class": "partial-body", "detail": "%s returned normally although %s, and the script that replaced it loads an unusable component" % (desc, must)}
            if wants:
                errs = []
                for p, s, c in wants:
                    t, sc = mpc.reference(p, s, L, c)
                    errs.append(mpc.wrong(out[1], t, sc))
                    if not errs[-1]:
                        break
                if all(errs):
                    viol = {"class": "partial-body" if maybe else "wrong-body", "detail": "%s: %s" % (desc, errs[0])}
        w["last"] = out[1]
    else:
        stats.add("probe.refused")
        if not must and not maybe and not swapped:
            viol = {"class": "refused", "detail": "%s raised %s although every file was complete" % (desc, out[1])}
        if swapped and o["new"][0] == "script" and not viol:
            pass
    w["log"].append([k, out[0], V.digest(np.round(np.asarray(out[1], complex), 9)) if out[0] == "ret" else out[1], sorted(acts)])
    for c in exe:
        stats.add("probe.cmd_" + c[0])
    w["states"].append(core.digest([[c[0] for c in exe], sorted(acts), dm and dm["kind"] if effective else None, out[0]]))
    for rel, data in undo:
        if data is None:
            os.remove(d.root + "/" + rel)
        else:
            d.write(rel, data)
    if "trunc" in acts:
        rel = "%s/%s" % (w["md"], maybe["path"].strip("/"))
        d.write(rel, d.texts[rel])
    if "new" in o:
        if swapped and not os.path.exists(d.root + "/new"):
            nw = o["new"]
            if nw[0] == "part":
                d.texts["%s/%s.gsq" % (w["md"], nw[1])] = txt.encode()
                if nw[1] in w["parts"]:
                    w["parts"][nw[1]] = [nw[2], w["parts"][nw[1]][1], {}]
            else:
                d.texts[srel] = txt.encode()
                w["scripts"][nw[1]] = [nw[2], nw[3]]
        elif os.path.exists(d.root + "/new"):
            os.remove(d.root + "/new")
    ch = d.unchanged()
    if ch and not viol:
        viol = {"class": "disk-changed", "detail": "%s: %s" % (desc, ch)}
    return viol


def mixes(prog, style, clouds, nw):
    """A component replaced during a run that loads it several times: each load sees the old or (from some point on) the new one."""
    at = [i for i, c in enumerate(prog) if c[0] == "load" and c[1] == nw[1]]
    out = []
    for j in range(len(at) + 1):
        p = [list(c) for c in prog]
        for i in at[j:]:
            p[i] = ["load", "\0new"]
        out.append((p, style, dict(clouds, **{"\0new": mpc.part_cloud(nw[2])})))
    return out


def shrink(trace):
    from .checks.common import shrink_list
    yield from shrink_list(trace, "ops", 1)
    if trace.get("few"):
        yield dict(trace, few=False)
    if trace["folders"] == [x for x in trace["folders"][:1] if x != "mpc"]:
        yield dict(trace, folders=["mpc"])
    for i, op in enumerate(trace["ops"]):
        def rep(new):
            t = copy.deepcopy(trace)
            t["ops"][i] = new
            return t
        if op[0] == "script":
            sub = {"p": op[2]}
            for c in shrink_list(sub, "p", 1):
                yield rep(["script", op[1], c["p"], op[3]])
            if op[3] != {"num": "r"}:
                yield rep(["script", op[1], op[2], {"num": "r"}])
        if op[0] == "run":
            o = op[1]
            if o["delivery"]:
                yield rep(["run", dict(o, delivery={})])
            if o["style"] != "abs":
                yield rep(["run", dict(o, style="abs")])
            if o["faults"]:
                yield rep(["run", dict(o, faults=[])])
