"""Histories of displays of points and of random subsets in one Octave session (C17)."""
import copy
import math
import os
import shutil
import tempfile
from . import core, session, values as V


def stream(r, n, f):
    """Draws that decide which points are shown."""
    style = r.pick(["fair", "fair", "mix", "all", "none", "edge"])
    if style == "fair" or not n:
        return []
    out = []
    for _ in range(n):
        if style == "all":
            u = 2 ** -53
        elif style == "none":
            u = 1 - 2 ** -53
        elif style == "edge":
            u = r.pick([f, math.nextafter(f, 0), math.nextafter(f, 1)]) if 0 < f < 1 else r.random()
        else:
            u = r.pick([2 ** -53, 1 - 2 ** -53, f, r.random()])
        out.append(min(max(u, 2 ** -53), 1 - 2 ** -53))
    return out


def gen(r):
    ops = []
    for _ in range(r.randrange(3, 12)):
        big = r.chance(.06)
        n = [r.randrange(1500, 2500) if big else r.weighted([(0, .5), (1, 2), (2, 2), (r.randrange(3, 30), 4)]) for _ in range(2)]
        if big and r.chance(.5):
            n[1] = n[0]
        f = r.pick([.5, .3, .1]) if big else r.pick([0, 0, 1, 1, .5, .5, .1, .9, 1e-3, r.random()])
        o = {"n": n, "f": f, "x0": r.randrange(1, 2147483646), "pts": r.randrange(1 << 30), "s": [] if big else stream(r, sum(n), f), "fail": r.pick([0] * 12 + [1, 2])}
        if ops and r.chance(.2):
            o = copy.deepcopy(ops[-1])
            o["x0"] = r.randrange(1, 2147483646)
        o["all"] = int(r.chance(.25))
        if o["all"]:
            o.update(f=1, s=[], fail=0)
        ops.append(o)
    return {"ops": ops}


def points(o):
    r = V.Rng("show", o["pts"])
    # no two points at one place, unless made so: the mass tells nothing about the place
    sets = [[[round(r.uniform(.1, 3), 3)] + [round(r.uniform(-2, 2), 6) for _ in range(3)] for _ in range(n)] for n in o["n"]]
    for s in sets:
        if len(s) > 1 and r.chance(.1):
            s[1][1:] = s[0][1:]
    return sets


def judge(o, sets, res):
    w = res.split(" ; ")
    if w[0].startswith("exc"):
        return None if o["fail"] else ("raised", "raised an error (%s)" % w[0][4:120])
    if w[0].split()[1] != "1":
        return "changed", "changed its arguments"
    if w[0].split()[2] != "1":
        return "figures", "opened another figure"
    shown = {}
    for t in w[1:]:
        v = t.split()
        x = [float(a) for a in v[3:]]
        k = int(v[2])
        p = [tuple(x[3 * i:3 * i + 3]) for i in range(k)]
        if p == [(0.0, 0.0, 0.0)]:                       # the mark of the origin
            continue
        shown.setdefault(v[1], []).extend(p)
    left = [sorted(tuple(p[1:]) for p in s) for s in sets]
    groups = [sorted(p) for c, p in sorted(shown.items()) if p]
    both = sorted(left[0] + left[1])
    if len(groups) > 2:
        return "wrong-points", "shows %d differently coloured sets of points" % len(groups)

    def within(a, b):
        b = list(b)
        for x in a:
            if x not in b:
                return False
            b.remove(x)
        return True
    bs = [set(s) for s in left]
    cnt = [0, 0]
    for g in groups:
        fit = [k for k in (0, 1) if set(g) <= bs[k] and (len(g) < 100 or len(g) <= len(left[k])) and (len(g) >= 100 or within(g, left[k]))]
        if not fit:
            stray = [x for x in g if x not in bs[0] and x not in bs[1]]
            if stray:
                return "wrong-points", "shows a point at %s, where neither set has one" % (stray[0],)
            return "wrong-points", "shows points of both sets alike, or one point more than once"
        k = fit[0] if not cnt[fit[0]] else fit[-1]
        if cnt[k]:
            return "wrong-points", "shows the points of one set in two ways"
        cnt[k] = len(g)
    N, f = [len(s) for s in sets], o["f"]
    if f >= 1 and cnt != N:
        return "wrong-count", "shows %s of %s points, all were requested" % (cnt, N)
    if f <= 0 and any(cnt):
        return "wrong-count", "shows %s of %s points, none was requested" % (cnt, N)
    for k in (0, 1):
        if N[k] >= 1000 and not o["s"] and abs(cnt[k] - f * N[k]) > 7 * math.sqrt(N[k] * f * (1 - f)) + 1:
            return "wrong-count", "shows %d of %d points, requested fraction %g" % (cnt[k], N[k], f)
        if N[k] >= 1000 and not o["s"] and 0 < f < 1:
            half = sum(1 for p in sets[k][:N[k] // 2] if tuple(p[1:]) in {x for g in groups for x in g})
            if abs(half - cnt[k] / 2) > 7 * math.sqrt(cnt[k]) / 2 + 2:
                return "uneven", "shows %d points of the first half of a set and %d of the second" % (half, cnt[k] - half)
    return None


def run(trace):
    d = tempfile.mkdtemp(prefix="vshow-")
    all_sets = [points(o) for o in trace["ops"]]
    try:
        with open(d + "/in", "w") as h:
            for o, sets in zip(trace["ops"], all_sets):
                h.write("%d %d %.17g %d %d %d\n" % (o["n"][0], o["n"][1], o["f"], o["x0"], o["fail"], o["all"]))
                for s in sets:
                    h.write(" ".join("%.17g" % x for p in s for x in p) + "\n")
                h.write(" ".join("%.17g" % u for u in o["s"]) + "\n")
        src = core.REPO + "/matlab-src"
        p = session.octave('warning("off","all"); addpath("%s/shapes"); addpath("%s"); addpath("%s/octave"); show("%s/in","%s/out")' % (src, src, core.VERIF, d, d), d)
        out = open(d + "/out").read().splitlines() if os.path.exists(d + "/out") else []
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if len(out) != len(trace["ops"]):
        raise core.HarnessError("octave ended after %d of %d calls: %s" % (len(out), len(trace["ops"]), p.stderr[-500:]))
    st, states, viol = core.Stats(), [], None
    for k, (o, sets, res) in enumerate(zip(trace["ops"], all_sets, out)):
        st.add("probe.displays")
        if o["all"]:
            st.add("probe.displays_of_all")
        if o["s"]:
            st.add("fault.crafted_stream")
        if o["fail"] and res.startswith("exc"):
            st.add("fault.out_of_memory")
        bad = judge(o, sets, res)
        if bad:
            viol = {"class": bad[0], "detail": "step %d: displaying %s points, %s: the display %s" % (
                k, o["n"], "all of them" if o["all"] else "fraction %g, %s draws" % (o["f"], "crafted" if o["s"] else "fair"), bad[1])}
            break
        states.append(core.digest([o["n"] if max(o["n"]) < 60 else 60, o["f"], [u < o["f"] for u in o["s"]], o["fail"], o["all"]]))
    return {"violation": viol, "digest": core.digest([out, viol]), "stats": dict(st), "states": states, "log": [x[:300] for x in out[:3]],
            "nontrivial": any(x.startswith("fault.") for x in st), "sim_time": 0.0}


def shrink(trace):
    from .checks.common import shrink_list
    yield from shrink_list(trace, "ops", 1)
    for i, o in enumerate(trace["ops"]):
        for j in (0, 1):
            if o["n"][j] > 1:
                t = copy.deepcopy(trace)
                t["ops"][i]["n"][j] //= 2
                yield t
