"""Histories of calls in one Octave session (C16): one real Octave process per simulated history."""
import copy
import math
import os
import shutil
import subprocess
import tempfile
from . import core, values as V

# ------------------------------------------------------------------ arguments: [kind, rows, columns, values...]
def mat(rows, kind="d"):
    return [kind, len(rows), len(rows[0]) if rows else 4, [x for r in rows for x in r]]


def num(x, kind="d"):
    return [kind, 1, 1, [x]]


def val(r):
    return r.weighted([(round(r.uniform(-3, 3), 3), 6), (0.0, 1), (1.0, 1), (-1.0, 1), (-0.0, .2), (r.uniform(-1, 1) * 10 ** r.randrange(-6, 4), 1)])


def pts(r, n=None):
    n = r.weighted([(1, 2), (2, 2), (3, 2), (r.randrange(4, 9), 2), (0, .15)]) if n is None else n
    return mat([[abs(val(r)) + .01, val(r), val(r), val(r)] for _ in range(n)])


def pos(r):
    return r.pick([1.0, .5, 2.0, r.uniform(.1, 4), 1e-3])


def ang(r):
    return r.pick([0.0, math.pi, math.pi / 2, .3, -.3, 1e-9, r.uniform(-7, 7), 2 * math.pi])


def vec(r):
    return mat([[val(r), val(r), val(r)]]) if r.chance(.9) else mat([[0.0, 0.0, 0.0]])


def lm(r):
    l = r.randrange(0, 6)
    return [num(l), num(r.randrange(0, l + 1))]


def scan(r):
    n = r.randrange(4, 10)
    return mat([[x + r.uniform(-.1, .1), y + r.uniform(-.1, .1), r.uniform(0, 3)] for x in range(3) for y in range(n // 2)])


def heights(r):
    a, b = r.randrange(1, 5), r.randrange(1, 5)
    return mat([[r.pick([0.0, r.uniform(0, 4), 2.0, 1.0, r.uniform(0, 4)]) for _ in range(b)] for _ in range(a)])


def cnt(r):
    return num(r.weighted([(1, 2), (2, 3), (3, 3), (r.randrange(4, 9), 3)]))


# name: (argument maker, number of results, weight, draws random numbers)
T = {
    "Gmmr2Array": (lambda r: [pts(r, 1), pts(r)], 1, 2, False),
    "pointMatrixGravity": (lambda r: [pts(r), pts(r)], 2, 3, False),
    "translatePMArray": (lambda r: [pts(r), vec(r)], 1, 2, False),
    "rotatePMArray": (lambda r: [pts(r), num(ang(r)), vec(r)], 1, 3, False),
    "computeMoments": (lambda r: lm(r) + [pts(r)], 1, 3, False),
    "computeMomentSummary": (lambda r: [num(r.randrange(0, 4)), pts(r)], 1, 2, False),
    "YLM": (lambda r: lm(r) + [num(ang(r)), num(ang(r))], 1, 3, False),
    "scanCenterAndRemoveLinear": (lambda r: [scan(r)], 1, 1.5, False),
    "scanToPMArray": (lambda r: [scan(r), num(r.pick([.5, .3, 1.0])), num(r.pick([.5, .3, 1.0])), num(r.pick([.5, .4, 1.0])), num(pos(r))], 1, 1, False),
    "genPointMassArrayFrom2DArray": (lambda r: [heights(r), num(pos(r)), num(pos(r)), num(r.pick([.5, .25, 1.0])), num(pos(r))], 1, 2.5, False),
    "genPointMassLine": (lambda r: [num(pos(r)), num(val(r)), num(val(r)), num(val(r)), num(pos(r)), cnt(r)], 1, 1.5, False),
    "genPointMassXRing": (lambda r: [num(pos(r)), num(pos(r)), cnt(r)], 1, 2, False),
    "genPointMassRect": (lambda r: [num(pos(r)) for _ in range(4)] + [cnt(r), num(r.randrange(1, 4)), num(r.randrange(1, 4))], 1, 2.5, False),
    "genPointMassAnnlSheet": (lambda r: [num(pos(r)), num(r.pick([0.0, .2, .5])), num(r.pick([1.0, .8, 2.0])), num(pos(r)), num(r.randrange(1, 4)), num(r.randrange(2, 7))], 1, 2.5, False),
    "genPointMassRandomDisk": (lambda r: [num(pos(r)), num(r.pick([0.0, .2, .5])), num(r.pick([1.0, .8, 2.0])), cnt(r)], 1, 1, True),
    "genPointMassRandomRectangle": (lambda r: [num(pos(r)), num(pos(r)), num(pos(r)), cnt(r)], 1, 1, True),
    "genPointMassSphericalRandomShell": (lambda r: [num(pos(r)), num(pos(r)), cnt(r)], 1, 1, True),
}
NAMES = [(n, t[2]) for n, t in T.items()]


def make(r, name):
    f, nout, _, rnd = T[name]
    return {"k": "call", "f": name, "a": f(r), "nout": r.randrange(1, nout + 1), "fail": -1, "seed": r.randrange(100) if rnd else -1}


def sibling(r, c):
    """A call of the same routine with nearly the same arguments."""
    c = copy.deepcopy(c)
    c["fail"] = -1
    a = r.pick(c["a"])
    x = r.random()
    if x < .2:
        return make(r, c["f"])
    if x < .45 and len(a[3]) == 1:
        a[3][0] = r.pick([a[3][0] + 1, -a[3][0], a[3][0] * (1 + 1e-9), a[3][0] * 1.0000001, a[3][0] + 1e-7]) if a[3][0] != int(a[3][0]) else r.pick([a[3][0] + 1, max(1, a[3][0] - 1), a[3][0]])
    elif x < .8 and a[3]:
        j = r.randrange(len(a[3]))
        a[3][j] = r.pick([a[3][j] + 1e-9, a[3][j] * 1.0000001, -a[3][j], val(r), a[3][j] + 1])
    elif x < .9 and a[1] > 1:
        n = a[2]
        a[1] -= 1
        a[3] = a[3][:-n]
    elif x < .95 and len(a[3]) > 1:
        a[3] = a[3][::-1]
    elif c["seed"] >= 0:
        c["seed"] += 1
    tidy(c)
    return c


def tidy(c):
    if c["f"] in ("YLM", "computeMoments"):          # degree and order
        l = int(min(12, abs(c["a"][0][3][0])))
        c["a"][0][3][0] = l
        c["a"][1][3][0] = int(min(l, abs(c["a"][1][3][0])))
    if c["f"] == "computeMomentSummary":
        c["a"][0][3][0] = int(min(4, abs(c["a"][0][3][0])))
    if c["f"].startswith("genPoint") and c["f"] != "genPointMassArrayFrom2DArray":
        cnts = {"genPointMassRect": [4, 5, 6], "genPointMassAnnlSheet": [4, 5]}.get(c["f"], [len(c["a"]) - 1])
        for i in cnts:
            c["a"][i][3][0] = int(min(12, max(1, abs(c["a"][i][3][0]))))
    if c["f"] == "genPointMassRandomDisk" or c["f"] == "genPointMassAnnlSheet":
        i, o = c["a"][1][3], c["a"][2][3]
        o[0] = abs(o[0]) or 1.0
        i[0] = min(abs(i[0]), .7 * o[0])
    if c["f"] in ("scanToPMArray", "genPointMassArrayFrom2DArray"):
        for a in c["a"][1:]:
            a[3][0] = min(4.0, max(.2, abs(a[3][0])))
        c["a"][0][3] = [max(-20.0, min(20.0, x)) for x in c["a"][0][3]]


def odd(r, c):
    """An argument no routine can use, or of another type."""
    c = copy.deepcopy(c)
    if c["seed"] >= 0:                                # with these a random shape may have no point to find
        return c
    a = r.pick(c["a"])
    if c["f"] in ("scanToPMArray", "genPointMassArrayFrom2DArray") or r.chance(.4):
        a[0] = r.pick(["c", "x"])
        if a[0] == "c":
            a[3] = [float(32 + abs(int(x)) % 90) for x in a[3]]
        return c
    x = r.random()
    if x < .3:
        a[0] = r.pick(["s", "s", "i"])
        if a[0] == "i":
            a[3] = [float(int(x)) for x in a[3]]
    elif x < .6 and a[2] > 1:
        n = a[2]
        a[3] = [v for k, v in enumerate(a[3]) if k % n != n - 1]
        a[2] = n - 1
    elif x < .8:
        c["a"].pop()
    elif a[3] and len(a[3]) > 1:
        a[3][r.randrange(len(a[3]))] = r.pick([float("nan"), float("inf")])
    return c


ENV = [lambda r: ["chdir", r.pick(["one", "two"])], lambda r: ["format", r.pick(["long", "short"])], lambda r: ["seed", str(r.randrange(1000))],
       lambda r: ["global", r.pick(["G", "m", "c", "R", "eps0", "array", "theta", "mass", "lib", "points"]), r.pick(["17", "[1 2 3]", "'text'", "{}"])],
       lambda r: ["warn", r.pick(["on", "off"]), r.pick(["Octave:language-extension", "Octave:divide-by-zero", "Octave:some-id"])],
       lambda r: ["env", "SIM_A", str(r.randrange(9))], lambda r: ["precision", str(r.pick([3, 5, 12]))]]


def gen(r):
    focus = [r.weighted(NAMES) for _ in range(r.pick([1, 1, 2, 3]))]
    base = {f: make(r, f) for f in focus}
    made, ops = [], []
    n = r.randrange(8, 40)
    for _ in range(n):
        x = r.random()
        if x < .12:
            e = r.pick(ENV)(r)
            ops.append({"k": e[0], "w": e[1:]})
            continue
        f = r.pick(focus) if r.chance(.85) else r.weighted(NAMES)
        if f not in base:
            base[f] = make(r, f)
        same = [m for m in made if m["f"] == f]
        c = copy.deepcopy(base[f]) if r.chance(.2) else sibling(r, r.pick(same) if same and r.chance(.8) else base[f])
        c["fail"] = -1
        if r.chance(.1):
            ops.append(odd(r, c))
            continue
        made.append(c)
        if r.chance(.2):
            d = copy.deepcopy(c)
            d["fail"] = round(r.random() * .999, 4)
            ops.append(d)
            if r.chance(.5):
                ops.append(c)
            continue
        ops.append(c)
    return {"ops": ops}


def text(trace):
    out = []
    for o in trace["ops"]:
        if o["k"] != "call":
            out.append(" ".join([o["k"]] + o["w"]))
            continue
        out.append("call %s %d %d %.4f %d" % (o["f"], o["nout"], len(o["a"]), o["fail"], o["seed"]))
        for k, m, n, v in o["a"]:
            out += [k, " ".join(["%d %d" % (m, n)] + ["%.17g" % x for x in v])]
    return "\n".join(out) + "\n"


def parse(t):
    """ret | class dims : numbers [i numbers] | ..."""
    res = []
    for part in t.split(" | ")[1:]:
        head, _, body = part.partition(" :")
        res.append([head, [[float(x) for x in p.split()] for p in body.split(" i")]])
    return res


def differs(got, want):
    if got == want:
        return None
    if got[:3] != want[:3]:
        return "%s, but alone it %s" % (brief(got), brief(want))
    if got.startswith("exc"):
        return None
    a, b = parse(got), parse(want)
    if [x[0] for x in a] != [x[0] for x in b]:
        return "returned %s, but alone it returned %s" % ([x[0] for x in a], [x[0] for x in b])
    for x, y in zip(a, b):
        if len(x[1]) != len(y[1]):
            return "returned real numbers where it returns complex ones alone, or the reverse"
        for p, q in zip(x[1], y[1]):
            s = max([abs(v) for v in q if math.isfinite(v)] or [0])
            tol = (1e-5 if "single" in x[0] else 1e-11) * s
            for v, w in zip(p, q):
                if v != w and not (v != v and w != w) and not abs(v - w) <= tol:
                    return "returned %.17g where it returns %.17g alone" % (v, w)
    return None


def brief(t):
    return "raised an error (%s)" % t[4:100] if t.startswith("exc") else "returned%s" % t[5:60]


def octave(code, d, timeout=300):
    env = {k: v for k, v in os.environ.items() if k not in ("LD_PRELOAD", "SIM_SHIM")}
    env.update(HOME=d, OCTAVE_HISTFILE=d + "/hist", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    try:
        return subprocess.run(["octave-cli", "--no-init-file", "--no-history", "-q", "--eval", code], env=env, cwd=d, stdin=subprocess.DEVNULL,
                              stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise core.HarnessError("octave gave no answer within %d s" % timeout)


def run(trace):
    d = tempfile.mkdtemp(prefix="vses-")
    try:
        os.makedirs(d + "/one")
        os.makedirs(d + "/two")
        with open(d + "/in", "w") as h:
            h.write(text(trace))
        src = core.REPO + "/matlab-src"
        p = octave('warning("off","all"); pkg load gsl; addpath("%s/shapes"); addpath("%s"); addpath("%s/octave/session"); addpath("%s/octave/session/fault"); session("%s/in","%s/out","%s")'
                   % (src, src, core.VERIF, core.VERIF, d, d, d), d)
        out = open(d + "/out").read().split("\n") if os.path.exists(d + "/out") else []
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if len(out) < 4 * len(trace["ops"]):
        raise core.HarnessError("octave ended after %d of %d steps: %s" % (len(out) // 4, len(trace["ops"]), p.stderr[-500:]))
    st, states, viol, log = core.Stats(), [], None, []
    prev = {}
    for k, o in enumerate(trace["ops"]):
        if o["k"] != "call":
            st.add("fault.session_" + o["k"])
            continue
        head, got, want, diff = out[4 * k:4 * k + 4]
        fired, _, vs = head.partition(" ")
        name = "step %d %s" % (k, spell(o))
        st.add("calls")
        if fired == "1":
            st.add("fault.out_of_memory")
        if want.startswith("exc"):
            st.add("probe.unusable_arguments")
        log.append([k, got[:200], fired])
        if vs:
            viol = {"class": "caller-changed", "detail": "%s changed the caller's %s" % (name, vs.replace("-", " "))}
        elif diff.strip():
            viol = {"class": "settings-changed", "detail": "%s%s changed the session's %s" % (name, " (which ran out of memory)" if fired == "1" else "", ", ".join(diff.split()))}
        elif fired != "1":
            w = differs(got, want)
            if w:
                viol = {"class": "history-dependent", "detail": "%s: %s" % (name, w)}
        if viol:
            break
        for p in prev.get(o["f"], [])[-4:]:
            states.append(core.digest([o["f"], p, o["a"], fired])[:12])
        prev.setdefault(o["f"], []).append(core.digest([o["a"], fired]))
    return {"violation": viol, "digest": core.digest([log, viol]), "stats": dict(st), "states": states, "log": log[:5],
            "nontrivial": any(len(v) > 1 for v in prev.values()), "sim_time": 0.0}


def spell(o):
    def sp(a):
        k, m, n, v = a
        t = "%g" % v[0] if len(v) == 1 else "<%dx%d>" % (m, n) if len(v) > 4 else "[%s]" % " ".join("%.6g" % x for x in v)
        return {"d": ""}.get(k, k + ":") + t
    return "%s(%s)" % (o["f"], ", ".join(sp(a) for a in o["a"]))


def shrink(trace):
    from .checks.common import shrink_list
    yield from shrink_list(trace, "ops", 1)
    for i, o in enumerate(trace["ops"]):
        if o["k"] == "call":
            for j, a in enumerate(o["a"]):
                if a[1] > 1:
                    t = copy.deepcopy(trace)
                    b = t["ops"][i]["a"][j]
                    b[1], b[3] = 1, b[3][:b[2]]
                    yield t
