"""The Octave random shapes under crafted random streams (C13): one real Octave process per simulated history."""
import copy
import math
import os
import shutil
import subprocess
import tempfile
import numpy as np
from . import core, shells, values as V

LIM = 6000000


def gen_stream(r, n, shell):
    """Blocks of pairs, then a fair stream started from x0; columns: a draw of n pairs is filled column by column."""
    x0 = r.randrange(1, 2147483646)
    if r.chance(.2):
        return {"x0": x0, "blocks": [], "col": 0}
    blocks = []
    style = r.pick(["none_first", "one", "mix", "mix", "same"])
    if style == "none_first":
        blocks.append([r.pick(["corner", "extreme", "edge_on"]), max(1, n) * r.pick([1, 1, 2, 5]) if shell else r.pick([1, 2, 10, 200, 2000])])
        if r.chance(.5):
            blocks.append([r.pick(shells.KINDS), r.randrange(1, 20)])
    elif style == "one":
        k = r.randrange(max(1, n))
        blocks += [["corner", k], [r.pick(["edge_in", "inside", "centre", "tiny"]), 1], ["corner", max(0, n - 1 - k)]]
    elif style == "same":
        blocks.append([r.pick(shells.KINDS), min(300, max(1, n))])
    else:
        for _ in range(r.randrange(1, 12)):
            blocks.append([r.pick(shells.KINDS), r.pick([1, 1, 2, 3, 7, 20])])
    return {"x0": x0, "seed": r.randrange(1 << 30), "blocks": [b for b in blocks if b[1] > 0], "col": max(1, n) if shell and r.chance(.9) else 0}


def stream(s):
    if not s["blocks"]:
        return []
    r = V.Rng("ostream", s["seed"])
    ps = [shells.pair(r, k) for k, n in s["blocks"] for _ in range(n)]
    if not s["col"]:
        return [u for p in ps for u in p]
    out = []
    for i in range(0, len(ps), s["col"]):
        blk = ps[i:i + s["col"]]
        while len(blk) < s["col"]:
            blk.append((r.random(), r.random()))
        out += [p[0] for p in blk] + [p[1] for p in blk]
    return out


def num(r):
    return r.pick([1, 1.0, .5, 2.5, 1e-6, 1e5, r.uniform(.001, 50)])


def gen(r):
    ops = []
    for _ in range(r.randrange(6, 25)):
        f = r.pick(["disk", "rect", "shell", "shell"])
        N = r.weighted([(0, .4), (1, 3), (2, 2), (3, 2), (r.randrange(4, 12), 3), (r.randrange(12, 60), 2), (r.randrange(1500, 2500), .06)])
        if f == "shell" and not N:
            N = 1
        if f == "disk":
            oR = num(r)
            a = [num(r), r.pick([0, 0, oR * r.uniform(0, .9), oR * .5, oR * .97 if N < 60 else 0]), oR, N]
        elif f == "rect":
            a = [num(r), r.pick([num(r), num(r), 0]), num(r), N]
        else:
            a = [num(r), num(r), N]
        n = int(math.floor(N * 4 / math.pi)) if f == "shell" else N
        s = gen_stream(r, n, f in ("shell", "rect"))
        ops.append([f, a, s, 0])
        if r.chance(.08):
            ops[-1][3] = r.pick([1, 1, 2, 3])
        if len(ops) > 1 and r.chance(.08):
            ops.append(copy.deepcopy(ops[-1]))
    return {"ops": ops}


NAMES = {"disk": "genPointMassRandomDisk", "rect": "genPointMassRandomRectangle", "shell": "genPointMassSphericalRandomShell"}


def judge(op, res):
    f, a, s, fail = op
    fair = not s["blocks"]
    w = res.split()
    if not w:
        return "raised", "gave no answer"
    if w[0] == "exc":
        if "SIM:hang" in res:
            return "no-progress", "drew %d numbers without finishing" % LIM
        if fail and "out of memory" in res:
            return None
        return "raised", "raised an error (%s)" % res[4:120].strip()
    nd, n, cols = map(int, w[1:4])
    if nd != 2 or (cols != 4 and n):
        return "wrong-shape", "is not an n-by-4 array (%d by %d)" % (n, cols)
    i = w.index(";")
    p = np.array([float(x) for x in w[4:i]]).reshape(n, 4) if n else np.zeros([0, 4])
    N = a[-1]
    if not np.isfinite(p).all():
        return "wrong-place", "holds non-finite numbers"
    x, y, z = p[:, 1], p[:, 2], p[:, 3]
    if f == "shell":
        M, R = a[:2]
        if n < 1:
            return "wrong-count", "has no point"
        if np.abs(p[:, 0] - p[0, 0]).max() > 1e-13 * M:
            return "wrong-mass", "has points of different mass"
        if abs(math.fsum(p[:, 0]) - M) > 1e-12 * M:
            return "wrong-mass", "has total mass %.17g, requested %.17g" % (math.fsum(p[:, 0]), M)
        d = np.sqrt(x * x + y * y + z * z)
        if np.abs(d - R).max() > 1e-12 * R:
            return "wrong-place", "has a point at distance %.17g, requested %.17g" % (d[np.abs(d - R).argmax()], R)
        u, var = p[:, 1:] / R, [1 / 3] * 3
    else:
        if n != N:
            return "wrong-count", "has %d points, requested %d" % (n, N)
        if n and (p[:, 0] != a[0]).any():
            return "wrong-mass", "has a point of mass %.17g, requested %.17g" % (p[:, 0][p[:, 0] != a[0]][0], a[0])
        if n and x.any():
            return "wrong-place", "has a point off the plane x = 0"
        if f == "disk":
            d = np.hypot(y, z)
            if n and (d.max() > a[2] * (1 + 1e-12) or d.min() < a[1] * (1 - 1e-12)):
                return "wrong-place", "has points at distances %.17g to %.17g, requested %.17g to %.17g" % (d.min(), d.max(), a[1], a[2])
            u, var = p[:, 2:] / a[2], [(1 + (a[1] / a[2]) ** 2) / 4] * 2
        else:
            if n and (np.abs(y).max() > a[1] / 2 * (1 + 1e-12) or np.abs(z).max() > a[2] / 2 * (1 + 1e-12)):
                return "wrong-place", "has points at |y| %.17g, |z| %.17g, requested widths %.17g, %.17g" % (np.abs(y).max(), np.abs(z).max(), a[1], a[2])
            u = np.stack([y / (a[1] or 1), z / a[2]], 1)
            var = [1 / 12 if a[1] else 0, 1 / 12]
    if fair and N >= 1000:
        s_ = math.sqrt(n)
        if f == "shell" and abs(n - N) > 7 * math.sqrt(N) + 2:
            return "wrong-count", "has %d points, requested about %d" % (n, N)
        v = np.array(var)
        if (np.abs(u.mean(0)) > 7 * np.sqrt(v) / s_).any() or (np.abs((u ** 2).mean(0) - v) > 7 * v / s_).any() or abs((u[:, 0] * u[:, 1]).mean()) > 7 * max(v) / s_:
            return "uneven", "is not spread evenly (means %s, mean squares %s)" % (np.round(u.mean(0), 4), np.round((u ** 2).mean(0), 4))
    if w[-1] != "1":
        return "changed", "changed the working directory"
    return None


def run(trace):
    d = tempfile.mkdtemp(prefix="voct-")
    try:
        lines = []
        for f, a, s, fail in trace["ops"]:
            lines += [NAMES[f], " ".join("%.17g" % x for x in a), "%d %d %d" % (s["x0"], LIM, fail), " ".join("%.17g" % u for u in stream(s))]
        with open(d + "/in", "w") as h:
            h.write("\n".join(lines) + "\n")
        env = {k: v for k, v in os.environ.items() if k not in ("LD_PRELOAD", "SIM_SHIM")}
        env.update(HOME=d, OCTAVE_HISTFILE=d + "/hist")
        code = 'warning("off","all"); addpath("%s/shapes"); addpath("%s"); addpath("%s"); drive("%s/in","%s/out")' % (core.REPO + "/matlab-src", core.REPO + "/matlab-src", core.VERIF + "/octave", d, d)
        try:
            p = subprocess.run(["octave-cli", "--no-init-file", "--no-history", "-q", "--eval", code], env=env, cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
        except subprocess.TimeoutExpired:
            raise core.HarnessError("octave gave no answer within 300 s")
        out = open(d + "/out").read().splitlines() if os.path.exists(d + "/out") else []
        if len(out) != len(trace["ops"]):
            raise core.HarnessError("octave ended after %d of %d calls: %s" % (len(out), len(trace["ops"]), p.stderr[-500:]))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    st, states, viol = core.Stats(), [], None
    for k, (op, res) in enumerate(zip(trace["ops"], out)):
        f, a, s, fail = op
        st.add("probe." + f)
        if s["blocks"]:
            st.add("fault.crafted_stream")
            for b in s["blocks"]:
                st.add("fault.draws_" + b[0], b[1])
        if fail and res.startswith("exc") and "out of memory" in res:
            st.add("fault.out_of_memory")
        bad = judge(op, res)
        if not bad and k and op == trace["ops"][k - 1] and res != out[k - 1]:
            bad = ("not-repeatable", "differs from the same call made just before with the same stream")
        if bad:
            viol = {"class": bad[0], "detail": "step %d: %s(%s), stream %s: %s" % (k, NAMES[f], ", ".join("%.6g" % x for x in a), [b[0] + "*%d" % b[1] for b in s["blocks"]][:6] or "fair", bad[1])}
            break
        n = int(res.split()[2]) if res.startswith("ret") else -1
        states.append(core.digest([f, a[-1] if a[-1] < 60 else 60, n if n < 60 else 60, [b[0] for b in s["blocks"]], s["col"] > 0, fail]))
    return {"violation": viol, "digest": core.digest([out, viol]), "stats": dict(st), "states": states, "log": out[:3],
            "nontrivial": any(x.startswith("fault.") for x in st), "sim_time": 0.0}


def shrink(trace):
    from .checks.common import shrink_list
    yield from shrink_list(trace, "ops", 1)
    for i, op in enumerate(trace["ops"]):
        for j in range(len(op[1])):
            if op[1][j] != 1 and (op[0] != "disk" or j == 0):
                t = copy.deepcopy(trace)
                t["ops"][i][1][j] = 1
                yield t
        bl = op[2]["blocks"]
        for j in range(len(bl)):
            if len(bl) > 1:
                t = copy.deepcopy(trace)
                del t["ops"][i][2]["blocks"][j]
                yield t
            if bl[j][1] > 1:
                t = copy.deepcopy(trace)
                t["ops"][i][2]["blocks"][j][1] //= 2
                yield t
