"""Random point-mass shells under crafted and seeded random streams (C12)."""
import copy
import math
import random
import numpy as np
from . import core, world, values as V


# ------------------------------------------------------------------ streams
def untemper(y):
    """The MT19937 state word whose output is y."""
    y ^= y >> 18
    y ^= (y << 15) & 0xefc60000
    x = y
    for _ in range(5):
        x = y ^ ((x << 7) & 0x9d2c5680)
    y = x
    x = y
    for _ in range(3):
        x = y ^ (x >> 11)
    return x & 0xffffffff


def words(u):
    """The two generator outputs that make random_sample() return u (a multiple of 2**-53)."""
    k = int(u * (1 << 53))
    return ((k >> 26) << 5, (k & ((1 << 26) - 1)) << 6)


def pair(r, kind):
    """Two uniform numbers that land where kind says in the square (-1,1)^2."""
    if kind == "corner":
        p = [r.pick([-1, 1]) * (.75 + .249 * r.random()) for _ in range(2)]
    elif kind == "extreme":
        return r.pick([(0., 0.), (1 - 2 ** -53, 1 - 2 ** -53), (0., 1 - 2 ** -53), (1 - 2 ** -53, 0.)])
    elif kind == "centre":
        p = (0., 0.)
    elif kind == "axis":
        p = r.pick([(0., -1 + r.random() * 2), (-1 + r.random() * 2, 0.)])
    elif kind == "edge_on":                                   # squares add up to exactly 1
        return r.pick([(0., .5), (.5, 0.)])
    elif kind == "edge_in":
        return r.pick([(2 ** -53, .5), (.5, 2 ** -53), (1 - 2 ** -53, .5), (.5, 1 - 2 ** -53)])
    elif kind == "edge":
        a = r.random() * 2 * math.pi
        s = 1 + r.pick([0, 1e-16, -1e-16, 3e-16, -3e-16, 1e-12, -1e-12])
        p = (math.cos(a) * s, math.sin(a) * s)
    elif kind == "tiny":
        p = (r.pick([2 ** -52, -2 ** -52]), r.pick([2 ** -52, -2 ** -52]))
    elif kind == "inside":
        a, s = r.random() * 2 * math.pi, .99 * math.sqrt(r.random())
        p = (math.cos(a) * s, math.sin(a) * s)
    else:
        return (r.random(), r.random())
    return tuple(min(max((x + 1) / 2, 0.), 1 - 2 ** -53) for x in p)


KINDS = ["corner", "extreme", "centre", "axis", "edge_on", "edge_in", "edge", "tiny", "inside", "any"]
MAXPAIR = 110


def gen_stream(r, N):
    """A stream: ["seed", k] or ["craft", seed, [[kind, count], ...]]."""
    if r.chance(.25):
        return ["seed", r.pick([0, 1, 2 ** 32 - 1, r.randrange(2 ** 32)])]
    want = int(N * 4 / math.pi)
    blocks, left = [], MAXPAIR
    style = r.pick(["none_first", "one", "mix", "mix", "same"])
    if style == "none_first":                                 # the first draw holds no usable pair, perhaps the next ones neither
        n = min(left, max(1, want) * r.pick([1, 1, 2, 5]))
        blocks.append([r.pick(["corner", "extreme", "edge_on"]), n])
        left -= n
        if left and r.chance(.5):
            blocks.append([r.pick(KINDS), min(left, r.randrange(1, 20))])
    elif style == "one":
        n = min(left, max(1, want))
        k = r.randrange(n)
        blocks += [["corner", k], [r.pick(["edge_in", "inside", "centre", "tiny"]), 1], ["corner", n - 1 - k]]
    elif style == "same":
        blocks.append([r.pick(KINDS), left])
    else:
        while left > 0:
            n = min(left, r.pick([1, 1, 2, 3, 7, 20]))
            blocks.append([r.pick(KINDS), n])
            left -= n
    return ["craft", r.randrange(1 << 30), [b for b in blocks if b[1] > 0]]


def set_stream(s):
    if s[0] == "keep":
        return
    if s[0] == "seed":
        np.random.seed(s[1])
        return
    r = V.Rng("stream", s[1])
    key = []
    for kind, n in s[2]:
        for _ in range(n):
            for u in pair(r, kind):
                key += [untemper(w) for w in words(u)]
    key = key[:4 * MAXPAIR]
    key += [r.getrandbits(32) | (len(key) == 0) for _ in range(624 - len(key))]
    np.random.set_state(("MT19937", np.array(key, dtype=np.uint32), 0, 0, 0.0))


# ------------------------------------------------------------------ histories
def gen(r):
    ops = []
    for _ in range(r.randrange(2, 9)):
        N = r.weighted([(1, 3), (2, 2), (3, 2), (r.randrange(4, 12), 3), (r.randrange(12, 80), 3), (r.randrange(80, 400), 1), (r.randrange(4000, 9000), .12)])
        st = gen_stream(r, N) if N < 4000 else ["seed", r.randrange(2 ** 32)]
        if ops and r.chance(.12):
            st = ["keep"]
        ops.append(["shell", r.pick([1, 1., 2.5, 1e-9, 3e7, .1, 7, r.uniform(.01, 100)]), r.pick([1, 1., .05, 1e-6, 1e5, 3, r.uniform(.001, 50)]), N, r.pick(["int", "int", "np", "float"]), st])
        if r.chance(.2):
            ops.append(["edit"])
        if r.chance(.2):
            ops.append(["other", r.randrange(4)])
        if r.chance(.3):
            ops.append(["again"])
    return {"ops": ops}


def judge(out, m, R, N, fair):
    if out[0] != "ret":
        return "raised", "raised %s" % out[1]
    p = out[1]
    if not isinstance(p, np.ndarray) or p.ndim != 2 or p.shape[1] != 4:
        return "wrong-shape", "is not an n-by-4 array (%s)" % (getattr(p, "shape", type(p).__name__),)
    n = len(p)
    if n < 1:
        return "wrong-count", "has no point"
    if not np.isfinite(p).all():
        return "wrong-radius", "holds non-finite numbers"
    if np.abs(p[:, 0] - p[0, 0]).max() > 1e-13 * abs(m):
        return "wrong-mass", "has points of different mass (%.17g to %.17g)" % (p[:, 0].min(), p[:, 0].max())
    tot = math.fsum(p[:, 0])
    if abs(tot - m) > 1e-12 * abs(m):
        return "wrong-mass", "has total mass %.17g, requested %.17g" % (tot, m)
    d = np.sqrt((p[:, 1:] ** 2).sum(1))
    k = int(np.abs(d - R).argmax())
    if abs(d[k] - R) > 1e-12 * R:
        return "wrong-radius", "has point %d at distance %.17g from the centre, requested %.17g" % (k, d[k], R)
    if fair and N >= 4000:
        u = p[:, 1:] / R
        s = math.sqrt(n)
        if abs(n - N) > 7 * math.sqrt(N) + 2:
            return "wrong-count", "has %d points, requested about %d" % (n, N)
        # means of x: sd 1/sqrt(3n); of x^2-1/3: sqrt(4/45/n); of xy: sqrt(1/15/n)
        if np.abs(u.mean(0)).max() > 7 / math.sqrt(3) / s or np.abs((u ** 2).mean(0) - 1 / 3).max() > 7 * math.sqrt(4 / 45) / s or \
                max(abs((u[:, i] * u[:, j]).mean()) for i, j in ((0, 1), (0, 2), (1, 2))) > 7 * math.sqrt(1 / 15) / s:
            return "uneven", "is not spread evenly over the sphere (means %s, mean squares %s)" % (np.round(u.mean(0), 4), np.round((u ** 2).mean(0), 4))
    return None


def history(trace):
    import newt.glibShapes as gs
    world.fresh_process()
    st, log, states, viol = core.Stats(), [], [], None
    held, last = [], None
    for k, op in enumerate(trace["ops"]):
        if op[0] == "edit":
            for p, _ in held:
                p[...] = 7.5
            held = []
            st.add("probe.caller_edits")
            continue
        if op[0] == "other":                    # other users of the generators
            [lambda: np.random.rand(3), lambda: random.random(), lambda: np.random.standard_normal(5), lambda: np.random.shuffle(np.arange(9))][op[1]]()
            st.add("probe.other_draws")
            continue
        if op[0] == "again" and last is None:
            continue
        if op[0] == "shell":
            m, R, N, ty, stream = op[1:]
            set_stream(stream)
            state = np.random.get_state()
        else:
            (m, R, N, ty, stream), state, first = last
            np.random.set_state(state)
        n = {"int": int, "np": np.int64, "float": float}[ty](N)
        before = world.settings(rng=False)
        py = random.getstate()
        out = world.outcome(gs.spherical_random_shell, [m, R, n])
        after = world.settings(rng=False)
        desc = "step %d: shell of mass %r, radius %r, %d points, stream %s" % (k, m, R, N, stream[0] if stream[0] != "craft" else [b[0] + "*%d" % b[1] for b in stream[2]][:6])
        bad = judge(out, m, R, N, stream[0] != "craft")
        if not bad and world.settings_diff(before, after):
            bad = ("changed", "changed %s" % world.settings_diff(before, after))
        if not bad and random.getstate() != py:
            bad = ("changed", "changed Python's own random generator")
        if not bad:
            for p, w in held:
                if not (p == w).all():
                    bad = ("changed", "changed an earlier shell")
        if op[0] == "again":
            st.add("probe.same_stream_again")
            if not bad and not (out[0] == first[0] and np.array_equal(out[1], first[1])):
                bad = ("not-repeatable", "differs from the shell made before from the same generator state")
        else:
            last = ((m, R, N, ty, stream), state, ("ret", out[1].copy()) if out[0] == "ret" and isinstance(out[1], np.ndarray) else out)
            st.add("fault.crafted_stream" if stream[0] == "craft" else "probe.seeded_stream")
            if stream[0] == "craft":
                for b in stream[2]:
                    st.add("fault.draws_" + b[0], b[1])
            else:
                st.add("probe.stream_" + stream[0])
        if bad:
            viol = {"class": bad[0], "detail": desc + ": " + bad[1]}
            break
        held.append((out[1], out[1].copy()))
        nn = len(out[1])
        log.append([k, nn, core.digest(out[1].tobytes())])
        states.append(core.digest([N if N < 60 else N // 50, nn if N < 60 else 0, stream[0], [b[0] for b in stream[2]] if stream[0] == "craft" else 0]))
    return {"violation": viol, "digest": core.digest([log, viol]), "stats": dict(st), "states": states, "log": log,
            "nontrivial": any(x.startswith("fault.") for x in st), "sim_time": world.CLOCK.elapsed()}


def run(trace):
    st, r = core.isolate(lambda: history(trace), 60)
    if st != "ok":
        raise core.HarnessError("run died %r" % (r,))
    return r


def shrink(trace):
    from .checks.common import shrink_list
    yield from shrink_list(trace, "ops", 1)
    for i, op in enumerate(trace["ops"]):
        if op[0] != "shell":
            continue
        for key, plain in ((1, 1.0), (2, 1.0), (3, 1), (4, "int")):
            if op[key] != plain:
                t = copy.deepcopy(trace)
                t["ops"][i][key] = plain
                yield t
        if op[5][0] == "craft":
            for j in range(len(op[5][2])):
                t = copy.deepcopy(trace)
                if len(op[5][2]) > 1:
                    del t["ops"][i][5][2][j]
                    yield t
                if op[5][2][j][1] > 1:
                    t = copy.deepcopy(trace)
                    t["ops"][i][5][2][j][1] //= 2
                    yield t
