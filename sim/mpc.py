"""Mass-description scripts: programs as data, their text, and an independent reference interpreter on point clouds."""
import copy
import math
import numpy as np
from . import cloud as K, values as V

CM, INCH = 1e-2, 25.4e-3
SHAPES = ["cylinder", "sphere", "cone", "triangle", "trapezoid", "partcylinder", "tetrahedron", "platehole", "pyramid", "rectangle"]
UNKNOWN = ["torus", "helix", "ellipsoid", "screw", "cyl", "Sphere", "addition", "loader", "rotated", "sphere2"]


def num(r, lo, hi):
    return r.pick([round(r.uniform(lo, hi), r.pick([1, 2, 4])), round(r.uniform(lo, hi), 2)]) or lo


def params(r, shape):
    L = lambda lo=.3, hi=4: max(num(r, lo, hi), .05)
    if shape == "cylinder":
        ri = r.pick([0, 0, round(r.uniform(.1, 1), 2)])
        a = r.pick([0, -60, 30, round(r.uniform(-180, 180), 1)])
        w = r.pick([360, 180, 90, round(r.uniform(5, 355), 1)])
        if w == 360:
            a = int(a)
        return [ri, round(ri + L(), 3), L(), a, round(a + w, 1)]
    if shape == "sphere":
        return [L()]
    if shape == "cone":
        lo, up = r.pick([(L(), 0), (L(), 0), (L(), L()), (0, L()), (1.5, 1.5)])
        return [lo, up, L()]
    if shape == "triangle":
        y1 = round(r.uniform(-3, 2), 2)
        return [L(), y1, round(y1 + L(.2, 3), 3), L()]
    if shape == "trapezoid":
        a = L(.5, 3)
        b = round(a * r.uniform(1.2, 3), 3)
        return [a, b, L(), L()] if r.chance(.5) else [b, a, L(), L()]
    if shape == "partcylinder":
        rad = L(.5, 4)
        return [rad, round(rad * r.uniform(.1, .9), 3), L()]
    if shape == "platehole":
        return [L(.3, 2), L(.3, 3), r.pick([0, 30, -20, 45, round(r.uniform(-50, 50), 1)])]
    return [L(), L(), L()]                       # tetrahedron, pyramid, rectangle


def solid(shape, p, u, n):
    """Unit-density cloud in metres, and the extent that its own construction goes through (for rounding)."""
    if shape == "cylinder":
        c = K.sector(p[0] * u, p[1] * u, -p[2] * u / 2, p[2] * u / 2, math.radians(p[3]), math.radians(p[4]), n)
    elif shape == "sphere":
        c = K.ball(p[0] * u, n)
    elif shape == "cone":
        c = K.cone(p[0] * u, p[1] * u, 0, p[2] * u, 0, 2 * math.pi, n)
    elif shape == "triangle":
        d, y1, y2, t = [v * u for v in p]
        c = K.prism([(0, 0), (d, y1), (d, y2)], -t / 2, t / 2, n)
    elif shape == "trapezoid":
        w1, w2, h, t = [v * u for v in p]
        c = K.prism([(0, -w1 / 2), (h, -w2 / 2), (h, w2 / 2), (0, w1 / 2)], -t / 2, t / 2, n)
    elif shape == "partcylinder":
        c = K.segment(p[0] * u, p[1] * u, -p[2] * u / 2, p[2] * u / 2, n)
    elif shape == "tetrahedron":
        x, y, z = [v * u for v in p]
        c = K.tet((0, 0, 0), (x, 0, 0), (0, y, 0), (0, 0, z), n)
    elif shape == "platehole":
        c = K.slanted(p[0] * u, -p[1] * u / 2, p[1] * u / 2, math.radians(p[2]), n)
    elif shape == "pyramid":
        x, y, z = p[0] * u / 2, p[1] * u / 2, p[2] * u
        c = K.tet((x, y, 0), (x, -y, 0), (-x, -y, 0), (0, 0, z), n) + K.tet((x, y, 0), (-x, y, 0), (-x, -y, 0), (0, 0, z), n)
    elif shape == "rectangle":
        x, y, z = [v * u / 2 for v in p]
        c = K.box(-x, x, -y, y, -z, z, n)
    elif shape == "cylhole":
        c = K.drilled(p[0] * u, p[1] * u, n)
    else:
        raise ValueError(shape)
    ext = 3.0
    if shape == "trapezoid":
        a, b = sorted(p[:2])
        ext = 2 * (1 + 2 * b / (b - a))
    if shape == "cone" and p[0] != p[1]:
        a, b = sorted(p[:2])
        ext = 2 * (1 + 2 * b / (b - a))
    return c, ext


def part_cloud(seed, n=None):
    """A component: a few point masses (SI)."""
    r = V.Rng("part", seed)
    n = n or r.pick([1, 2, 3, 5])
    return K.Cloud([round(r.uniform(-.2, 1), 3) or .5 for _ in range(n)], [[round(r.uniform(-.05, .05), 4) for _ in range(3)] for _ in range(n)])


def part_text(seed, L, style):
    from . import world
    c = part_cloud(seed)
    q = c.inner(L) * 1e3 * (100.0 ** np.arange(L + 1))[:, None]
    return world.gsq_text(q, "component %d" % seed, eol=style.get("eol", "\n"))


def f_(v, st):
    if st == "5":
        t = "%.5f" % v
        return t.replace("0.", ".", 1) if t.startswith("0.") and v else t
    if st == "e":
        return "%.6e" % v
    return repr(v)


def exact(v, st):
    """The number the text says."""
    return float(f_(v, st))


def render(prog, style):
    """Text of a script."""
    st, out = style.get("num", "r"), [style.get("title", "a body")]
    pad = style.get("pad", "")
    cm = lambda k: "  % add cone" if style.get("cm") and k % 3 == 0 else ""
    sep = style.get("sep", ",")
    dcm = lambda k: "  % 1, 2.5" if style.get("dcm") and k % 2 == 0 else " %" if style.get("dcm") else ""
    lcm = lambda k: out.append(pad + "%" + [" height", "add", "1,2,3", ""][k % 4]) if style.get("lcm") and k % 3 == 0 else None
    for k, c in enumerate(prog):
        o = c[0]
        if o == "create":
            out.append(pad + "create %s%s%s" % (c[1], style.get("colour", " red"), cm(k)))
            lcm(k)
            out.append(sep.join(f_(v, st) for v in c[2]) + dcm(k))
            lcm(k + 1)
            out.append(f_(c[3], st) + style.get("dtail", "") + dcm(k + 1))
            lcm(k + 2)
            out.append(sep.join(f_(v, st) for v in c[4]) + dcm(k))
        elif o == "unknown":
            out.append(pad + "create %s blue" % c[1])
            out += [sep.join(f_(v, st) for v in c[2]), "1.0", "0,0,0"]
            out += c[3]
        elif o in ("rotate", "translate"):
            out.append(pad + o + " " + sep.join(f_(v, st) for v in c[1]) + cm(k))
        elif o == "load":
            out.append(pad + "load " + c[1] + cm(k))
        elif o == "comment":
            out.append("%" + c[1])
        elif o == "blank":
            out.append("")
        elif o == "nsteps":
            out.append("nsteps %d" % c[1])
        elif o == "junk":
            out.append(c[1])
        else:
            out.append(pad + o + cm(k))
    eol = style.get("eol", "\n")
    return eol.join(out) + (eol if style.get("lasteol", True) else "")


def reference(prog, style, L, parts):
    """Carry the commands out on two registers of point masses.  parts: name -> Cloud.  Returns table and rounding scale."""
    st = style.get("num", "r")
    n = L + 1
    wrk, tot = K.EMPTY, K.EMPTY
    z = np.zeros(L + 1)
    nw, nt = z.copy(), z.copy()          # rounding scale per degree
    u = CM
    for c in prog:
        o = c[0]
        if o == "create":
            p = [exact(v, st) for v in c[2]]
            s, ext = solid(c[1], p, u, n)
            dens = exact(c[3], st) * 1000
            wrk = s.scaled(dens)
            nw = wrk.scale(L) * ext ** (np.arange(L + 1) + 3.0) * (1e6 if c[1] == "cylhole" else 1)      # numerical integration
            d = np.array([exact(v, st) for v in c[4]]) * u
            wrk, nw = wrk.shift(d), grow(nw, d)
        elif o == "rotate":
            a = [math.radians(exact(v, st)) for v in c[1]]
            wrk = wrk.rotate(*a)
        elif o == "translate":
            d = np.array([exact(v, st) for v in c[1]]) * u
            wrk, nw = wrk.shift(d), grow(nw, d)
        elif o == "add":
            tot, nt = tot + wrk, nt + nw
        elif o == "cmin":
            u = CM
        elif o == "inchin":
            u = INCH
        elif o == "load":
            wrk = parts[c[1]]
            nw = wrk.scale(L)
        elif o == "zeroqlm":
            tot = K.EMPTY
        elif o == "gettotal":
            wrk, nw = tot, nt.copy()
        elif o == "puttotal":
            tot, nt = wrk, nw.copy()
        elif o == "end":
            break
        if len(tot.w) > 60000 or len(wrk.w) > 60000:
            raise ValueError("too many points")
    return tot.inner(L), nt


def grow(s, d):
    r = float(np.linalg.norm(d))
    return np.array([sum(math.comb(l, k) * s[k] * r ** (l - k) for k in range(l + 1)) for l in range(len(s))])


def wrong(got, want, scale, rel=1e-10):
    """None, or a sentence."""
    if not isinstance(got, np.ndarray) or got.shape != want.shape:
        return "returned %s instead of a table of shape %s" % (getattr(got, "shape", type(got).__name__), want.shape)
    tol = rel * scale[:, None] + 1e-13 * np.abs(want) + 1e-300
    bad = ~(np.abs(got - want) <= tol)
    if bad.any():
        l, m = np.unravel_index(np.argmax(np.where(bad, np.nan_to_num(np.abs(got - want) / tol, nan=1e300), 0)), bad.shape)
        return "q(%d,%d) is %r, the described body has %r" % (l, m - (len(want) - 1), complex(got[l, m]), complex(want[l, m]))
    return None


# ------------------------------------------------------------------ generation
NAMES = ["part", "paddle", "pendulum", "rotator", "translated_arm", "created", "end", "inchin1", "p%d", "gettotal", "add", "cmin2", "zero"]


def again(r, pool):
    """Nearly what was created before: the same numbers in other units, another density, shape or place, or a number slightly changed."""
    c = copy.deepcopy(r.pick(pool))
    k = r.randrange(6)
    if k == 0:
        c[3] = r.pick([1.0, 2.7, -c[3]])
    elif k == 1:
        c[4] = r.pick([[0, 0, 0], [0, 0, 1.5]])
    elif k == 2:
        same = ["tetrahedron", "pyramid", "rectangle"]
        c[1] = r.pick(same) if c[1] in same else c[1]
    elif k == 3:
        i = {"cylinder": 2, "platehole": 0}.get(c[1], -1)
        c[2][i] = round(c[2][i] * 1.0004, 6)
    return [[r.pick(["inchin", "inchin", "cmin"])], c] if r.chance(.3) else [c]


def gen_program(r, L, partnames, n=None, slow=False, pool=None):
    """A command history; biased towards states where the two registers matter."""
    pool = [] if pool is None else pool
    n = n or r.randrange(2, 13)
    prog, skipping = [], False
    shapes = [s for s in SHAPES if s != "platehole" or L <= 5]
    pick = [r.pick(shapes) for _ in range(3)]
    w = [("create", 5), ("add", 4), ("rotate", 2.5), ("translate", 2.5), ("unit", 1), ("load", 2 if partnames else 0), ("gettotal", 1), ("puttotal", .8),
         ("zeroqlm", .5), ("comment", .5), ("blank", .3), ("nsteps", .3), ("unknown", .4)]
    while len(prog) < n:
        o = r.weighted(w) if prog else r.weighted([("create", 6), ("load", 3 if partnames else 0), ("unit", 1.5), ("comment", .5), ("gettotal", .2), ("rotate", .2), ("add", .2)])
        if skipping and o not in ("create", "comment", "blank"):
            continue
        if o == "create":
            if pool and not slow and r.chance(.25):
                prog += again(r, pool)[-1:] if skipping else again(r, pool)
                if r.chance(.55):
                    prog.append(["add"])
                skipping = False
                continue
            s = r.pick(pick if r.chance(.7) else shapes)
            if slow and r.chance(.5) and L <= 2:
                s = "cylhole"
                p = [round(r.uniform(.5, 1), 2), round(r.uniform(1, 2), 2)]
            else:
                p = params(r, s)
            pos = r.weighted([([0, 0, 0], 4), ([num(r, -3, 3), 0, 0], 1), ([0, num(r, -3, 3), 0], .5), ([0, 0, num(r, -3, 3)], 1), ([num(r, -3, 3) for _ in range(3)], 2)])
            prog.append(["create", s, p, r.pick([1.0, 2.7, 8.0, -1.0, round(r.uniform(.5, 20), 2)]), pos])
            pool.append(prog[-1])
            if r.chance(.55):
                prog.append(["add"])
            skipping = False
        elif o == "rotate":
            prog.append(["rotate", [r.pick([0, 90, 180, -45, round(r.uniform(-180, 180), 1)]), r.pick([0, 0, 90, 180, round(r.uniform(-180, 180), 1)]), r.pick([0, 30, round(r.uniform(-180, 180), 1)])]])
        elif o == "translate":
            prog.append(["translate", r.pick([[0, 0, num(r, -4, 4)], [num(r, -4, 4), 0, 0], [num(r, -4, 4) for _ in range(3)], [0, 0, 0]])])
        elif o == "unit":
            prog.append([r.pick(["inchin", "inchin", "cmin"])])
        elif o == "load":
            prog.append(["load", r.pick(partnames)])
            if r.chance(.5):
                prog.append(["add"])
        elif o == "comment":
            prog.append(["comment", r.pick([" a note", " add", "create sphere", " end", " rotate 1,2,3"])])
        elif o == "nsteps":
            prog.append(["nsteps", r.pick([12, 24, 96])])
        elif o == "unknown":
            prog.append(["unknown", r.pick(UNKNOWN), [1.0, 2.0], r.pick([[], ["add"], ["rotate 10,20,30", "add"], ["translate 1,0,0", "add", "add"]])])
            skipping = True
        else:
            prog.append([o])
    if not skipping and r.chance(.8) and prog[-1][0] != "add":
        prog.append(["add"])
    if r.chance(.8):
        prog.append(["end"])
        if r.chance(.2):
            prog += [["junk", "create sphere"], ["junk", "1"], ["junk", "1"], ["junk", "0,0,0"], ["junk", "add"]]
    return prog


def gen_style(r):
    st = {"num": r.pick(["r", "5", "e"])}
    if r.chance(.3):
        st["pad"] = r.pick([" ", "\t", "   "])
    if r.chance(.3):
        st["cm"] = 1
    if r.chance(.15):
        st["dcm"] = 1
    if r.chance(.12):
        st["lcm"] = 1
    if r.chance(.2):
        st["eol"] = "\r\n"
    if r.chance(.2):
        st["sep"] = ", "
    if r.chance(.2):
        st["colour"] = r.pick(["", " blue", " red 3"])
    if r.chance(.2):
        st["lasteol"] = False
    if r.chance(.3):
        st["title"] = r.pick(["%Test of a script", "create sphere", "add", "", "end"])
    return st
