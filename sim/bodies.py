"""Histories of bodies (newt.shapes): C09 consistency with a reference mass distribution, C10 failed operations, C14 isolation.

The reference keeps every part of a body as a quadrature point cloud that is moved as points; the moment tables go through
independent reference operators (addition theorems of normalised solid harmonics, rotation matrices fitted on points) that
include the truncation at the degree of the table."""
import math
import os
import sys
import numpy as np
from . import cloud as K, core, world, values as V

EXTRA = ("cadquery", "stl")
EXC = ["ValueError", "MemoryError", "RuntimeError", "FloatingPointError", "StdFail_NotDone", "ZeroDivisionError"]


# ------------------------------------------------------------------ reference operators on moment tables
def harmonics(x, L):
    """R[l][m+l] and S[l][m+l] at the points x: r^l P_l^m e^{im phi}/(l+m)! and (l-m)! P_l^m e^{im phi}/r^(l+1)."""
    x = np.asarray(x, float).reshape(-1, 3)
    X, Y, Z = x.T
    r2 = X * X + Y * Y + Z * Z
    U = {(0, 0): np.ones(len(x), complex)}
    for m in range(L + 1):
        if m:
            U[m, m] = -(2 * m - 1) * (X + 1j * Y) * U[m - 1, m - 1]
        if m < L:
            U[m + 1, m] = (2 * m + 1) * Z * U[m, m]
        for l in range(m + 2, L + 1):
            U[l, m] = ((2 * l - 1) * Z * U[l - 1, m] - (l + m - 1) * r2 * U[l - 2, m]) / (l - m)
    R, S = [], []
    with np.errstate(all="ignore"):
        for l in range(L + 1):
            a = np.zeros((2 * l + 1, len(x)), complex)
            b = np.zeros((2 * l + 1, len(x)), complex)
            for m in range(l + 1):
                p = U[l, m] / math.factorial(l + m)
                s = U[l, m] * math.factorial(l - m) * r2 ** -(l + .5)
                a[l + m], b[l + m] = p, s
                a[l - m], b[l - m] = (-1) ** m * p.conj(), (-1) ** m * s.conj()
            R.append(a)
            S.append(b)
    return R, S


def _a(l, m):
    return math.sqrt((2 * l + 1) / (4 * math.pi) * math.factorial(l - m) * math.factorial(l + m))


def _b(l, m):
    return math.sqrt((2 * l + 1) / (4 * math.pi) / math.factorial(l - m) / math.factorial(l + m))


def unpack(q, outer):
    """Table -> per-degree arrays in R or S normalisation."""
    L = len(q) - 1
    out = []
    for l in range(L + 1):
        row = q[l, L - l:L + l + 1]
        n = np.array([(_b if outer else _a)(l, m) for m in range(-l, l + 1)])
        out.append(row / n if outer else np.conj(row) / n)
    return out


def pack(c, outer):
    L = len(c) - 1
    q = np.zeros((L + 1, 2 * L + 1), complex)
    for l in range(L + 1):
        n = np.array([(_b if outer else _a)(l, m) for m in range(-l, l + 1)])
        q[l, L - l:L + l + 1] = (c[l] if outer else np.conj(c[l])) * n
    return q


def move_inner(q, d):
    L = len(q) - 1
    c, R = unpack(q, False), harmonics([d], L)[0]
    out = []
    for l in range(L + 1):
        o = np.zeros(2 * l + 1, complex)
        for k in range(l + 1):
            full = np.convolve(R[k][:, 0], c[l - k])        # orders add up
            o += full
        out.append(o)
    return pack(out, False)


def to_outer(q, d):
    L = len(q) - 1
    c, S = unpack(q, False), harmonics([d], 2 * L)[1]
    out = []
    for l in range(L + 1):
        o = np.zeros(2 * l + 1, complex)
        for k in range(L + 1):
            for m in range(-l, l + 1):
                for j in range(-k, k + 1):
                    o[m + l] += (-1) ** k * np.conj(c[k][j + k]) * S[l + k][m + j + l + k, 0]
        out.append(o)
    return pack(out, True)


def move_outer(q, d):
    L = len(q) - 1
    c, R = unpack(q, True), harmonics([d], L)[0]
    out = []
    for l in range(L + 1):
        o = np.zeros(2 * l + 1, complex)
        for k in range(L - l + 1):
            for m in range(-l, l + 1):
                for j in range(-k, k + 1):
                    o[m + l] += (-1) ** k * np.conj(R[k][j + k, 0]) * c[l + k][m + j + l + k]
        out.append(o)
    return pack(out, True)


_pts = {}


def turn(q, outer, M):
    """Table of the body turned by the rotation matrix M: per-degree matrices fitted on points."""
    L = len(q) - 1
    if L not in _pts:
        g = np.random.RandomState(5).normal(size=(6 * L + 12, 3))
        _pts[L] = g / np.sqrt((g * g).sum(1))[:, None]
    x = _pts[L]
    A, B = harmonics(x, L)[0], harmonics(x @ M.T, L)[0]
    c = unpack(q, outer)
    out = []
    for l in range(L + 1):
        # regular and irregular harmonics of one degree differ by a power of r only, up to the normalisation (l+m)!(l-m)!
        n = np.array([math.factorial(l + m) * math.factorial(l - m) for m in range(-l, l + 1)], float)
        a, b = (A[l] * n[:, None], B[l] * n[:, None]) if outer else (A[l], B[l])
        D = np.linalg.lstsq(a.T, b.T, rcond=None)[0].T
        out.append(D @ c[l])
    return pack(out, outer)


def embed(q, L):
    n = len(q) - 1
    if n == L:
        return q.copy()
    out = np.zeros((L + 1, 2 * L + 1), complex)
    out[:n + 1, L - n:L + n + 1] = q
    return out


# ------------------------------------------------------------------ reference solids
def outercone_cloud(H, IR, OR, h, n=16):
    k = n // 2 + 3
    full = abs(h - math.pi) < 1e-12
    ph = (2 * math.pi * np.arange(n + 3) / (n + 3), np.full(n + 3, 2 * math.pi / (n + 3))) if full else K.gl(n + 8, -h, h)
    (r, f, u), w = K.grid(K.gl(k + 6, IR, OR), ph, K.gl(k + 4, 0, 1))
    z = H * (OR - r) / (OR - IR)
    return K.Cloud(w * r * z, np.array([r * np.cos(f), r * np.sin(f), u * z]).T)


def gen_prim(r, kind):
    u = lambda lo, hi: round(r.uniform(lo, hi), 3)
    full = r.chance(.3)
    if kind == "Annulus":
        ri = u(.1, 1.)
        return [u(.2, 2), ri, round(ri + u(.2, 1.5), 3), u(-3, 3), math.pi if full else u(.2, 3.)]
    if kind == "RectPrism":
        return [u(.2, 2), u(.2, 2), u(.2, 2), u(-3, 3)]
    if kind == "TriPrism":
        y = u(-1.5, 1.)
        return [u(.2, 2), u(.3, 2) * (-1 if r.chance(.2) else 1), y, round(y + u(.3, 2), 3)]
    if kind == "Cone":
        return [u(.3, 2), u(.3, 1.5), u(-3, 3), math.pi if full else u(.2, 3.)]
    if kind == "Sphere":
        return [u(.2, 1.2), [u(-2, 2), u(-2, 2), u(-2, 2)] if r.chance(.8) else [0., 0., 0.], r.pick(["list", "tuple", "array"])]
    if kind == "NGon":
        return [u(.2, 2), u(.3, 1.5), u(-3, 3), r.pick([3, 4, 5, 6, 8])]
    if kind == "Tetrahedron":
        y = u(-1.5, 1.)
        return [u(.3, 2), y, round(y + u(.3, 2), 3), u(.3, 2)]
    if kind == "Pyramid":
        return [u(.2, 1.2), u(.2, 1.2), u(.3, 2)]
    if kind == "OuterCone":
        ir = u(.4, 1.)
        return [u(.3, 1.5), ir, round(ir + u(.3, 1.), 3), math.pi if full else u(.3, 3.)]
    if kind == "Cylhole":
        rr = u(.2, .8)
        return [rr, round(rr * (1 + u(.1, 1.)), 3)]
    if kind == "Platehole":
        return [u(.2, 1.), u(.2, .8), u(-.9, .9)]
    raise core.HarnessError(kind)


def prim(kind, p, n=8):
    """(unit-density cloud, radius of a ball about `centre` that holds it, centre, inscribed ball or None)."""
    pi = math.pi
    z0 = np.zeros(3)
    if kind == "Annulus":
        H, Ri, Ro, pc, ph = p
        full = abs(ph - pi) < 1e-12
        c = K.sector(Ri, Ro, -H / 2, H / 2, 0 if full else pc - ph, 2 * pi if full else pc + ph, n)
        rm = (Ri + Ro) / 2
        ins = min((Ro - Ri) / 2, H / 2, rm * math.sin(min(ph, pi / 2)))
        return c, math.hypot(Ro, H / 2), z0, (np.array([rm * math.cos(pc), rm * math.sin(pc), 0]), ins)
    if kind == "RectPrism":
        H, a, b, pc = p
        return K.box(-a / 2, a / 2, -b / 2, b / 2, -H / 2, H / 2, n).rotate(pc, 0, 0), math.sqrt(H * H + a * a + b * b) / 2, z0, (z0, min(H, a, b) / 2)
    if kind == "TriPrism":
        H, d, y1, y2 = p
        return K.prism([(0, 0), (d, y1), (d, y2)], -H / 2, H / 2, n), math.sqrt(d * d + max(y1 * y1, y2 * y2) + H * H / 4), z0, None
    if kind == "Cone":
        P, R, pc, ph = p
        full = abs(ph - pi) < 1e-12
        return K.cone(R, 0, 0, P, 0 if full else pc - ph, 2 * pi if full else pc + ph, n), max(P, R), z0, None
    if kind == "Sphere":
        R, c = p[:2]
        c = np.array(c, float)
        return K.ball(R, n).shift(c), R, c, (c, R)
    if kind == "NGon":
        H, a, pc, N = p
        R = a / 2 / math.sin(pi / N)
        poly = [(R * math.cos(2 * pi * k / N + pi / N), R * math.sin(2 * pi * k / N + pi / N)) for k in range(N)]
        return K.prism(poly, -H / 2, H / 2, n).rotate(pc, 0, 0), math.hypot(R, H / 2), z0, (z0, min(H / 2, R * math.cos(pi / N)))
    if kind == "Tetrahedron":
        x, y1, y2, z = p
        return K.tet((x, y1, 0), (x, y2, 0), (0, 0, 0), (0, 0, z), n), max(math.hypot(x, y1), math.hypot(x, y2), z), z0, None
    if kind == "Pyramid":
        x, y, z = p
        c = K.tet((x, y, 0), (x, -y, 0), (-x, -y, 0), (0, 0, z), n) + K.tet((x, y, 0), (-x, y, 0), (-x, -y, 0), (0, 0, z), n)
        return c, max(math.hypot(x, y), z), z0, None
    if kind == "OuterCone":
        H, IR, OR, h = p
        return outercone_cloud(H, IR, OR, h, 16), math.hypot(OR, H), z0, None
    if kind == "Cylhole":
        return K.drilled(p[0], p[1], n), math.hypot(p[0], p[1]), z0, None
    if kind == "Platehole":
        t, rr, th = p
        c = math.cos(th)
        return K.slanted(rr, -t / 2, t / 2, th, n), math.sqrt((rr / c + t * abs(math.tan(th)) / 2) ** 2 + rr * rr + t * t / 4), z0, None
    raise core.HarnessError(kind)


SLOW = ("Cylhole", "Platehole", "OuterCone")


def outer_cloud(kind, p):
    """Unit-density cloud good enough for outer moments: fine panels where the body is near the origin."""
    if kind == "Sphere":                       # acts as a point at its centre
        return K.Cloud([4 * math.pi * p[0] ** 3 / 3], [p[1]])
    if kind == "OuterCone":
        return outercone_cloud(*p, n=40)
    H, Ri, Ro, pc, ph = p
    full = abs(ph - math.pi) < 1e-12
    f = (2 * math.pi * np.arange(16) / 16, np.full(16, 2 * math.pi / 16)) if full else K.gl(22, pc - ph, pc + ph)
    re, ze = [Ri], [0.]
    while re[-1] < Ro:
        re.append(min(Ro, re[-1] * 1.6))
    while ze[-1] < H / 2:
        ze.append(min(H / 2, ze[-1] + .6 * math.hypot(Ri, ze[-1])))
    w, x = [], []
    for a, b in zip(re, re[1:]):
        for c, d in zip(ze, ze[1:]):
            for sg in (1, -1):
                (r, t, z), ww = K.grid(K.gl(12, a, b), f, K.gl(12, c, d))
                w.append(ww * r)
                x.append(np.array([r * np.cos(t), r * np.sin(t), sg * z]).T)
    return K.Cloud(np.concatenate(w), np.concatenate(x))


class Model:
    """Reference body."""
    def __init__(self, kind, lmax, inner, mass, p):
        self.kind, self.lmax, self.inner, self.mass = kind, lmax, inner, mass
        c, R, z, ins = prim(kind, p, max(8, lmax + 2))
        self.parts = [{"g": c, "sign": 1 if mass > 0 else -1, "mass": mass, "c": z, "R": R, "ins": ins}]
        w = c.scaled(mass / c.mass)
        if inner:
            self.q, self.s = w.inner(lmax), w.scale(lmax)
        else:
            o = outer_cloud(kind, p)
            o = o.scaled(mass / o.mass)
            self.q, self.s = o.outer(lmax), o.scale(lmax, True)
        self.com = w.com
        self.size = float(np.abs(w.com).max() + R)
        self.vdeg = lmax
        self.loose = 1e-6 if kind in SLOW else 1e-9 if not inner else 0.
        self.gloose = 2e-4 if kind in ("Cylhole", "Platehole") else 0.
        self.judged = True                 # moments, centre and mass are known
        self.geo = True                    # the CAD model is known

    def snapshot(self):
        m = Model.__new__(Model)
        m.__dict__.update(self.__dict__)
        m.parts = [dict(p) for p in self.parts]
        return m

    def rotate(self, a, b, c):
        M = K.rz(a) @ K.ry(b) @ K.rz(c)
        for p in self.parts:
            p["g"] = K.Cloud(p["g"].w, p["g"].x @ M.T)
            p["c"] = M @ p["c"]
            if p["ins"]:
                p["ins"] = (M @ p["ins"][0], p["ins"][1])
        self.q = turn(self.q, not self.inner, M)
        self.com = M @ self.com

    def move(self, d, to_inner):
        d = np.asarray(d, float)
        n = float(np.sqrt((d * d).sum()))
        L = self.lmax
        for p in self.parts:
            p["g"] = p["g"].shift(d)
            p["c"] = p["c"] + d
            if p["ins"]:
                p["ins"] = (p["ins"][0] + d, p["ins"][1])
        self.com = self.com + d
        self.size += n
        s = self.s
        if self.inner and to_inner:
            self.q = move_inner(self.q, d)
            self.s = np.array([sum(math.comb(l, k) * s[k] * n ** (l - k) for k in range(l + 1)) for l in range(L + 1)])
        elif self.inner:
            self.q = to_outer(self.q, d)
            self.s = np.array([sum(math.comb(l + k, k) * s[k] / n ** (l + k + 1) for k in range(L + 1)) for l in range(L + 1)])
            self.inner = False
        else:
            self.q = move_outer(self.q, d)
            self.s = np.array([sum(math.comb(l + k, k) * s[l + k] * n ** k for k in range(L - l + 1)) for l in range(L + 1)])

    def add(self, others):
        allb = [self] + list(others)
        L = max(b.lmax for b in allb)
        mt = sum(b.mass for b in allb)
        absm = sum(abs(b.mass) for b in allb)
        self.judged = all(b.judged for b in allb) and abs(mt) > .05 * absm
        self.geo = all(b.geo for b in allb) and fits(allb)
        com = sum(b.mass * b.com for b in allb)
        q = sum(embed(b.q, L) for b in allb)
        sc = np.zeros(L + 1)
        for b in allb:
            sc[:b.lmax + 1] += b.s
        vd = min(b.vdeg for b in allb)
        loose, gl = max(b.loose for b in allb), max(b.gloose for b in allb)
        size = max(b.size for b in allb) * absm / max(abs(mt), 1e-300)
        parts = [dict(p) for b in allb for p in b.parts]
        self.lmax, self.q, self.s, self.vdeg, self.loose, self.gloose, self.size, self.parts = L, q, sc, vd, loose, gl, size, parts
        self.mass = mt
        self.com = com / mt if mt else com * np.nan

    # geometry of the CAD model
    def solid(self):
        vol = sum(p["sign"] * p["g"].mass for p in self.parts)
        if all(p["sign"] < 0 for p in self.parts):
            vol = -vol
        sg = 1 if any(p["sign"] > 0 for p in self.parts) else -1
        first = sum(p["sign"] * sg * p["g"].mass * p["g"].com for p in self.parts)
        second = sum(p["sign"] * sg * p["g"].second() for p in self.parts)
        scale = sum(p["g"].mass * (np.abs(p["c"]).max() + p["R"]) ** 2 for p in self.parts)
        return vol, first, second, scale


def _in(h, p):
    return h["ins"] is not None and np.linalg.norm(h["ins"][0] - p["c"]) + p["R"] < .98 * h["ins"][1]


def fits(bodies):
    """The parts are disjoint solids, apart from holes that lie wholly inside one solid of this sum."""
    ps = [(i, p) for i, b in enumerate(bodies) for p in b.parts]
    for a in range(len(ps)):
        for b in range(a + 1, len(ps)):
            if ps[a][0] == ps[b][0]:
                continue
            p, q = ps[a][1], ps[b][1]
            if np.linalg.norm(p["c"] - q["c"]) > 1.02 * (p["R"] + q["R"]):
                continue
            h, o = (q, p) if p["sign"] < 0 else (p, q)
            if h["sign"] > 0 and o["sign"] < 0 and _in(h, o) and not any(
                    x is not h and x is not o and np.linalg.norm(x["c"] - o["c"]) < 1.02 * (x["R"] + o["R"]) for _, x in ps):
                continue
            return False
    # a hole on its own next to solids cuts nothing away: its volume does not appear in the model
    if any(p["sign"] > 0 for _, p in ps):
        for _, p in ps:
            if p["sign"] < 0 and not any(q["sign"] > 0 and _in(q, p) for _, q in ps):
                return False
    return True


# ------------------------------------------------------------------ looking at the real bodies
def measure(mesh):
    """Volume, first and second moments of a CAD model, by the CAD kernel."""
    import cadquery as cq
    vs = [v for v in mesh.vals() if isinstance(v, cq.Shape)]
    sh = vs[0] if len(vs) == 1 else cq.Compound.makeCompound(vs)
    v = cq.Shape.computeMass(sh)
    c = np.array(cq.Shape.centerOfMass(sh).toTuple())
    I = np.array(cq.Shape.matrixOfInertia(sh))
    S = np.eye(3) * np.trace(I) / 2 - I + v * np.outer(c, c)
    return v, v * c, S


def snap(b, mesh=True):
    out = {"inner": b.inner, "lmax": b.lmax, "mass": float(b.mass), "com": np.array(b.com, float).tobytes(), "qlm": np.array(b.qlm, complex).tobytes(),
           "attrs": sorted(vars(b))}
    if mesh and b.mesh is not None:
        v, f, S = measure(b.mesh)
        out["mesh"] = [round(float(x), 9) for x in np.concatenate([[v], f, S.ravel()])]
        out["pmass"] = bool(b.mesh.pmass)
    return out


def differ(a, b):
    """Names of attributes in which two snapshots differ (CAD numbers to 1e-7)."""
    bad = [k for k in a if k != "mesh" and a[k] != b.get(k)]
    if "mesh" in a:
        x, y = np.array(a["mesh"]), np.array(b.get("mesh", [np.nan] * 13))
        if not np.allclose(x, y, rtol=1e-7, atol=1e-7):
            bad.append("mesh")
    return bad


def judge(b, m, mesh=True):
    """None, or (class, how the body differs from its reference)."""
    if m.judged:
        if bool(b.inner) != m.inner or b.lmax != m.lmax:
            return "wrong-kind", "inner=%s lmax=%s instead of inner=%s lmax=%s" % (b.inner, b.lmax, m.inner, m.lmax)
        if not abs(b.mass - m.mass) <= 1e-12 * max(abs(m.mass), sum(abs(p["mass"]) for p in m.parts)):
            return "wrong-mass", "mass %r instead of %r" % (b.mass, m.mass)
        com = np.asarray(b.com, float)
        if com.shape != (3,) or not np.abs(com - m.com).max() <= 1e-10 * m.size:
            return "wrong-com", "centre of mass %s instead of %s" % (com, np.round(m.com, 6))
        q = np.asarray(b.qlm)
        if q.shape != m.q.shape:
            return "wrong-moments", "table of shape %s instead of %s" % (q.shape, m.q.shape)
        tol = (2e-10 + m.loose) * m.s[:m.vdeg + 1]
        L = m.lmax
        for l in range(m.vdeg + 1):
            e = np.abs(q[l] - m.q[l])
            if not e.max() <= tol[l]:
                k = int(np.argmax(np.where(np.isnan(e), np.inf, e)))
                return "wrong-moments", "%s moment (%d,%d) is %s instead of %s" % ("inner" if m.inner else "outer", l, k - L, complex(q[l, k]), complex(np.round(m.q[l, k], 9)))
    if mesh and m.geo and b.mesh is not None:
        v, f, S = measure(b.mesh)
        vol, first, second, sc = m.solid()
        t = 1e-6 + m.gloose
        vs = sum(p["g"].mass for p in m.parts)
        if not abs(v - vol) <= t * vs:
            return "wrong-cad", "CAD volume %.6g instead of %.6g" % (v, vol)
        r = math.sqrt(sc / vs)
        if not np.abs(f - first).max() <= t * vs * r:
            return "wrong-cad", "CAD centre %s instead of %s" % (np.round(f / v, 6), np.round(first / vol, 6))
        if not np.abs(S - second).max() <= t * sc:
            return "wrong-cad", "CAD second moments off by %.3g of %.3g" % (np.abs(S - second).max(), sc)
    return None


# ------------------------------------------------------------------ faults in the layers below
def exception(name):
    if name == "StdFail_NotDone":
        try:
            from OCP.StdFail import StdFail_NotDone
            return StdFail_NotDone("simulated CAD failure")
        except Exception:
            return RuntimeError("simulated CAD failure")
    return {"ValueError": ValueError, "MemoryError": MemoryError, "RuntimeError": RuntimeError, "FloatingPointError": FloatingPointError,
            "ZeroDivisionError": ZeroDivisionError}[name]("simulated failure")


class Fault:
    """Raises at the entry of the nth function of a layer."""
    def __init__(self, where, nth, exc):
        self.where, self.left, self.exc, self.fired, self.seen = where, nth, exc, None, 0

    def hit(self, fn, frame):
        b = os.path.basename(fn)
        if self.where == "cadquery":
            return "/cadquery/" in fn
        if self.where == "genCAD":
            return fn.endswith("newt/genCAD.py")
        if self.where == "direct":           # what the operation itself calls
            return ("/newt/" in fn or "/cadquery/" in fn) and b != "shapes.py" and self.caller(frame)
        return "/newt/" in fn and b not in ("shapes.py", "genCAD.py")

    @staticmethod
    def caller(frame):
        f = frame.f_back
        while f is not None and f.f_code.co_name in ("<listcomp>", "<genexpr>", "<lambda>", "<dictcomp>"):
            f = f.f_back
        return f is not None and f.f_code.co_filename.endswith("newt/shapes.py")

    def trace(self, frame, event, arg):
        if event == "call" and self.left:
            fn = frame.f_code.co_filename
            if self.hit(fn, frame) and frame.f_code.co_name not in ("<listcomp>", "<genexpr>", "<lambda>", "__del__", "<dictcomp>"):
                self.seen += 1
                self.left -= 1
                if not self.left:
                    self.fired = "%s:%s" % (os.path.basename(fn), frame.f_code.co_name)
                    raise exception(self.exc)
        return None

    def __enter__(self):
        sys.settrace(self.trace)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        return False


# ------------------------------------------------------------------ generation
KINDS = [("Annulus", 3), ("RectPrism", 3), ("TriPrism", 2), ("Cone", 2), ("Sphere", 3), ("NGon", 2), ("Tetrahedron", 2), ("Pyramid", 2)]


def gen_fault(r):
    w = r.pick(["cadquery", "cadquery", "genCAD", "newt", "newt", "direct", "direct", "direct"])
    nth = r.pick([1, 1, 2, 3, r.randrange(1, 8), r.randrange(1, 60)]) if w != "newt" else r.pick([1, 1, 2, 3, r.randrange(1, 30), r.randrange(1, 400)])
    if w == "genCAD":
        nth = r.pick([1, 1, 1, 2])
    if w == "direct":
        nth = r.pick([1, 2, 3, 4, 5, 6, r.randrange(1, 16)])
    return {"where": w, "nth": nth, "exc": r.pick(EXC)}


def gen(r, style):
    """style: plain (C09), faulty (C10), shared (C14)."""
    ops, M = [], {}
    n = r.randrange(4, 13)
    base = r.weighted([(2, 3), (3, 3), (4, 2), (5, 1), (6, .5), (1, .6), (0, .3)])
    outer_run = r.chance(.3)
    slow = style == "plain" and r.chance(.012)
    u = lambda lo, hi: round(r.uniform(lo, hi), 3)

    def angles():
        return [r.pick([0., math.pi / 2, -math.pi / 2, math.pi, u(-4, 4), u(-4, 4), u(-4, 4)]) for _ in range(3)]

    def emit(op):
        ops.append(op)
        apply_model(M, op)

    def new(slot, kind=None, inner=True, mass=None, p=None, lmax=None):
        kind = kind or r.weighted(KINDS)
        if mass is None:
            mass = u(.2, 5)
        if lmax is None:
            lmax = base if r.chance(.8) else max(0, base + r.pick([-2, -1, 1]))
        if kind in SLOW:
            lmax = min(lmax, r.pick([0, 1, 1, 2]))
        if not inner and kind == "Annulus":
            lmax = min(lmax, 5)
        emit(["new", slot, kind, lmax, inner, mass, p or gen_prim(r, kind)])

    def clear(a, b):
        """Move body b so that it fits body a."""
        A, B = M[a], M[b]
        if fits([A, B]):
            return True
        hosts = [p for p in A.parts if p["sign"] > 0 and p["ins"]]
        d = r.unit() if hasattr(r, "unit") else unit(r)
        if B.inner:
            ca = np.mean([p["c"] for p in A.parts], 0)
            ra = max(np.linalg.norm(p["c"] - ca) + p["R"] for p in A.parts)
            cb = np.mean([p["c"] for p in B.parts], 0)
            rb = max(np.linalg.norm(p["c"] - cb) + p["R"] for p in B.parts)
            t = ca + d * (1.05 * (ra + rb) + r.uniform(0, 1)) - cb
            emit(["move", b, [round(float(x), 4) for x in t], True, r.pick(["list", "tuple", "array"])])
        return fits([M[a], M[b]])

    if slow:
        new("a", r.pick(SLOW), True)
        k = ops[0][2]
        if k == "OuterCone":
            ops.clear(), M.clear()
            new("a", "OuterCone", False)
        outer_run = k == "OuterCone"
    tries = 0
    while len(ops) < n and tries < 40:
        tries += 1
        slots = sorted(M)
        what = r.weighted([("new", 3 if len(slots) < 4 else .3), ("rot", 3), ("move", 3), ("add", 3), ("hole", 1.2), ("convert", 1.5 if outer_run else .15),
                           ("bad", 1.5 if style == "faulty" else .2), ("edit", 2 if style == "shared" else 0), ("selfadd", .5 if style == "shared" else .1),
                           ("outer_new", 1.2 if outer_run else .1), ("save", .7 if style == "shared" else 0)])
        if what == "new" or not slots:
            s = next((x for x in "abcd" if x not in M), None) or r.pick(slots)
            made = [o for o in ops if o[0] == "new"]
            if made and r.chance(.45 if style == "shared" else .1):          # equal to one made before
                o = r.pick(made)
                new(s, o[2], o[4], o[5], list(o[6]), o[3])
            else:
                new(s)
            continue
        s = r.pick(slots)
        if what == "outer_new":
            k = r.pick(["Annulus", "Sphere"])
            x = next((x for x in "abcd" if x not in M), None) or s
            p = gen_prim(r, k)
            if k == "Annulus":
                p[1], p[2] = round(p[1] + .2, 3), round(p[2] + .2, 3)
            if k == "Sphere":
                c = unit(r) * (p[0] * u(1.5, 4))
                p[1] = [round(float(v), 3) for v in c]
            new(x, k, False, None, p)
        elif what == "rot":
            emit(["rot", s] + angles())
        elif what == "move":
            m = M[s]
            t = [u(-3, 3), u(-3, 3), u(-3, 3)] if not r.chance(.15) else [0., 0., 0.] if r.chance(.5) else [0., 0., u(-3, 3)]
            emit(["move", s, t, m.inner, r.pick(["list", "tuple", "array", "array"])])
        elif what == "convert":
            m = M[s]
            if m.inner:
                d = unit(r) * (m.size * u(1.5, 5) + 1)
                emit(["move", s, [round(float(v), 3) for v in d], False, r.pick(["list", "array"])])
        elif what == "add":
            o = [x for x in slots if x != s and M[x].inner == M[s].inner]
            if not o:
                continue
            k = r.pick([1, 1, 1, 2, 3])
            chosen = []
            for x in r.sample(o, min(k, len(o))):
                trial = [M[s]] + [M[y] for y in chosen] + [M[x]]
                if not fits(trial):
                    clear(s, x)
                    trial = [M[s]] + [M[y] for y in chosen] + [M[x]]
                if fits(trial):
                    chosen.append(x)
            if chosen:
                emit(["add", s, chosen, "list" if len(chosen) > 1 or r.chance(.5) else "one"])
        elif what == "hole":
            m = M[s]
            hosts = [p for p in m.parts if p["sign"] > 0 and p["ins"]]
            if not hosts or not m.inner:
                continue
            h = r.pick(hosts)
            x = next((x for x in "abcd" if x not in M), None)
            if not x:
                continue
            f = h["ins"][1] * u(.3, .8)
            kind = r.pick(["Sphere", "RectPrism"])
            p = [round(f, 4), [0., 0., 0.], "list"] if kind == "Sphere" else [round(f, 4), round(f, 4), round(f * .8, 4), u(-1, 1)]
            new(x, kind, True, -u(.05, .15) * abs(m.mass), p, m.lmax)
            emit(["move", x, [round(float(v), 5) for v in h["ins"][0]], True, "array"])
            if r.chance(.4):
                emit(["rot", x] + [0., 0., 0.])
            if fits([M[s], M[x]]):
                if r.chance(.7):
                    emit(["add", s, [x], r.pick(["list", "one"])])
                else:
                    emit(["add", x, [s], r.pick(["list", "one"])])
        elif what == "selfadd":
            emit(["add", s, [s], r.pick(["list", "one"])])
        elif what == "edit":
            emit(["edit", s, r.pick(["qlm", "com", "both", "args"])])
        elif what == "save":
            emit(["save", s])
        elif what == "bad":
            m = M[s]
            other = [x for x in slots if x != s]
            b = r.pick(["vec2", "vecstr", "vecnone", "rotnone", "addint", "addmixed", "addlistbad", "zeroconv", "outer2inner", "addkind", "rotstr", "scalar", "newbad"])
            emit(["bad", s, b, r.pick(other) if other else s])
    if style == "faulty":
        for op in ops:
            if op[0] in ("new", "rot", "move", "add", "save") and r.chance(.45):
                op.append({"fault": gen_fault(r)})
    return {"ops": ops}


def unit(r):
    v = np.array([r.gauss(0, 1) for _ in range(3)])
    return v / np.linalg.norm(v)


def apply_model(M, op):
    k, s = op[0], op[1]
    if k == "new":
        M[s] = Model(*op[2:7])
    elif s not in M:
        return
    elif k == "rot":
        M[s].rotate(*op[2:5])
    elif k == "move":
        M[s].move(op[2], op[3])
    elif k == "add":
        if all(x in M and M[x].inner == M[s].inner for x in op[2]):
            others = [M[x] if x != s else M[x].snapshot() for x in op[2]]
            M[s].add(others)
    elif k == "edit":
        if op[2] in ("qlm", "both", "com"):
            M[s].judged = False


# ------------------------------------------------------------------ execution
def perform(B, op, args):
    """The real operation."""
    import newt.shapes as sh
    k, s = op[0], op[1]
    if k == "new":
        B[s] = getattr(sh, op[2])(*args)
    elif k == "rot":
        B[s].rotate(*op[2:5])
    elif k == "move":
        B[s].translate(args, op[3])
    elif k == "add":
        B[s].add(args)
    elif k == "save":
        B[s].save_shape(args)


def make_args(op, B, tmp):
    k = op[0]
    form = lambda v, f: list(v) if f == "list" else tuple(v) if f == "tuple" else np.array(v, float)
    if k == "new":
        p = list(op[6])
        if op[2] == "Sphere":
            p = [p[0], form(p[1], p[2])]
        if op[2] == "Platehole":
            return [9, op[3], op[4], op[5]] + p
        return [op[3], op[4], op[5]] + p
    if k == "move":
        return form(op[2], op[4])
    if k == "add":
        return [B[x] for x in op[2]] if op[3] == "list" else B[op[2][0]]
    if k == "save":
        return tmp + "/" + op[1]
    return None


def frozen(a):
    """Value of caller data, to see whether an operation changed it."""
    if isinstance(a, np.ndarray):
        return ("arr", a.tobytes())
    if isinstance(a, (list, tuple)):
        return (type(a).__name__,) + tuple(frozen(x) for x in a)
    if isinstance(a, (int, float, str, bool)) or a is None:
        return a
    return id(a)


def bad_call(B, op):
    import newt.shapes as sh
    b, o, w = B[op[1]], B.get(op[3]), op[2]
    if w == "vec2":
        b.translate([1., 2.], b.inner)
    elif w == "vecstr":
        b.translate("abc", b.inner)
    elif w == "vecnone":
        b.translate([1., None, 2.], b.inner)
    elif w == "scalar":
        b.translate(2.0, b.inner)
    elif w == "rotnone":
        b.rotate(.1, None, .2)
    elif w == "rotstr":
        b.rotate(.1, .3, "x")
    elif w == "addint":
        b.add(5)
    elif w == "addlistbad":
        b.add([o, 7])
    elif w == "addmixed":
        b.add([o, None])
    elif w == "zeroconv":
        if not b.inner:
            return False
        b.translate([0., 0., 0.], False)
    elif w == "outer2inner":
        if b.inner:
            return False
        b.translate([1., 0., 0.], True)
    elif w == "addkind":
        if o.inner == b.inner:
            return False
        b.add(o)
    elif w == "newbad":
        B[op[1]] = sh.Annulus(2, True, "heavy", 1., .5, 1., 0., 1.)
    return True


def history(trace, opts):
    """Runs in the simulated process.  opts: judge (compare with the reference), faults (inject), isolate (watch the others)."""
    import tempfile
    import shutil
    world.fresh_process(stall=True)
    B, M = {}, {}
    st, log, states = core.Stats(), [], []
    viol = None
    tmp = tempfile.mkdtemp(prefix="bodies-", dir=world.FIX)
    kept, last, born = [], {}, {}

    def bad(cls, k, op, text):
        nonlocal viol
        if viol is None:
            viol = {"class": cls, "detail": "step %d %s: %s" % (k, spell(op), text)}

    try:
        for k, full in enumerate(trace["ops"]):
            fault = full[-1]["fault"] if isinstance(full[-1], dict) and "fault" in full[-1] else None
            op = [x for x in full if not (isinstance(x, dict) and "fault" in x)]
            s = op[1]
            if op[0] != "new" and s not in B or op[0] == "add" and any(x not in B or M[x].inner != M[s].inner for x in op[2]):
                continue
            if op[0] == "bad" and op[3] not in B:
                continue
            if op[0] == "move" and M[s].inner != op[3] and not M[s].inner:
                continue
            if op[0] == "move" and not op[3] and M[s].inner and not any(op[2]):
                continue
            if op[0] == "edit":
                if op[2] in ("qlm", "both"):
                    B[s].qlm += 1 + 2j
                if op[2] in ("com", "both"):
                    B[s].com += 7.5
                if op[2] == "args":
                    for a in kept:
                        if isinstance(a, np.ndarray):
                            a += 3.25
                        elif isinstance(a, list):
                            del a[:]
                st.add("probe.caller_edits")
            before = {x: snap(B[x]) for x in B} if opts.get("isolate") or fault or op[0] == "bad" else {}
            if op[0] == "edit":
                before = {x: v for x, v in last.items()}
            if op[0] == "bad":
                try:
                    did = bad_call(B, op)
                    raised = None
                except Exception as e:
                    did, raised = True, type(e).__name__
                if did:
                    st.add("fault.unusable_argument_" + op[2])
                    if raised is None:
                        bad("accepted", k, op, "an unusable request was accepted without an error")
                        break
                    for x in before:
                        df = differ(before[x], snap(B[x]))
                        if df:
                            bad("partial", k, op, "raised %s but changed %s of body %s" % (raised, ", ".join(df), x))
                    log.append([k, "bad", raised])
                    states.append(core.digest(["bad", op[2], raised, sorted((m.kind, m.inner) for m in M.values())]))
                last = {x: snap(B[x]) for x in B} if opts.get("isolate") else {}
                if viol:
                    break
                continue
            if op[0] != "edit":
                args = make_args(op, B, tmp)
                fz = frozen(args)
                fired = None
                if fault and opts.get("faults"):
                    have = B.get(s)
                    try:
                        with Fault(fault["where"], fault["nth"], fault["exc"]) as f:
                            perform(B, op, args)
                        raised = None
                    except Exception as e:
                        raised = type(e).__name__
                    fired = f.fired
                    if fired:
                        st.add("fault.%s_%s" % (fault["where"], fault["exc"]))
                        st.add("probe.fault_in_" + op[0])
                        states.append(core.digest([op[0], fired, M[s].kind if s in M else op[2], M[s].inner if s in M else 0, raised is None]))
                    elif raised:
                        bad("refused", k, op, "raised %s although nothing failed" % raised)
                        break
                    if raised:
                        for x in before:
                            if x not in B:
                                bad("partial", k, op, "body %s disappeared" % x)
                                continue
                            df = differ(before[x], snap(B[x]))
                            if df:
                                bad("partial", k, op, "failed (%s in %s) but changed %s of body %s" % (fault["exc"], fired, ", ".join(df), x))
                        if frozen(args) != fz:
                            bad("partial", k, op, "failed (%s in %s) but changed the caller's arguments" % (fault["exc"], fired))
                        log.append([k, op[0], "failed", fired])
                        if viol:
                            break
                        args = make_args(op, B, tmp) if frozen(args) != fz else args
                    done = raised is None
                else:
                    done = False
                if not done:
                    try:
                        perform(B, op, args)
                    except Exception as e:
                        bad("refused", k, op, "raised %s (%s)%s" % (type(e).__name__, str(e)[:80], " when repeated after a failure" if fired else ""))
                        break
                if frozen(args) != fz:
                    bad("shared-arguments", k, op, "changed the vector or list it was given")
                kept.append(args if op[0] != "new" else next((a for a in args if isinstance(a, (list, np.ndarray))), None))
            apply_model(M, op)
            st.add("probe.op_" + op[0])
            if op[0] == "new":
                st.add("probe.kind_" + op[2])
            if opts.get("judge") and op[0] not in ("edit", "save"):
                j = judge(B[s], M[s])
                if j:
                    bad(j[0], k, op, "body %s (%s): %s" % (s, M[s].kind, j[1]))
            if opts.get("isolate"):
                last = {x: snap(B[x]) for x in B}
                if op[0] == "new":
                    key = core.digest(op[2:7])
                    if key in born:
                        st.add("probe.equal_bodies")
                        df = differ(born[key], last[s])
                        if df:
                            bad("shared-state", k, op, "made a body that differs in %s from an equal one made before" % ", ".join(df))
                    born.setdefault(key, last[s])
                for x in before:
                    if x == s and op[0] not in ("save",):
                        continue
                    df = differ(before[x], last[x])
                    if df:
                        bad("shared-state", k, op, "changed %s of body %s" % (", ".join(df), x))
                if op[0] == "edit" and op[2] == "args":
                    df = differ(before[s], last[s])
                    if df:
                        bad("shared-arguments", k, op, "editing a vector that had been passed to it changed %s of body %s" % (", ".join(df), s))
            states.append(core.digest([op[0], M[s].kind, M[s].inner, len(M[s].parts), M[s].lmax, sorted((m.kind, m.inner) for x, m in M.items() if x != s)]))
            log.append([k, op[0], V.digest(np.round(np.asarray(B[s].qlm, complex), 6) + 0.0)])
            if viol:
                break
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    final = {x: {"s": snap(B[x]), "q": np.array(B[x].qlm, complex), "c": np.array(B[x].com, float), "scale": [M[x].s.copy(), M[x].size]} for x in B} if opts.get("final") else None
    return {"violation": viol, "digest": core.digest([log, viol]), "stats": dict(st), "states": states, "log": log, "final": final,
            "nontrivial": len(log) > 1, "sim_time": world.CLOCK.elapsed()}


def run(trace, classes, **opts):
    st, r = core.isolate(lambda: history(trace, opts), 120)
    if st != "ok":
        raise core.HarnessError("run died %r" % (r,))
    if r["violation"] and not r["violation"]["class"].startswith(classes):
        r["violation"] = None
        r["digest"] = core.digest([r["log"], None])
        r["stats"]["probe.cut_short"] = 1
    return r


def spell(op):
    return "%s(%s)" % (op[0], ", ".join(str(x) for x in op[1:] if not isinstance(x, dict)))[:160]


def shrink(trace):
    from .checks.common import shrink_list
    import copy
    yield from shrink_list(trace, "ops", 1)
    for i, op in enumerate(trace["ops"]):
        if isinstance(op[-1], dict):
            t = copy.deepcopy(trace)
            t["ops"][i] = op[:-1]
            yield t
        if op[0] == "new" and op[3] > 1:
            t = copy.deepcopy(trace)
            t["ops"][i][3] = 1
            yield t
        if op[0] == "rot":
            for j in (2, 3, 4):
                if op[j]:
                    t = copy.deepcopy(trace)
                    t["ops"][i][j] = 0.
                    yield t
        if op[0] == "add" and len(op[2]) > 1:
            for j in range(len(op[2])):
                t = copy.deepcopy(trace)
                t["ops"][i][2] = op[2][:j] + op[2][j + 1:]
                yield t


def same_end(a, b):
    """None, or where two final states differ beyond rounding."""
    if sorted(a) != sorted(b):
        return "the set of bodies"
    for x in sorted(a):
        p, q = a[x], b[x]
        for k in ("inner", "lmax", "pmass"):
            if p["s"].get(k) != q["s"].get(k):
                return "%s of body %s" % (k, x)
        if abs(p["s"]["mass"] - q["s"]["mass"]) > 1e-12 * (1 + abs(q["s"]["mass"])):
            return "the mass of body %s" % x
        if p["q"].shape != q["q"].shape or not np.allclose(p["q"], q["q"], rtol=1e-10, atol=1e-12 * (1 + np.abs(q["q"]).max()), equal_nan=True):
            return "the moments of body %s" % x
        if not np.allclose(p["c"], q["c"], rtol=1e-10, atol=1e-10, equal_nan=True):
            return "the centre of mass of body %s" % x
        if "mesh" in differ({"mesh": p["s"].get("mesh", [0.])}, {"mesh": q["s"].get("mesh", [0.])}):
            return "the CAD model of body %s" % x
    return None
