"""Reference model of mass distributions: weighted points (exact quadrature for polynomials), moved as points.
Shares no code with the toolkit; used as the oracle for scripts and bodies."""
import math
import numpy as np

GL = {}


def gl(n, a=-1.0, b=1.0):
    if n not in GL:
        GL[n] = np.polynomial.legendre.leggauss(n)
    x, w = GL[n]
    return a + (b - a) * (x + 1) / 2, w * (b - a) / 2


def grid(*axes):
    """Tensor product of (nodes, weights) pairs -> list of node arrays, weights."""
    xs = np.meshgrid(*[a[0] for a in axes], indexing="ij")
    w = 1.0
    for k, a in enumerate(axes):
        sh = [1] * len(axes)
        sh[k] = -1
        w = w * a[1].reshape(sh)
    return [x.ravel() for x in xs], np.broadcast_to(w, xs[0].shape).ravel().copy()


class Cloud:
    """w: masses, x: positions (n,3)."""
    def __init__(self, w, x):
        self.w, self.x = np.asarray(w, float), np.asarray(x, float).reshape(-1, 3)

    def __add__(self, o):
        return Cloud(np.concatenate([self.w, o.w]), np.concatenate([self.x, o.x]))

    def scaled(self, f):
        return Cloud(self.w * f, self.x)

    def shift(self, d):
        return Cloud(self.w, self.x + np.asarray(d, float))

    def rotate(self, a, b, c):
        """About fixed axes: first by c about z, then by b about y, then by a about z."""
        return Cloud(self.w, self.x @ (rz(a) @ ry(b) @ rz(c)).T)

    @property
    def mass(self):
        return float(self.w.sum())

    @property
    def com(self):
        return (self.w[:, None] * self.x).sum(0) / self.w.sum()

    def second(self):
        """Second moments about the origin, 3x3."""
        return np.einsum("n,ni,nj->ij", self.w, self.x, self.x)

    def inner(self, L):
        return table(self.w, self.x, L, False)

    def outer(self, L):
        return table(self.w, self.x, L, True)

    def scale(self, L, outer=False):
        """Per-degree size of the terms summed, for tolerances."""
        r = np.sqrt((self.x ** 2).sum(1))
        if outer:
            return np.array([(np.abs(self.w) * r ** -(l + 1.0)).sum() for l in range(L + 1)])
        return np.array([(np.abs(self.w) * r ** l).sum() for l in range(L + 1)])


EMPTY = Cloud(np.zeros(0), np.zeros((0, 3)))


def rz(a):
    return np.array([[math.cos(a), -math.sin(a), 0], [math.sin(a), math.cos(a), 0], [0, 0, 1]])


def ry(b):
    return np.array([[math.cos(b), 0, math.sin(b)], [0, 1, 0], [-math.sin(b), 0, math.cos(b)]])


def table(w, x, L, outer):
    """q_lm = sum w r^l conj(Y_lm), or Q_lm = sum w r^-(l+1) Y_lm, by the standard recursion for regular harmonics."""
    q = np.zeros((L + 1, 2 * L + 1), complex)
    if not len(w):
        return q
    X, Y, Z = x.T
    r2 = X * X + Y * Y + Z * Z
    S = {}
    # unnormalised regular solid harmonics r^l P_l^m(cos) e^{i m phi} with the Condon-Shortley phase
    S[0, 0] = np.ones_like(X, dtype=complex)
    for m in range(L + 1):
        if m:
            S[m, m] = -(2 * m - 1) * (X + 1j * Y) * S[m - 1, m - 1]
        if m + 1 <= L:
            S[m + 1, m] = (2 * m + 1) * Z * S[m, m]
        for l in range(m + 2, L + 1):
            S[l, m] = ((2 * l - 1) * Z * S[l - 1, m] - (l + m - 1) * r2 * S[l - 2, m]) / (l - m)
    for (l, m), s in S.items():
        n = math.sqrt((2 * l + 1) / (4 * math.pi) * math.factorial(l - m) / math.factorial(l + m))
        if outer:
            v = (w * s * r2 ** -(l + .5)).sum() * n
            q[l, L + m] = v
            q[l, L - m] = (-1) ** m * np.conj(v)
        else:
            v = (w * np.conj(s)).sum() * n
            q[l, L + m] = v
            q[l, L - m] = (-1) ** m * np.conj(v)
    return q


# ------------------------------------------------------------------ solids of unit density, n = polynomial degree to integrate exactly
def box(x0, x1, y0, y1, z0, z1, n=8):
    k = n // 2 + 1
    (x, y, z), w = grid(gl(k, x0, x1), gl(k, y0, y1), gl(k, z0, z1))
    return Cloud(w, np.array([x, y, z]).T)


def sector(ri, ro, z0, z1, phi0, phi1, n=8):
    """Cylindrical annulus section."""
    k = n // 2 + 2
    full = abs(phi1 - phi0 - 2 * math.pi) < 1e-12
    np_ = n + 3
    ph = ((phi0 + 2 * math.pi * np.arange(np_) / np_), np.full(np_, 2 * math.pi / np_)) if full else gl(n + 14, phi0, phi1)
    (r, p, z), w = grid(gl(k, ri, ro), ph, gl(k, z0, z1))
    return Cloud(w * r, np.array([r * np.cos(p), r * np.sin(p), z]).T)


def cone(r0, r1, z0, z1, phi0, phi1, n=8):
    """Section of a (truncated) cone, radius r0 at z0 to r1 at z1."""
    k = n // 2 + 3
    full = abs(phi1 - phi0 - 2 * math.pi) < 1e-12
    np_ = n + 3
    ph = ((phi0 + 2 * math.pi * np.arange(np_) / np_), np.full(np_, 2 * math.pi / np_)) if full else gl(n + 14, phi0, phi1)
    (s, p, z), w = grid(gl(k, 0, 1), ph, gl(k, z0, z1))
    R = r0 + (r1 - r0) * (z - z0) / (z1 - z0)
    r = s * R
    return Cloud(w * s * R * R, np.array([r * np.cos(p), r * np.sin(p), z]).T)


def ball(r, n=8):
    k = n // 2 + 2
    np_ = n + 3
    ph = (2 * math.pi * np.arange(np_) / np_, np.full(np_, 2 * math.pi / np_))
    (s, p, u), w = grid(gl(k + 1, 0, r), ph, gl(k, -1, 1))
    rho = s * np.sqrt(1 - u * u)
    return Cloud(w * s * s, np.array([rho * np.cos(p), rho * np.sin(p), s * u]).T)


def tet(a, b, c, d, n=8):
    """Tetrahedron from its corners, by collapsed coordinates."""
    k = n // 2 + 2
    (u, v, t), w = grid(gl(k, 0, 1), gl(k, 0, 1), gl(k, 0, 1))
    l1 = u
    l2 = (1 - u) * v
    l3 = (1 - u) * (1 - v) * t
    jac = (1 - u) ** 2 * (1 - v)
    a, b, c, d = [np.asarray(q, float) for q in (a, b, c, d)]
    vol6 = abs(np.linalg.det(np.array([b - a, c - a, d - a])))
    x = a + np.outer(l1, b - a) + np.outer(l2, c - a) + np.outer(l3, d - a)
    return Cloud(w * jac * vol6, x)


def prism(poly, z0, z1, n=8):
    """Right prism over a polygon star-shaped about its first corner."""
    out = EMPTY
    p = [np.asarray(q, float) for q in poly]
    k = n // 2 + 2
    for i in range(1, len(p) - 1):
        a, b, c = p[0], p[i], p[i + 1]
        cr = (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
        (u, v, z), w = grid(gl(k, 0, 1), gl(k, 0, 1), gl(k, z0, z1))
        x = a[0] + u * (b[0] - a[0]) + (1 - u) * v * (c[0] - a[0])
        y = a[1] + u * (b[1] - a[1]) + (1 - u) * v * (c[1] - a[1])
        out = out + Cloud(w * (1 - u) * cr, np.array([x, y, z]).T)
    if out.w.sum() < 0:
        out = out.scaled(-1)
    return out


def segment(r, d, z0, z1, n=8):
    """Circular segment x >= d of a cylinder of radius r (|d| < r)."""
    th = math.acos(d / r)
    k = n + 14
    # parametrise the chord side: x from d to r cos(t), y = r sin(t)
    (t, s, z), w = grid(gl(k + 10, -th, th), gl(n // 2 + 2, 0, 1), gl(n // 2 + 2, z0, z1))
    wid = r * np.cos(t) - d
    x = d + s * wid
    y = r * np.sin(t)
    return Cloud(w * wid * r * np.cos(t), np.array([x, y, z]).T)


def slanted(r, z0, z1, theta, n=8):
    """Hole of radius r drilled through a plate at an angle theta in the xz-plane; centred on the origin."""
    (s, p, z), w = grid(gl(n // 2 + 2, 0, r), (2 * math.pi * np.arange(n + 3) / (n + 3), np.full(n + 3, 2 * math.pi / (n + 3))), gl(n // 2 + 2, z0, z1))
    c = math.cos(theta)
    return Cloud(w * s / c, np.array([s * np.cos(p) / c + z * math.tan(theta), s * np.sin(p), z]).T)


def drilled(r, R, n=8):
    """The part of a cylinder of radius R along y that a drill of radius r along z removes."""
    k = n + 40
    (s, p, u), w = grid(gl(n // 2 + 20, 0, r), (2 * math.pi * np.arange(k) / k, np.full(k, 2 * math.pi / k)), gl(n // 2 + 2, -1, 1))
    x, y = s * np.cos(p), s * np.sin(p)
    h = np.sqrt(np.maximum(R * R - x * x, 0))
    return Cloud(w * s * h, np.array([x, y, u * h]).T)
