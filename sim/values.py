"""Values that travel through simulated histories: decoding of specs, exact snapshots, tolerant comparison."""
import hashlib
import pickle
import random
import numpy as np


class Rng(random.Random):
    """The only source of choices in a run; seeded by a string, independent of PYTHONHASHSEED."""
    def __init__(self, *key):
        super().__init__(int.from_bytes(hashlib.sha256(":".join(map(str, key)).encode()).digest()[:8], "big"))

    def chance(self, p):
        return self.random() < p

    def pick(self, seq):
        return seq[int(self.random() * len(seq))]

    def weighted(self, pairs):
        tot = sum(w for _, w in pairs)
        x = self.random() * tot
        for v, w in pairs:
            x -= w
            if x < 0:
                return v
        return pairs[-1][0]


def _layout(a, lay):
    if lay == "F":
        return np.asfortranarray(a)
    if lay == "strided":           # every other element of a larger buffer
        big = np.zeros(tuple(2 * s for s in a.shape), dtype=a.dtype)
        big[...] = 7
        sl = tuple(slice(None, None, 2) for _ in a.shape)
        big[sl] = a
        return big[sl]
    if lay == "rev":               # negative strides
        return a[::-1].copy()[::-1]
    if lay == "ro":
        a = a.copy()
        a.setflags(write=False)
        return a
    return np.ascontiguousarray(a)


def moments(L, seed, scale=1.0, conj=True):
    """A random but structurally valid moment table."""
    r = Rng("mom", L, seed)
    q = np.zeros([L + 1, 2 * L + 1], dtype=complex)
    for l in range(L + 1):
        for m in range(l + 1):
            v = complex(r.gauss(0, 1), r.gauss(0, 1) if m else 0.0) * scale
            q[l, L + m] = v
            q[l, L - m] = ((-1) ** m * v.conjugate()) if conj else complex(r.gauss(0, 1), r.gauss(0, 1))
    return q


def points(n, seed, off=(0, 0, 0)):
    r = Rng("pts", n, seed)
    return np.array([[r.uniform(.1, 2)] + [r.uniform(-1, 1) + o for o in off] for _ in range(n)]).reshape(n, 4)


def decode(s):
    """spec (JSON) -> fresh value. Specs are lists headed by a tag; anything else is itself."""
    if not isinstance(s, list):
        return s
    t = s[0]
    if t == "qlm":
        _, L, seed, lay, dt = s
        a = moments(L, seed)
        if dt == "f8":
            a = a.real.copy()
        elif dt == "c8":
            a = a.astype("complex64")
        elif dt == "zero":
            a = a * 0
        return _layout(a, lay)
    if t == "pts":
        _, n, seed, lay, dt, off = s
        a = points(n, seed, off)
        if dt == "i8":
            a = np.rint(a * 5).astype(int)
            a[:, 0] = np.abs(a[:, 0]) + 1
        elif dt == "f4":
            a = a.astype("f4")
        if lay == "1d":
            return a[0].copy()
        return _layout(a, lay)
    if t == "vec":
        _, v, kind = s
        if kind == "list":
            return list(v)
        if kind == "tuple":
            return tuple(v)
        if kind == "int":
            return np.array([int(round(x)) for x in v])
        return _layout(np.array(v, dtype=float), kind)
    if t == "arr":
        _, v, lay = s
        return _layout(np.array(v, dtype=float), lay)
    if t == "carr":
        _, v, lay = s
        return _layout(np.array([complex(a, b) for a, b in v]), lay)
    if t == "iarr":
        return np.array(s[1], dtype=int)
    if t == "np":
        return getattr(np, s[1])(s[2])
    if t == "bool":
        return bool(s[1])
    if t == "ds":                  # rotation-matrix-like list for degrees 0..L
        _, L, seed = s
        r = Rng("ds", L, seed)
        return [np.array([[complex(r.gauss(0, 1), r.gauss(0, 1)) for _ in range(2 * l + 1)] for _ in range(2 * l + 1)])
                for l in range(L + 1)]
    if t == "tm":                  # coaxial translation matrices
        _, L, seed = s
        r = Rng("tm", L, seed)
        return [np.array([[r.gauss(0, 1) for _ in range(L + 1 - m)] for _ in range(L + 1 - m)]) for m in range(L + 1)]
    if t == "fix":
        from . import world
        return world._fixdir(s[1])
    if t == "bad":
        return {"none": None, "str": "x", "nan": float("nan"), "neg": -1.0, "empty": np.zeros((0, 4)), "short": np.array([1.0]),
                "ragged": [[1, 2], [3]], "obj": np.array([None, 1], dtype=object), "huge": 1e308, "scalar": 3.0}[s[1]]
    raise ValueError("unknown spec %r" % (s,))


def freeze(v):
    """Exact snapshot: structure, dtype, bytes."""
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return ("ao", v.shape, tuple(freeze(x) for x in v.ravel().tolist()))
        return ("a", v.shape, v.dtype.str, v.tobytes())
    if isinstance(v, np.generic):
        return ("g", v.dtype.str, v.tobytes())
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, tuple(freeze(x) for x in v))
    if isinstance(v, dict):
        return ("d", tuple((k, freeze(x)) for k, x in v.items()))
    if isinstance(v, float):
        return ("f", v.hex() if v == v else "nan")
    if isinstance(v, (int, str, bytes, complex, bool)) or v is None:
        return (type(v).__name__, repr(v))
    return ("o", type(v).__name__)


def flags(v):
    """What a call could change about a container without touching the numbers."""
    if isinstance(v, np.ndarray):
        return (v.shape, v.strides, v.dtype.str, bool(v.flags.writeable))
    if isinstance(v, (list, tuple)):
        return tuple(flags(x) for x in v)
    return None


def digest(v):
    return hashlib.sha1(pickle.dumps(freeze(v), protocol=4)).hexdigest()[:16]


COARSE = [False]


def single(v):
    """Does any argument carry single precision?"""
    if isinstance(v, np.ndarray) or isinstance(v, np.generic):
        return v.dtype.str[1:] in ("f4", "c8", "f2")
    if isinstance(v, (list, tuple)):
        return any(single(x) for x in v)
    return False


def _num_same(a, b):
    """Tolerant numeric comparison of equal-shape arrays.  Tolerance follows the scale of each row, so that the small
    high-degree entries of a moment table count, while rounding noise far below the table's scale does not."""
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        return "shape %s, expected %s" % (a.shape, b.shape)
    if a.dtype.kind != b.dtype.kind:
        return "dtype %s, expected %s" % (a.dtype, b.dtype)
    if a.dtype.kind not in "fciub":
        return None if freeze(a) == freeze(b) else "different value"
    if a.size == 0:
        return None
    a = a.astype(complex)
    b = b.astype(complex)
    fin = np.isfinite(b)
    if not np.array_equal(np.isfinite(a), fin):
        return "finite in different places"
    eps, floor = (1e-10, 1e-13) if not COARSE[0] else (1e-4, 1e-5)
    d = np.where(fin, np.abs(np.where(fin, a, 0) - np.where(fin, b, 0)), 0)
    m = np.where(fin, np.abs(np.where(fin, b, 0)), 0)
    row = m.max(axis=-1, keepdims=True) if m.ndim else m
    tol = eps * row + floor * m.max() + 1e-300
    bad = d > tol
    if bad.any():
        i = np.unravel_index(np.argmax(np.where(bad, d, 0)), d.shape)
        return "value %r at %s, expected %r" % (complex(a[i]), tuple(int(x) for x in i), complex(b[i]))
    return None


def same(a, b, path=""):
    """None when a equals the expected b, else a sentence."""
    if isinstance(b, np.ndarray) or isinstance(b, np.generic):
        if not isinstance(a, (np.ndarray, np.generic)):
            if isinstance(b, np.generic) and isinstance(a, (int, float, complex)):
                r = _num_same(np.asarray(a, dtype=complex), np.asarray(b, dtype=complex))
                return r and path + r
            return "%sgot %s, expected an array" % (path, type(a).__name__)
        r = _num_same(a, b)
        return r and path + r
    if isinstance(b, (list, tuple)):
        if type(a) is not type(b) or len(a) != len(b):
            return "%sgot %s of length %s, expected %s of length %d" % (path, type(a).__name__, len(a) if hasattr(a, "__len__") else "-", type(b).__name__, len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            r = same(x, y, path + "[%d] " % i)
            if r:
                return r
        return None
    if isinstance(b, (float, complex, int)) and not isinstance(b, bool):
        if not isinstance(a, (int, float, complex, np.generic)):
            return "%sgot %s, expected a number" % (path, type(a).__name__)
        r = _num_same(np.asarray(a, dtype=complex), np.asarray(b, dtype=complex))
        return r and path + r
    if freeze(a) != freeze(b):
        return "%sgot %.80r, expected %.80r" % (path, a, b)
    return None


def writeable(v):
    if isinstance(v, np.ndarray):
        return bool(v.flags.writeable)
    if isinstance(v, (list, tuple)):
        return all(writeable(x) for x in v)
    return True


def scribble(v, salt):
    """The caller's own in-place edit of a value: every element changes.  Returns whether anything was edited."""
    if isinstance(v, np.ndarray):
        if not v.flags.writeable or v.size == 0 or v.dtype == object:
            return False
        if v.dtype.kind in "iu":
            v[...] = v * 3 + 1 + salt
        elif v.dtype.kind == "b":
            v[...] = ~v
        else:
            v[...] = np.where(np.isfinite(v), v, 0) * 1.7 + (0.37 + salt)
        return True
    if isinstance(v, list):
        did = False
        for i, x in enumerate(v):
            if isinstance(x, (np.ndarray, list)):
                did |= scribble(x, salt + i)
            elif isinstance(x, (int, float, complex)) and not isinstance(x, bool):
                v[i] = x * 1.5 + salt + 1
                did = True
        if salt % 3 == 0 and v:
            v.append(v[0])
            did = True
        return did
    if isinstance(v, tuple):
        return any([scribble(x, salt + i) for i, x in enumerate(v)])
    return False
