"""Catalogue of the toolkit's public calls: how to make arguments, siblings of arguments, and what kind a result is."""
import copy
import importlib
from . import values as V


def fn(name):
    mod, f = name.rsplit(".", 1)
    return getattr(importlib.import_module("newt." + mod), f)


# ---- argument generators: g(rng, ctx) -> spec; ctx carries L and other per-call choices ----
LAYS = [("C", 10), ("F", 1), ("strided", 1), ("ro", 1), ("rev", 1)]
DTS = [("c16", 12), ("f8", 1), ("c8", 1), ("zero", .5)]


def L_(r, c):
    return c["L"]


def length(r, c):
    return r.pick([.3, .5, .75, 1.0, 1.25, 2.0, round(r.uniform(.2, 2), 3)])


def slen(r, c):        # a signed length
    return length(r, c) * r.pick([1, 1, -1])


def mass(r, c):
    return r.pick([1.0, 2.5, -1.5, 3, round(r.uniform(.1, 5), 3)])


def dens(r, c):
    return r.pick([1.0, 2.5, round(r.uniform(.1, 5), 3)])


def ang(r, c):
    return r.pick([0, 0.0, .5, -.5, 1.0, 3.141592653589793, 1.5707963267948966, -1.5707963267948966, 6.283185307179586, round(r.uniform(-7, 7), 3)])


def half(r, c):
    return r.pick([.3, .5, 1.0, 3.141592653589793, round(r.uniform(.1, 3.1), 3)])


def ninner(r, c):
    return c["lo"]


def nouter(r, c):
    return c["hi"]


def qlm(r, c):
    return ["qlm", c["L"], r.randrange(4), r.weighted(LAYS), r.weighted(DTS)]


def qlm2(r, c):
    L = c["L"] if r.chance(.93) else max(0, c["L"] - 1)
    return ["qlm", L, r.randrange(4), r.weighted(LAYS), r.weighted(DTS)]


def ds(r, c):
    return ["ds", c["L"], r.randrange(3)]


def tm(r, c):
    return ["tm", c["L"], r.randrange(3)]


def vec(r, c):
    k = r.randrange(9)
    v = [[0, 0, 0], [0.0, 0.0, .75], [0.0, 0.0, -.75], [1.0, 0, 0], [0, 1.5, 0]][k] if k < 5 else [round(r.uniform(-2, 2), 2) for _ in range(3)]
    return ["vec", v, r.weighted([("C", 6), ("list", 3), ("tuple", 1), ("int", 1), ("ro", 1), ("strided", 1)])]


def axis(r, c):
    return ["vec", r.pick([[0, 0, 1], [0, 1, 0], [1, 0, 0], [1.0, 1.0, 0.0], [.3, -.2, .9]]), r.weighted([("C", 3), ("list", 3), ("ro", 1)])]


def pts(r, c):
    return ["pts", r.pick([1, 2, 3, 4, 5]), r.randrange(5), r.weighted(LAYS + [("1d", 2)]), r.weighted([("f8", 10), ("i8", 1), ("f4", 1)]), [0, 0, 0]]


def pts_far(r, c):
    p = pts(r, c)
    p[5] = r.pick([[5, 0, 0], [0, 4, 1], [3, 3, 3]])
    return p


def pts_far2d(r, c):
    p = pts_far(r, c)
    if p[3] == "1d":
        p[3] = "C"
    return p


def pts2d(r, c):
    p = pts(r, c)
    if p[3] == "1d":
        p[3] = "C"
    return p


def pt1(r, c):
    p = pts(r, c)
    p[3] = "1d"
    return p


def xyz(r, c):
    p = pts(r, c)
    if p[3] == "1d":
        p[3] = "C"
    p[0] = p[0]
    return ["arr", [[round(r.uniform(-2, 2), 3) for _ in range(3)] for _ in range(r.pick([1, 2, 4]))], r.weighted(LAYS)]


def cnt(r, c):
    return r.pick([1, 2, 3, 4, 5, 6])


def cnt2(r, c):
    return r.pick([2, 3, 4])


def nsides(r, c):
    return r.pick([3, 4, 5, 6])


def lmbd(r, c):
    return r.pick([.1, .5, 1.0, 2.0])


def l_(r, c):
    return c["L"]


def m_(r, c):
    return r.randrange(-c["L"], c["L"] + 1)


def cnst(r, c):
    return r.pick([1.0, 6.67428e-11, 2.5])


def angles(r, c):
    return ["arr", [round(r.uniform(0, 6.3), 3) for _ in range(r.pick([1, 3, 5]))], r.weighted([("C", 5), ("ro", 1), ("strided", 1)])]


def tc(r, c):
    return ["carr", [[round(r.uniform(-1, 1), 3), round(r.uniform(-1, 1), 3)] for _ in range(c["L"] + 1)], r.weighted([("C", 5), ("ro", 1), ("strided", 1)])]


def flag(r, c):
    return ["bool", r.randrange(2)]


def trans(r, c):
    return r.pick(["inner-inner", "inner-outer", "outer-outer"])


def euler(r, c):
    return ["vec", [ang(r, c), r.pick([0, .4, 1.2, -.7]), ang(r, c)], r.weighted([("list", 3), ("tuple", 1), ("C", 2)])]


def posc(r, c):
    return round(r.uniform(-3, 3), 2)


def ach(r, c):
    return min(c["L"], 5)


def ms_arr(r, c):
    return ["iarr", [r.randrange(-4, 5) for _ in range(4)]]


def n_arr(r, c):
    return ["iarr", [r.randrange(1, 6) for _ in range(4)]]


def sq(r, c):
    n = r.pick([2, 3, 4])
    return ["arr", [[round(r.uniform(-1, 1), 2) for _ in range(n)] for _ in range(n)], r.weighted(LAYS)]


def half_small(r, c):
    return r.pick([.4, .9, 1.2])


def gd(r, c):
    return r.pick([4, 5])


def gz(r, c):
    return r.pick([1, 2, 4])


def cg1(r, c):         # quantum numbers that are mostly valid together
    j1, j2 = c["L"], r.pick([1, 2, 3, 4, 6])
    m1, m2 = r.randrange(-j1, j1 + 1), r.randrange(-j2, j2 + 1)
    J = r.randrange(max(abs(j1 - j2), abs(m1 + m2)), j1 + j2 + 1)
    c["cg"] = [j1, j2, m1, m2, J, m1 + m2]
    if r.chance(.15):
        c["cg"][r.randrange(1, 6)] = r.randrange(-3, 7)
    return j1


def cgk(k):
    return lambda r, c: c["cg"][k]


def nshell(r, c):
    return r.pick([20, 30, 50])


def mdeg(r, c):
    return r.pick([2, 3, 3, 4])


CG = [cg1] + [cgk(k) for k in range(1, 6)]
Q, PTS, DSK, TMK, F = "qlm", "pts", "ds", "tm", "other"
# name: (argument generators, kind of result, weight)
T = {
    "glib.gmmr2_array": ([pt1, pts_far], F, 2),
    "glib.yukawa_array": ([pt1, pts_far, cnst, lmbd], F, 1),
    "glib.point_matrix_gravity": ([pts, pts_far], F, 3),
    "glib.point_matrix_yukawa": ([pts, pts_far, cnst, lmbd], F, 2),
    "glib.translate_point_array": ([pts, vec], PTS, 3),
    "glib.rotate_point_array": ([pts, ang, axis], PTS, 3),
    "glibShapes.cart_2_cyl": ([xyz], F, 1),
    "glibShapes.cyl_2_cart": ([xyz], F, 1),
    "glibShapes.sphere": ([mass, length, cnt2], PTS, 1),
    "glibShapes.rectangle": ([mass, length, length, length, cnt, cnt, cnt], PTS, 2),
    "glibShapes.annulus": ([mass, ninner, nouter, length, gd, cnt], PTS, 2),
    "glibShapes.cone": ([mass, length, length, half_small, cnt2, cnt], PTS, 1),
    "glibShapes.wedge": ([mass, ninner, nouter, length, half_small, cnt2, cnt], PTS, 1),
    "glibShapes.trapezoid": ([mass, ninner, nouter, length, half_small, cnt2, cnt], PTS, 1),
    "glibShapes.outer_cone": ([mass, ninner, nouter, length, half_small, cnt2, cnt], PTS, 1),
    "glibShapes.tri_prism": ([mass, length, slen, slen, length, cnt2, cnt2, cnt], PTS, 1),
    "glibShapes.tetrahedron": ([mass, length, slen, slen, length, cnt2, cnt2, cnt2], PTS, 1),
    "glibShapes.ngon_prism": ([mass, length, length, nsides, cnt2, cnt], PTS, 1),
    "glibShapes.pyramid": ([mass, length, length, length, cnt2, cnt2, cnt2], PTS, 1),
    "glibShapes.cylhole": ([mass, ninner, nouter, cnt2, cnt], PTS, 1),
    "glibShapes.platehole": ([mass, length, length, half_small, cnt2, cnt2, cnt], PTS, 1),
    "gShapeGL.rectangle": ([mass, length, length, length, cnt2, cnt2, cnt2], PTS, 2),
    "gShapeGL.sphere": ([mass, length, cnt2], PTS, 1),
    "gShapeGL.annulus": ([mass, ninner, nouter, length, gd, gz], PTS, 1),
    "gShapeGL.cone": ([mass, length, length, gd, gz], PTS, 1),
    "gShapeGL.wedge": ([mass, ninner, nouter, length, half_small, gd, gz], PTS, 1),
    "gShapeGL.tri_prism": ([mass, length, slen, slen, length, cnt2, cnt2, cnt2], PTS, 1),
    "pg2Multi.qmoment": ([l_, m_, pts2d], F, 1),
    "pg2Multi.Qmomentb": ([l_, m_, pts_far2d], F, 1),
    "pg2Multi.imoment": ([l_, m_, lmbd, pts2d], F, .5),
    "pg2Multi.qmoments": ([l_, pts2d], Q, 3),
    "pg2Multi.Qmomentsb": ([l_, pts_far2d], Q, 3),
    "pg2Multi.imoments": ([l_, lmbd, pts2d], Q, .5),
    "qlm.sphere": ([L_, mass, length], Q, 1),
    "qlm.cylinder": ([L_, mass, length, length], Q, 2),
    "qlm.annulus": ([L_, mass, length, ninner, nouter, ang, half], Q, 3),
    "qlm.cone": ([L_, mass, length, length, ang, half], Q, 2),
    "qlm.tri_iso_prism": ([L_, mass, length, length, length, ang], Q, 2),
    "qlm.tri_iso_prism2": ([L_, mass, length, length, ang, half_small], Q, 2),
    "qlm.tri_prism": ([L_, mass, length, length, slen, slen], Q, 2),
    "qlm.rect_prism": ([L_, mass, length, length, length, ang], Q, 2),
    "qlm.ngon_prism": ([L_, mass, length, length, ang, nsides], Q, 2),
    "qlm.tetrahedron": ([L_, mass, length, length, length], Q, 2),
    "qlm.tetrahedron2": ([L_, mass, length, slen, slen, length], Q, 2),
    "qlm.pyramid": ([L_, mass, length, length, length], Q, 2),
    "qlm.cyl_mom": ([L_, m_, dens, length, length], F, .5),
    "qlmACH.rect_prism": ([ach, dens, length, length, length], Q, 1),
    "qlmACH.annulus": ([ach, dens, length, ninner, nouter, ang, half], Q, 1),
    "qlmACH.cone": ([ach, dens, length, ninner, nouter], Q, 1),
    "qlmACH.cone2": ([ach, dens, length, ninner, nouter], Q, 1),
    "qlmACH.tri_prism": ([ach, dens, length, length, slen, slen], Q, 1),
    "qlmACH.trapezoid": ([ach, dens, length, ninner, nouter, length], Q, 1),
    "qlmACH.cylindrical_section": ([ach, dens, length, nouter, ninner], Q, 1),
    "qlmACH.tetrahedron": ([ach, dens, length, length, length], Q, 1),
    "qlmACH.cylhole": ([ach, dens, ninner, nouter], Q, 1),
    "qlmACH.cylhole2": ([ach, dens, ninner, nouter], Q, 1),
    "qlmACH.platehole": ([ach, dens, length, length, half_small], Q, 1),
    "qlmACH.pyramid": ([ach, dens, length, length, length], Q, 1),
    "bigQlm.sphere": ([L_, dens, length, posc, posc, posc], Q, 2),
    "bigQlm.annulus": ([ach, dens, length, ninner, nouter, ang, half], Q, 2),
    "rotations.dlmn": ([L_, ang], DSK, 2),
    "rotations.wignerDl": ([L_, ang, ang, ang], DSK, 4),
    "rotations.rotate_qlm": ([qlm, ang, ang, ang], Q, 6),
    "rotations.rotate_qlm_Ds": ([qlm, ds, flag], Q, 3),
    "rotations.rotate_qlm_Ds_right": ([qlm, ds, flag], Q, 3),
    "rotations.rotate_H_recurs": ([L_, half], DSK, 2),
    "rotations.Dl": ([l_, ang, ang, ang], F, 1),
    "rotations.Dlmn": ([l_, m_, m_, ang, ang, ang], F, 1),
    "rotations.copy_tri": ([sq], F, .5),
    "rotations.epsm": ([ms_arr], F, .5),
    "translationRecurs.transl_newt_z_RR": ([L_, length], TMK, 2),
    "translationRecurs.transl_newt_z_SS": ([L_, length], TMK, 2),
    "translationRecurs.transl_newt_z_SR": ([L_, length], TMK, 2),
    "translationRecurs.transl_yuk_z_SR_recurs": ([L_, length, lmbd], F, .5),
    "translationRecurs.transl_yuk_z_RR_recurs": ([L_, length, lmbd], F, .5),
    "translationRecurs.apply_trans_mat": ([qlm, tm, flag], Q, 3),
    "translationRecurs.apply_trans_mat_right": ([qlm, tm, flag], Q, 3),
    "translationRecurs.translate_qlm": ([qlm, vec], Q, 4),
    "translationRecurs.translate_Qlmb": ([qlm, vec], Q, 4),
    "translationRecurs.translate_q2Q": ([qlm, vec], Q, 4),
    "translationRecurs.alphanm": ([n_arr, cnt], F, .5),
    "translationRecurs.betanm": ([n_arr, cnt], F, .5),
    "translations.translate_qlm": ([qlm, vec], Q, 4),
    "translations.translate_Qlmb": ([qlm, vec], Q, 4),
    "translations.translate_q2Q": ([qlm, vec], Q, 3),
    "clebschGordan.cgCoeff": (CG, F, 1.5),
    "clebschGordan.cgCoeff2": (CG, F, 1),
    "multipoleLib.force_basis": ([L_, posc, posc, posc], F, 2),
    "multipoleLib.multipole_force": ([L_, qlm, qlm, posc, posc, posc, cnst], F, 2),
    "multipoleLib.multipole_force_m": ([L_, qlm, qlm, posc, posc, posc, cnst], F, 1),
    "multipoleLib.torque_lm": ([qlm, qlm2, cnst], F, 3),
    "multipoleLib.torque": ([qlm, qlm2, euler, vec, trans, cnst], F, 4),
    "multipoleLib.embed_qlm": ([qlm, cnt], Q, 3),
    "multipoleLib.torques_at_angle": ([tc, tc, angles, flag], F, 2),
}
# routines integrating numerically: slow, so degree 0 or 1 only
SLOW = {
    "qlmNum.cyl_mom": ([L_, dens, half_small, ninner, nouter, posc, posc], Q, 1),
    "qlmNum.steinmetz": ([L_, dens, ninner, nouter], Q, 1),
    "qlmNum.platehole": ([L_, dens, length, ninner, half_small], Q, 1),
    "qlmNum.cone_mom": ([L_, dens, half_small, ninner, nouter, length], Q, 1),
    "qlmNum.trap_mom": ([L_, dens, half_small, ninner, nouter, posc, posc], Q, 1),
    "bigQlmNum.annulus": ([L_, dens, ninner, nouter, ninner, nouter, half_small], Q, 1),
    "bigQlmNum.outer_cone": ([L_, dens, length, ninner, nouter, half_small], Q, 1),
    "bigQlmNum.trapezoid": ([L_, dens, ninner, nouter, ninner, nouter, half_small], Q, 1),
}
LONG = ("qlmNum.steinmetz", "qlmNum.platehole")            # the slowest
FILES = {
    "read_multiFor.read_gsq": ([lambda r, c: "part%d" % r.pick([2, 3, 4, 5]) + r.pick(["", ".gsq"]), lambda r, c: ["fix", "mom"]], Q, 2),
    "read_multiFor.read_gbq": ([lambda r, c: "out%d" % r.pick([2, 3, 4, 5]) + r.pick(["", ".gbq"]), lambda r, c: ["fix", "mom"]], Q, 1),
    "read_multiFor.read_mpc": ([mdeg, lambda r, c: r.pick(["s_cyl", "s_two", "s_inch", "s_load", "s_trap", "s_two.mpc"]),
                                lambda r, c: ["fix", "mpc"]], Q, 3),
}
RAND = {"glibShapes.spherical_random_shell": ([mass, length, nshell], PTS, 1)}
ALL = {**T, **SLOW, **RAND, **FILES}
HEAVY = {"multipoleLib.multipole_force", "multipoleLib.multipole_force_m", "rotations.Dl", "translations.translate_qlm",
         "translations.translate_Qlmb", "translations.translate_q2Q"}


def ctx(r, lmax=5):
    lo = r.pick([.2, .3, .5])
    return {"L": r.weighted([(0, .5), (1, 1), (2, 3), (3, 3), (4, 2), (lmax, 2), (7, .3 if lmax > 4 else 0)]), "lo": lo, "hi": lo + r.pick([.2, .5, 1.0])}


def make(r, name, lmax=5, L=None):
    c = ctx(r, lmax)
    if L is not None:
        c["L"] = L
    if name in SLOW:
        c["L"] = r.pick([0, 0, 0, 1]) if name.startswith("qlmNum.cyl") else 0
    if name in HEAVY:
        c["L"] = min(c["L"], 3)
    return {"f": name, "a": [g(r, c) for g in ALL[name][0]], "L": c["L"]}


def choose(r, names=None, table=T):
    pairs = [(n, table[n][2]) for n in (names or table) if n in table]
    return r.weighted(pairs)


def sibling(r, call):
    """A call that a badly keyed memo could confuse with the given one: same routine, arguments equal, nearly equal,
    of another type, sign, order or size."""
    c = copy.deepcopy(call)
    a = c["a"]
    k = r.randrange(13)
    nums = [i for i, x in enumerate(a) if isinstance(x, (int, float)) and not isinstance(x, bool)]
    flt = [i for i in nums if isinstance(a[i], float) or (i > 0 and a[i] != c["L"])]
    lists = [i for i, x in enumerate(a) if isinstance(x, list)]
    if k == 0:
        return c
    if k == 1 and flt:                              # nearly equal
        i = r.pick(flt)
        if isinstance(a[i], float):
            a[i] = a[i] * (1 + r.pick([1e-3, 1e-5, 1e-7])) if a[i] else r.pick([1e-4, 1e-7])
        return c
    if k == 2 and flt:                              # sign
        i = r.pick(flt)
        if isinstance(a[i], float):
            a[i] = -a[i]
        return c
    if k == 3 and len(flt) > 1:                     # two arguments exchanged
        i, j = r.pick(flt), r.pick(flt)
        if isinstance(a[i], float) and isinstance(a[j], float):
            a[i], a[j] = a[j], a[i]
        return c
    if k == 4 and flt:                              # other numeric type, same value
        i = r.pick(flt)
        if isinstance(a[i], float):
            a[i] = ["np", "float64", a[i]] if r.chance(.5) or not a[i].is_integer() else int(a[i])
        return c
    if k == 5 and lists:                            # same shape, other numbers / layout
        i = r.pick(lists)
        s = a[i]
        if s[0] in ("qlm", "pts", "ds", "tm"):
            s[2] = s[2] + 1
        elif s[0] == "vec":
            s[1] = [s[1][1], s[1][2], s[1][0]] if r.chance(.5) else [-x for x in s[1]]
        return c
    if k == 6 and lists:
        i = r.pick(lists)
        s = a[i]
        if s[0] in ("qlm", "pts") and s[3] != "1d":
            s[3] = r.pick(["C", "F", "strided", "rev", "ro"])
        elif s[0] == "vec":
            j = r.randrange(3)
            s[1] = list(s[1])
            s[1][j] = s[1][j] + r.pick([1e-6, 1e-4, .5])
            if s[2] == "int":
                s[2] = "C"
        return c
    if k in (7, 8) and c["L"] is not None:          # other degree, all else equal
        d = r.pick([-1, 1, 1, 2])
        nl = max(1, c["L"] + d)
        gens = ALL[c["f"]][0]
        for i, g in enumerate(gens):
            if g in (L_, l_, cg1):
                a[i] = nl
            elif g is ach:
                a[i] = min(nl, 5)
            elif g in (qlm, qlm2, ds, tm) and isinstance(a[i], list):
                a[i] = list(a[i])
                a[i][1] = nl
            elif g is m_:
                a[i] = max(-nl, min(nl, a[i]))
        if c["f"] not in SLOW:
            c["L"] = nl
            return c
        return call
    if k == 9 and flt:                              # angle by a full turn, or a rescaled length
        i = r.pick(flt)
        if isinstance(a[i], float):
            a[i] = a[i] + 6.283185307179586 if ALL[c["f"]][0][i] is ang else a[i] * 2
        return c
    if k == 10:
        return odd(r, c)
    if k == 12:                                     # -1 and -2 have one hash; so have 0.0 and -0.0, and 1, 1.0 and True
        gens = ALL[c["f"]][0]
        i = [i for i, g in enumerate(gens) if g in (ang, posc, slen, vec, euler)]
        if i:
            i = r.pick(i)
            if isinstance(a[i], list):
                s, j = a[i], r.randrange(3)
                if s[0] == "vec":
                    s[1] = list(s[1])
                    s[1][j] = _twin(r, s[1][j])
            else:
                a[i] = _twin(r, a[i])
            return c
    return make(r, c["f"], L=c["L"])


def _twin(r, x):
    return {-1: -2.0, -2: -1.0, 0: r.pick([-0.0, 0.0]), 1: 1}.get(x, r.pick([-1.0, -2.0]))


def lattice(r, name, n):
    """Many calls of one routine, every argument from a handful of values that a badly made key could confuse: consecutive
    integers, equal and opposite numbers, -1 and -2, an int for a float, a relative 1e-9."""
    if name in ("clebschGordan.cgCoeff", "clebschGordan.cgCoeff2"):
        out = []
        while len(out) < n:
            j1, j2 = r.pick([3, 5, 8, 9, 12]), r.pick([2, 5, 8, 9])
            m1, m2 = r.randrange(-j1, j1 + 1), r.randrange(-j2, j2 + 1)
            for J in range(abs(j1 - j2), j1 + j2 + 1):
                for M in range(-J, J + 1):
                    if M == m1 + m2 or r.chance(.7):
                        out.append({"f": name, "a": [j1, j2, m1, m2, J, M], "L": j1})
        r.shuffle(out)
        return out
    base = make(r, name, 3)
    pools = []
    for i, g in enumerate(ALL[name][0]):
        x = base["a"][i]
        if isinstance(x, list):
            pool = [x] + [sibling(r, base)["a"][i] for _ in range(3)]
        elif g in (L_, l_):
            pool = [x]
        elif g is m_:
            pool = list(range(-base["L"], base["L"] + 1))
        elif g in INTS:
            pool = [x, x + 1]
        elif isinstance(x, str):
            pool = [x]
        else:
            y = float(x)
            pool = [x, y * (1 + 1e-9), y * 2] + ([-y, -1.0, -2.0, 0.0] if g in (ang, posc, slen) else [])
            if y.is_integer():
                pool.append(int(y))
        pools.append(pool)
    out = [{"f": name, "a": [copy.deepcopy(r.pick(p)) for p in pools], "L": base["L"]} for _ in range(n)]
    return out


def odd(r, call):
    """The call with one argument at the edge of, or outside, the routine's domain."""
    c = copy.deepcopy(call)
    a = c["a"]
    gens = ALL[c["f"]][0]
    flt = [i for i, x in enumerate(a) if isinstance(x, float) or (isinstance(x, int) and not isinstance(x, bool) and gens[i] not in INTS)]
    vecs = [i for i, x in enumerate(a) if isinstance(x, list) and x[0] == "vec"]
    sw = [i for i, g in enumerate(gens) if g in (ninner, nouter)]
    if c["f"] in SLOW:
        return c
    if vecs and r.chance(.6):
        v = a[r.pick(vecs)]
        v[1] = r.pick([[0, 0, 0], [0.0, 0.0, 0.0], [-0.0, 0.0, -0.0], [1e-300, 0.0, 0.0], [0.0, 0.0, 1e-200], [1e9, 0.0, -1e9]])
        if v[2] == "int":
            v[2] = "C"
    elif sw and r.chance(.3):
        i = r.pick(sw)
        a[i] = a[r.pick([j for j in sw])]
    elif flt:
        i = r.pick(flt)
        a[i] = r.pick([0, 0.0, 0.0, -0.0, 1e-300, -1.0, 1e9, -1e-12] + ([3.141592653589793, -3.141592653589793, 6.283185307179586] if gens[i] in (ang, half, half_small) else [float("nan")] if r.chance(.2) else []))
    return c


def decode_args(call):
    return [V.decode(s) for s in call["a"]]


INTS = {L_, l_, m_, ach, cnt, cnt2, nsides, gd, gz, nshell, mdeg, *CG}
