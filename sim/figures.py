"""Histories of displays in one process (C19): newt.glib.display_points among the caller's own figures, with failures on the way."""
import copy
import io
import sys
import numpy as np
from . import core, hist, world, values as V

EXCS = {"MemoryError": MemoryError, "RuntimeError": RuntimeError, "KeyboardInterrupt": KeyboardInterrupt}
ENTRIES = ["figure", "axes", "add", "scatter", "scatter", "scatter", "legend"]
ODD = ["none", "short", "flat", "text", "number", "object"]
RC = [["scatter.marker", "x"], ["figure.figsize", [4.0, 3.0]], ["figure.dpi", 60.0], ["legend.loc", "upper left"], ["font.size", 7.0], ["lines.markersize", 3.0], ["lines.linewidth", 3.5],
      ["axes.grid", True], ["axes3d.grid", False], ["scatter.edgecolors", "k"], ["figure.max_open_warning", 3], ["savefig.dpi", 50.0], ["legend.framealpha", 0.3], ["xtick.labelsize", 5.0]]
CYCLES = [["#1b9e77", "#d95f02", "#7570b3", "#e7298a", "#66a61e"], ["#ff0000", "#00aa00", "#0000ff", "#ffaa00"], ["#1f78b4", "#33a02c", "#e31a1c", "#ff7f00", "#6a3d9a"]]


def gen_set(r):
    return {"n": r.weighted([(0, .7), (1, 2), (2, 2), (r.randrange(3, 12), 4), (r.randrange(12, 90), 1)]), "seed": r.randrange(1 << 30),
            "mass": r.pick(["pos", "pos", "mix", "mix", "zero", "neg", "equal"]), "place": r.pick(["any", "any", "grid", "one", "far"]),
            "form": r.pick(["C", "C", "F", "ro", "view", "int", "f4"])}


def gen_show(r, prev):
    o = {"sets": [gen_set(r), gen_set(r)], "scaled": r.chance(.4), "same": r.chance(.06), "kw": r.chance(.5)}
    if prev and r.chance(.3):            # nearly what was displayed before
        o = copy.deepcopy(r.pick(prev))
        k = r.randrange(5)
        if k == 0:
            o["sets"].reverse()
        elif k == 1:
            o["scaled"] = not o["scaled"]
        elif k == 2:
            o["sets"][r.randrange(2)]["seed"] = r.randrange(1 << 30)
        elif k == 3:
            o["sets"][r.randrange(2)]["mass"] = r.pick(["pos", "mix", "neg"])
    return o


def gen(r):
    ops, prev = [], []
    n = r.randrange(3, 10)
    while len(ops) < n:
        x = r.random()
        if x < .45 or not prev:
            o = gen_show(r, prev)
            prev.append(o)
            if r.chance(.35):
                k = r.pick(["line", "line", "ccall", "entry", "entry", "odd"])
                how = {"k": k, "exc": r.pick(sorted(EXCS))}
                if k in ("line", "ccall"):
                    how["at"] = r.random()
                elif k == "entry":
                    e = r.pick(ENTRIES)
                    how.update({"entry": e, "nth": r.randrange(1, 5) if e == "scatter" else 1})
                else:
                    how.update({"odd": r.pick(ODD), "which": r.randrange(2)})
                ops.append(["fail", o, how])
            ops.append(["show", o])
        elif x < .6:
            ops.append(["edit", r.randrange(100), r.randrange(5)])
        else:
            ops.append(["user", r.pick(["figure", "plot", "close", "closeall", "current", "cycle", "save", "ion", "ioff", "clear", "limits", "axes", "title", "numbered", "rc", "rc"] + ["many"] * r.chance(.3)), r.randrange(100)])
    return {"ops": ops}


def points(s):
    r = V.Rng("fig", s["seed"])
    a = np.zeros((s["n"], 4))
    for i in range(s["n"]):
        m = r.uniform(.2, 3)
        if s["mass"] in ("mix", "zero"):
            m *= r.pick([1, -1, 1])
        if s["mass"] == "zero" and r.chance(.4):
            m = 0
        if s["mass"] == "neg":
            m = -m
        if s["mass"] == "equal":
            m = 1.5
        p = [r.uniform(-2, 2) for _ in range(3)]
        if s["place"] == "grid":
            p = [r.randrange(3), r.randrange(3), r.randrange(3)]
        elif s["place"] == "one":
            p = [.5, .25, -1]
        elif s["place"] == "far":
            p = [1e4 * p[0], 1e-4 * p[1], p[2]]
        a[i] = [m] + p
    f = s["form"]
    if f == "int":
        a[:, 0] = np.sign(a[:, 0]) * np.ceil(np.abs(a[:, 0]))
        a = np.round(a).astype(int)
    elif f == "f4":
        a = a.astype(np.float32)
    elif f == "F":
        a = np.asfortranarray(a)
    elif f == "view":
        b = np.full((2 * s["n"] + 1, 5), 7.)
        b[1::2, 1:] = a
        a = b[1::2, 1:]
    if f == "ro":
        a.flags.writeable = False
    return a


# ------------------------------------------------------------------ what a figure shows
def artists(fig):
    """(points, rgb, sizes, marker) of every scatter and line of markers in the figure's axes."""
    out = []
    for ax in fig.axes:
        for c in ax.collections:
            if not hasattr(c, "_offsets3d"):
                continue
            xs, ys, zs = [np.ma.filled(np.ma.asarray(v, float), np.nan).ravel() for v in c._offsets3d]
            n = len(xs)
            if not n or not c.get_visible():
                continue
            rgb = np.asarray(c.get_facecolor())[:, :3]
            sz = np.asarray(c._sizes3d if hasattr(c, "_sizes3d") else c.get_sizes(), float).ravel()
            paths = c.get_paths()
            out.append((np.stack([xs, ys, zs], 1), np.resize(rgb, (n, 3)), np.resize(sz, n), len(paths[0].vertices) if paths else 0))
        for ln in ax.lines:
            if hasattr(ln, "get_data_3d") and ln.get_marker() not in ("", "None", None, " ") and ln.get_visible():
                xyz = np.asarray(ln.get_data_3d(), float).T
                from matplotlib.colors import to_rgb
                out.append((xyz, np.resize(to_rgb(ln.get_markerfacecolor()), (len(xyz), 3)), np.full(len(xyz), ln.get_markersize()), ln.get_marker()))
    return out


def state(fig):
    """Everything about a figure that somebody else's display has no business changing."""
    out = [fig.number, fig.get_size_inches().tolist(), [id(a) for a in fig.axes]]
    for ax in fig.axes:
        out.append([ax.get_title(), ax.get_xlabel(), ax.get_xlim(), ax.get_ylim(), ax.get_visible(), len(ax.get_children()),
                    [t.get_text() for t in ax.get_legend().get_texts()] if ax.get_legend() else None,
                    [[np.asarray(v, float).tolist() for v in ln.get_data()] + [str(ln.get_color())] for ln in ax.lines]])
        for c in ax.collections:
            out.append([np.asarray(c.get_facecolor())[:, :3].round(6).tolist(), [np.ma.filled(np.ma.asarray(v, float), np.nan).tolist() for v in getattr(c, "_offsets3d", ())],
                        np.asarray(getattr(c, "_sizes3d", c.get_sizes()), float).tolist()])
    return core.digest(out)


def judge(o, arrays, ret, before, plt):
    """None or (class, text)."""
    try:
        fig, ax = ret
    except Exception:
        return "figure", "returned %r instead of a figure and its axes" % (ret,)
    if any(fig is f for f, _ in before):
        return "figure", "drew into a figure that existed before"
    if fig.number not in plt.get_fignums() or plt.figure(fig.number) is not fig:
        return "figure", "gave a figure that pyplot does not know"
    if ax not in fig.axes:
        return "blank", "gave a figure without its axes: it shows nothing"
    lg = ax.get_legend()
    if lg is not None:
        lg.set_visible(False)
    fig.canvas.draw()
    pix = np.asarray(fig.canvas.buffer_rgba())[:, :, :3].astype(int)
    if lg is not None:
        lg.set_visible(True)
    coloured = int((pix.max(2) - pix.min(2) > 12).sum())
    arts = artists(fig)
    want, combos = {}, {}
    for k, a in enumerate(arrays):
        a = np.asarray(a, float)
        for row in a:
            if row[0]:
                want.setdefault(tuple(row[1:]), []).append((k, row[0] > 0, abs(row[0])))
    ignore = {tuple(row[1:]) for a in arrays for row in np.asarray(a, float) if not row[0]} - set(want)
    left = {p: list(v) for p, v in want.items()}
    per_art, ratios = [], {0: [], 1: []}
    shown = 0
    for xyz, rgb, sz, mark in arts:
        for p, c, s in zip(xyz, rgb, sz):
            p = tuple(p)
            if p in ignore:
                continue
            shown += 1
            if p not in left:
                return "wrong-points", "shows a point at %s, where there is none" % (p,)
            if not left[p]:
                return "wrong-points", "shows a point at %s more often than given" % (p,)
            if not (np.isfinite(s) and s > 0):
                return "wrong-points", "gives the point at %s the size %s" % (p, s)
            combo = (tuple(np.round(c, 5)), mark)
            # the class of a point that is alone at its place tells what the colour means
            if len(want[p]) == 1:
                k, sign, m = want[p][0]
                if combos.setdefault(combo, (k, sign)) != (k, sign):
                    return "mixed", "shows points of different sets or signs in one colour"
                ratios[k].append(s / m)
                left[p] = []
            else:
                per_art.append((p, combo, s))
                left[p] = left[p][:-1] if left[p] else []
    missing = [p for p, v in left.items() if v]
    if missing:
        return "missing", "does not show the point at %s (%d of %d points missing)" % (missing[0], sum(len(v) for v in left.values()), sum(len(v) for v in want.values()))
    for p, combo, s in per_art:              # points at one place: their colours must be those of points there
        if combo in combos and combos[combo] not in [v[:2] for v in want[p]]:
            return "mixed", "shows points at %s in the colour of another set or sign" % (p,)
    if len(set(combos.values())) != len(combos):
        return "mixed", "shows points of one set and sign in different colours"
    if o["scaled"]:
        for k in (0, 1):
            q = ratios[k]
            if q and max(q) > min(q) * (1 + 1e-5):
                return "sizes", "gives points of set %d sizes that do not follow their mass" % (k + 1)
    if shown and not coloured:
        return "blank", "is drawn without any point"
    return None


# ------------------------------------------------------------------ failures
class Entry:
    """The n-th entry into one of matplotlib's functions fails."""
    def __init__(self, entry, nth, exc):
        import matplotlib.pyplot as plt
        from matplotlib.axes import Axes
        from matplotlib.figure import Figure
        from mpl_toolkits.mplot3d import Axes3D
        self.where = {"figure": (plt, "figure"), "axes": (Axes3D, "__init__"), "add": (Figure, "_add_axes_internal"), "scatter": (Axes3D, "scatter"), "legend": (Axes, "legend")}[entry]
        self.left, self.exc, self.fired = nth, exc, False

    def __enter__(self):
        o, n = self.where
        real = self.real = getattr(o, n)

        def fake(*a, **k):
            self.left -= 1
            if self.left == 0:
                self.fired = True
                raise self.exc("injected")
            return real(*a, **k)
        setattr(o, n, fake)
        return self

    def __exit__(self, *a):
        setattr(self.where[0], self.where[1], self.real)


def odd(a, how):
    return {"none": None, "short": np.asarray(a)[:, :2], "flat": np.arange(4.), "text": "points", "number": 3.5, "object": np.array([[object()] * 4])}[how]


def warm():
    """Load fonts once, without pyplot."""
    from matplotlib.figure import Figure
    from matplotlib.backends.backend_agg import FigureCanvasAgg
    f = Figure()
    FigureCanvasAgg(f)
    ax = f.add_subplot(projection="3d")
    ax.scatter([1], [2], [3], label="x")
    ax.legend()
    f.canvas.draw()


def run(trace):
    import newt.glib as glib
    import matplotlib
    import matplotlib.pyplot as plt

    def settings():
        s = world.settings(rng=True)
        s["interactive"] = matplotlib.is_interactive()
        s["backend"] = matplotlib.get_backend()
        return s

    def go():
        world.fresh_process()
        st, log, states, viol = core.Stats(), [], [], None
        figs, passed, failed = [], [], 0           # [figure, state], arrays handed over

        def refresh():
            figs[:] = [[f, state(f)] for f in map(plt.figure, plt.get_fignums())] if plt.get_fignums() else []
        for k, op in enumerate(trace["ops"]):
            if viol:
                break
            if op[0] == "user":
                user(plt, op[1], op[2], st)
                refresh()
                continue
            if op[0] == "edit":
                if passed:
                    a = passed[op[1] % len(passed)]
                    if a.size and a.flags.writeable:
                        a[...] = (a * 3 + 1).astype(a.dtype) if op[2] else 0
                        st.add("probe.caller_edits")
                what = "editing the array displayed before"
            else:
                o = op[1]
                arrays = [points(s) for s in o["sets"]]
                if o["same"]:
                    arrays[1] = arrays[0]
                frozen = V.freeze(arrays), V.flags(arrays)
                args, kw = list(arrays), {}
                what = "displaying %d and %d points%s" % (len(arrays[0]), len(arrays[1]), ", scaled by mass" if o["scaled"] else "")
                if o["kw"]:
                    kw["scale_mass"] = o["scaled"]
                elif o["scaled"]:
                    args.append(True)
                was = settings()
                cur = plt.get_fignums() and plt.gcf()
                if op[0] == "fail":
                    h = op[2]
                    exc = EXCS[h["exc"]]
                    what += " (failing: %s)" % {x: y for x, y in h.items() if x != "at"}
                    fired = False
                    if h["k"] in ("line", "ccall"):
                        t = hist.Tracer(h["k"], 1 + int(h["at"] * (30 if h["k"] == "line" else 14)), exc)
                        out = hist._call(lambda *a: glib.display_points(*a, **kw), args, t)
                        fired = t.fired
                    elif h["k"] == "entry":
                        with Entry(h["entry"], h["nth"], exc) as e:
                            out = hist._call(lambda *a: glib.display_points(*a, **kw), args)
                        fired = e.fired
                    else:
                        args[h["which"]] = odd(args[h["which"]], h["odd"])
                        out = hist._call(lambda *a: glib.display_points(*a, **kw), args)
                        fired = out[0] == "exc"
                    if fired:
                        st.add("fault.%s" % (h["k"] if h["k"] != "entry" else "matplotlib_" + h["entry"]))
                        failed += 1
                        if out[0] == "ret" and h["k"] != "odd":
                            viol = {"class": "swallowed", "detail": "step %d: %s returned normally" % (k, what)}
                else:
                    out = hist._call(lambda *a: glib.display_points(*a, **kw), args)
                    st.add("probe.displays")
                    if out[0] == "exc":
                        viol = {"class": "refused", "detail": "step %d: %s raised %s" % (k, what, out[1])}
                    else:
                        passed += arrays
                    states.append(core.digest([[s["n"] for s in o["sets"]], [s["mass"] for s in o["sets"]], o["scaled"], min(len(figs), 4), min(failed, 2)]))
                left = world.settings_diff(was, settings())
                if left and not viol:
                    viol = {"class": "settings", "detail": "step %d: %s changed %s" % (k, what, ", ".join(left))}
                if (V.freeze(arrays), V.flags(arrays)) != frozen and not viol:
                    viol = {"class": "argument-changed", "detail": "step %d: %s changed an array" % (k, what)}
                if op[0] == "show" and not viol:
                    bad = judge(o, arrays, out[1], figs, plt)
                    if bad:
                        viol = {"class": bad[0], "detail": "step %d: %s, with %d figures open before and %d failed displays: the display %s" % (k, what, len(figs), failed, bad[1])}
            for f, s in figs:
                if viol:
                    break
                if f.number not in plt.get_fignums():
                    viol = {"class": "figure-changed", "detail": "step %d: %s closed figure %d" % (k, what, f.number)}
                elif state(f) != s:
                    viol = {"class": "figure-changed", "detail": "step %d: %s changed figure %d, made before" % (k, what, f.number)}
            log.append([k, op[0], len(figs)])
            if not viol:
                refresh()
        return {"violation": viol, "digest": core.digest([log, viol, states]), "stats": dict(st), "states": states, "log": log,
                "nontrivial": len(states) > 1 or failed > 0, "sim_time": world.CLOCK.elapsed()}
    st, r = core.isolate(go, 120)
    if st != "ok":
        raise core.HarnessError("run died %r" % (r,))
    return r


def user(plt, what, k, st):
    """Something the caller does with figures of his own or with displays he was given."""
    import matplotlib
    nums = plt.get_fignums()
    st.add("probe.user_" + what)
    if what == "figure":
        plt.figure()
        plt.plot([0, 1, 2], [k % 5, 1, 4])
    elif what == "numbered":
        plt.figure(num=k % 3 + 1 if k % 2 else "points %d" % (k % 2))
    elif what == "axes":
        plt.figure().add_subplot(projection="3d").scatter([1, 2], [k % 7, 1], [0, 3])
    elif what == "cycle":
        matplotlib.rcParams["axes.prop_cycle"] = matplotlib.cycler(color=CYCLES[k % len(CYCLES)])
    elif what == "rc":
        n, v = RC[k % len(RC)]
        matplotlib.rcParams[n] = v
    elif what == "many":
        for _ in range(18 + k % 9):
            plt.figure()
    elif what in ("ion", "ioff"):
        getattr(plt, what)()
    elif what == "closeall":
        plt.close("all")
    elif nums:
        f = plt.figure(nums[k % len(nums)])
        if what == "plot":
            plt.plot([0, 1], [1, 0])
        elif what == "title":
            plt.title("title %d" % k)
        elif what == "close":
            plt.close(f)
        elif what == "save":
            f.savefig(io.BytesIO(), dpi=40)
        elif what == "clear":
            f.clear()
        elif what == "limits" and f.axes:
            f.axes[0].set_xlim(-5, 5)


def shrink(trace):
    from .checks.common import shrink_list
    yield from shrink_list(trace, "ops", 1)
    for i, op in enumerate(trace["ops"]):
        if op[0] in ("show", "fail"):
            for j in (0, 1):
                s = op[1]["sets"][j]
                for new in ([dict(s, n=s["n"] // 2)] if s["n"] > 1 else []) + ([dict(s, form="C")] if s["form"] != "C" else []) + ([dict(s, mass="pos")] if s["mass"] != "pos" else []):
                    t = copy.deepcopy(trace)
                    t["ops"][i][1]["sets"][j] = new
                    yield t
