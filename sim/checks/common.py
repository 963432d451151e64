import copy
import pickle
from .. import core, known, world, calls as C, values as V


class Base:
    LEVEL = "exploration"
    REAL = ["every module of newt/ from the working tree, imported unmodified", "numpy, scipy, matplotlib", "the kernel's file system (scratch directory)"]
    STUBS = ["thread scheduling, locks and sleeps (sim/sched.py)", "clocks and kernel random bytes (sim/shim.c)", "standard output (in-memory sink)"]
    ASSUME = ["numpy, scipy and CPython are correct and deterministic on one machine",
              "two results are equal when they agree to 1e-10 of their row's scale (1e-13 of the table's)"]
    STATES = ""
    EXTRA = ()

    def preload(self):
        world.load(self.EXTRA)
        world.make_fixtures()

    def cleanup(self):
        world.drop_fixtures()

    def known_lines(self):
        return known.lines(self.ID)

    def shrink(self, trace):
        return iter(())


def shrink_list(trace, key, minimum=1):
    """Candidates with chunks of trace[key] removed."""
    xs = trace[key]
    n = len(xs)
    size = n // 2
    while size >= 1:
        for s in range(0, n, size):
            ys = xs[:s] + xs[s + size:]
            if len(ys) >= minimum:
                t = dict(trace)
                t[key] = ys
                yield t
        size //= 2


def simpler_specs(call):
    """The call with one array argument in its plainest form."""
    for i, s in enumerate(call["a"]):
        if isinstance(s, list) and s and s[0] in ("qlm", "pts") and (s[3] != "C" or s[4] not in ("c16", "f8")):
            c = copy.deepcopy(call)
            c["a"][i][3] = "C"
            c["a"][i][4] = "c16" if s[0] == "qlm" else "f8"
            yield c
        elif isinstance(s, list) and s and s[0] == "vec" and s[2] != "C":
            c = copy.deepcopy(call)
            c["a"][i][2] = "C"
            yield c


def spell(call):
    return "%s(%s)" % (call["f"], ", ".join(_sp(x) for x in call["a"]))


def _sp(x):
    return repr(x) if not isinstance(x, list) else "<" + " ".join(map(str, x)) + ">"
