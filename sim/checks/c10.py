"""C10: a failed operation on a body changes nothing."""
from .. import bodies, core, values as V
from .common import Base


class Check(Base):
    ID = "C10"
    EXTRA = bodies.EXTRA
    RULE = ("a run is a history of operations on up to four bodies; about half of them meet an error raised at the entry of the n-th function of the CAD layer (cadquery or genCAD) or of the "
            "numerical layer, others get unusable arguments or ask for an impossible conversion; every body is compared with its state before, the operation is repeated, and the whole "
            "history is compared with a second simulated process that met no fault; non-trivial: a fault fired; distinct: (operation, failing function, kind, inner/outer, outcome)")
    STATES = "distinct (operation, function that failed, kind of body, inner/outer, outcome) combinations"
    ASSUME = ["a layer fails by raising at the entry of one of its functions, not between two assignments of the operation itself"]
    REAL = Base.REAL + ["cadquery and the OpenCASCADE kernel"]
    STUBS = Base.STUBS + ["failing layers (exception at the n-th function entry, sim/bodies.py)"]

    def budget(self, tier):
        return (1500, 100) if tier == "quick" else (50000, 800)

    def gen(self, seed, i, tier):
        return bodies.gen(V.Rng(seed, self.ID, i), "faulty")

    def run(self, trace):
        a = bodies.run(trace, ("partial", "refused", "accepted"), faults=True, final=True)
        if a["violation"] is None and any(k.startswith("fault.") for k in a["stats"]):
            b = bodies.run(trace, ("",), final=True)
            d = bodies.same_end(a["final"], b["final"])
            if d:
                a["violation"] = {"class": "partial-late", "detail": "after the failures had been repeated successfully, %s differs from a history without failures" % d}
                a["digest"] = core.digest([a["log"], a["violation"]])
        a["nontrivial"] = any(k.startswith("fault.") for k in a["stats"])
        a.pop("final")
        return a

    shrink = staticmethod(bodies.shrink)
