"""C14: separate bodies never share state."""
from .. import bodies, values as V
from .common import Base


class Check(Base):
    ID = "C14"
    EXTRA = bodies.EXTRA
    RULE = ("a run is a history of operations on up to four bodies with in-place edits of stored arrays and of vectors passed earlier, self-additions and saves; after every step the moments, "
            "mass, centre of mass and CAD model of all other bodies are compared with their state before, and the passed lists and vectors with theirs; non-trivial: at least two operations; "
            "distinct: (operation, kind, inner/outer, number of parts, degree, other bodies)")
    STATES = "distinct (operation, kind of body, inner/outer, parts, degree, other bodies alive) situations"
    REAL = Base.REAL + ["cadquery and the OpenCASCADE kernel"]

    def budget(self, tier):
        return (2600, 100) if tier == "quick" else (60000, 800)

    def gen(self, seed, i, tier):
        return bodies.gen(V.Rng(seed, self.ID, i), "shared")

    def run(self, trace):
        return bodies.run(trace, ("shared-", "refused"), isolate=True)

    shrink = staticmethod(bodies.shrink)
