"""C18: CAD models made and combined directly are the solids their history describes, and never change one another."""
from .. import models, values as V
from .common import Base


class Check(Base):
    ID = "C18"
    EXTRA = models.EXTRA
    RULE = ("a run is a history of 5-14 direct uses of newt.genCAD over up to six models: making parts of 16 kinds (also equal ones again), turning, moving, summing with holes, saving one or a list, "
            "the caller flipping a model's mass sign; a third of the operations first fail at the n-th entry into cadquery, at a source line, by unusable arguments or on the disk, and are repeated; "
            "volume, centre and second moments of every model are compared after every step with the reference; non-trivial: more than two operations; distinct: (operation, part, parts in the model, sign, models alive, fault)")
    STATES = "distinct (operation, part, parts in the model, sign, models alive, fault) situations"
    REAL = Base.REAL + ["cadquery and the OpenCASCADE kernel"]
    STUBS = Base.STUBS + ["open/write/close of the saved files (sim/shim.c)"]
    ASSUME = ["what one part is, is measured on the same call in a fresh process (closed forms are C09's)", "parts are disjoint, or holes lie inside one solid", "saved files are compared by closed surface, volume and centre (5%)"]

    def budget(self, tier):
        return (1300, 100) if tier == "quick" else (60000, 700)

    def gen(self, seed, i, tier):
        return models.gen(V.Rng(seed, self.ID, i))

    def run(self, trace):
        return models.run(trace)

    shrink = staticmethod(models.shrink)
