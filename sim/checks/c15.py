"""C15: the toolkit can be imported in any order, from any thread, and again after a failed import."""
from .. import imports, values as V, world
from .common import Base


class Check(Base):
    ID = "C15"
    RULE = ("a run is one process that imports 2-9 parts of the toolkit in a seeded order and form, from one or several scheduled threads, with interrupts and out-of-memory errors at any line of the "
            "modules and unreadable source files, repeats failed imports and makes calls in between; every module is compared with the same module imported alone in a fresh process; "
            "non-trivial: at least one fault or pre-emption; distinct: (parts already loaded, import)")
    STATES = "distinct (set of loaded parts, step) pairs"
    STUBS = Base.STUBS + ["reading of source files (sim/shim.c)"]

    def preload(self):
        imports.load()
        world.make_fixtures()

    def budget(self, tier):
        return (2000, 75) if tier == "quick" else (60000, 600)

    def gen(self, seed, i, tier):
        return imports.gen(V.Rng(seed, self.ID, i))

    def run(self, trace):
        return imports.run(trace)

    shrink = staticmethod(imports.shrink)
