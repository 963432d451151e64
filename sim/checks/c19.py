"""C19: every display shows all its points in a figure of its own, whatever was displayed before."""
from .. import figures, values as V
from .common import Base


class Check(Base):
    ID = "C19"
    RULE = ("a run is a history of 3-9 steps in one process: displays of two point sets (empty, of both signs, with zero masses, in seven memory layouts, scaled or not, nearly equal to an earlier one), "
            "displays that fail at a source line, a C call, the n-th entry into matplotlib or on unusable arguments and are repeated, and the caller's own work (figures, closing, plotting, colour cycles, "
            "saving, editing displayed arrays); every new display is drawn and read back, all earlier figures are compared after every step; non-trivial: a display after an earlier or a failed one; "
            "distinct: (sizes, signs, scaling, figures open, failed displays before)")
    STATES = "distinct (sizes, kinds of masses, scaling, figures open, failures before) situations"
    ASSUME = ["matplotlib draws what its artists say (a drawn display must have coloured pixels)", "the Agg backend stands for all backends"]

    def preload(self):
        super().preload()
        figures.warm()

    def budget(self, tier):
        return (1500, 100) if tier == "quick" else (60000, 700)

    def gen(self, seed, i, tier):
        return figures.gen(V.Rng(seed, self.ID, i))

    def run(self, trace):
        return figures.run(trace)

    shrink = staticmethod(figures.shrink)
