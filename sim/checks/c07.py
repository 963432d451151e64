"""C07: a script yields the moments of exactly the body it describes."""
from .. import scripts, values as V
from .common import Base


class Check(Base):
    ID = "C07"
    RULE = ("a run is a history of script runs on a simulated disk (short reads, EINTR), with components and scripts rewritten and results edited in between; scripts are random "
            "command histories over both registers (create, rotate, translate, add, units, load, get/put total, zero, comments, unknown shapes); every result is compared with a "
            "reference interpreter that moves clouds of point masses; non-trivial: more than one script run or a non-failing fault; distinct: executed command sequences")
    STATES = "distinct sequences of executed commands"
    ASSUME = ["shape parameters lie in the documented ranges (platehole up to degree 5, tilted holes and drilled cylinders to the accuracy of the numerical integration)",
              "an unknown shape is followed by its parameters and by moves or adds until the next create"]

    def budget(self, tier):
        return (7000, 100) if tier == "quick" else (120000, 800)

    def gen(self, seed, i, tier):
        return scripts.gen(V.Rng(seed, self.ID, i), False)

    def run(self, trace):
        return scripts.execute(trace)

    shrink = staticmethod(scripts.shrink)
