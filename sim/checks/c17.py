"""C17: the Octave displays show points of their two sets only, in every sequence and for every random stream."""
from .. import display, values as V
from .common import Base


class Check(Base):
    ID = "C17"
    RULE = ("a run is one real Octave session that displays 3-12 times two point sets or random subsets of them in one invisible figure, while rand() is a stand-in that hands out the stream the run decided "
            "(all, none, on the edge of the fraction, mixed, fair) and sometimes reports out of memory; the points are read back from the figure; "
            "non-trivial: at least one crafted stream or fault; distinct: (set sizes, fraction, which draws fall below it, fault)")
    STATES = "distinct (set sizes, fraction, which draws fall below it, fault)"
    REAL = ["matlab-src/displayPoints.m and displayPointsRandomSubset.m from the working tree", "the Octave interpreter and its graphics objects"]
    STUBS = ["Octave's rand (octave/rand.m)"]
    ASSUME = ["a single mark at the origin marks the origin", "shares of large sets to 7 standard deviations"]

    def preload(self):
        pass

    def cleanup(self):
        pass

    def budget(self, tier):
        return (900, 90) if tier == "quick" else (20000, 500)

    def gen(self, seed, i, tier):
        return display.gen(V.Rng(seed, self.ID, i))

    def run(self, trace):
        return display.run(trace)

    shrink = staticmethod(display.shrink)
