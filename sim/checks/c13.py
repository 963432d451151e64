"""C13: the Octave random shapes conserve mass and stay inside for every random stream."""
from .. import octave, values as V
from .common import Base


class Check(Base):
    ID = "C13"
    RULE = ("a run is one real Octave process that makes 6-25 random shapes while rand() is a stand-in that hands out the stream the run decided (rejected corners, exactly on or next to the rim, "
            "centre, axes, ends of the range; none, one or all draws usable), then a fair stream, and sometimes reports out of memory at its k-th call; every shape is judged; "
            "non-trivial: at least one crafted stream or fault; distinct: (routine, points requested, points made, stream pattern, fault)")
    STATES = "distinct (routine, points requested, points made, stream pattern, fault)"
    REAL = ["matlab-src/shapes/*.m from the working tree", "the Octave interpreter"]
    STUBS = ["Octave's rand (octave/rand.m)"]
    ASSUME = ["places and the shell's mass to 1e-12; evenness of large shapes to 7 standard deviations", "no progress: six million numbers drawn in one call"]

    def preload(self):
        pass

    def cleanup(self):
        pass

    def budget(self, tier):
        return (2500, 80) if tier == "quick" else (40000, 600)

    def gen(self, seed, i, tier):
        return octave.gen(V.Rng(seed, self.ID, i))

    def run(self, trace):
        return octave.run(trace)

    shrink = staticmethod(octave.shrink)
