"""C12: the random shell has the right mass and radius for every random stream."""
from .. import shells, values as V
from .common import Base


class Check(Base):
    ID = "C12"
    RULE = ("a run is a history of shells made in one process from generator states crafted so that the next draws fall where the run decides (corners that are rejected, exactly on or next to the "
            "rim, the centre, the axes, the ends of the range; none, one or all of them usable) or from seeded states, with caller edits, other users of the generator and repeats from the same "
            "state in between; every shell is judged; non-trivial: at least one crafted stream; distinct: (points requested, points made, stream pattern)")
    STATES = "distinct (points requested, points made, stream pattern)"
    STUBS = Base.STUBS + ["numpy's global generator state"]
    ASSUME = ["crafted streams are 110 pairs long and continue randomly", "radius and mass to 1e-12; evenness of large shells to 7 standard deviations"]

    def budget(self, tier):
        return (60000, 60) if tier == "quick" else (600000, 600)

    def gen(self, seed, i, tier):
        return shells.gen(V.Rng(seed, self.ID, i))

    def run(self, trace):
        return shells.run(trace)

    shrink = staticmethod(shells.shrink)
