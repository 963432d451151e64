"""C06: an incomplete or unreadable moment file is never accepted as complete."""
from .. import momfiles, values as V
from .common import Base


class Check(Base):
    ID = "C06"
    RULE = ("a run is a history of 3-12 writes and loads of moment files with, in most loads, one fault: the file torn at any byte or short of whole records, missing, empty, a read or "
            "open failing, premature end of file, truncation or atomic replacement during the load, combined with short reads and EINTR; followed by fault-free loads; "
            "non-trivial: at least one fault fired; distinct: (kind, degree, fault kinds, outcome, delivery, position) combinations")
    STATES = "distinct (kind, degree, fault kinds, outcome, delivery, position of fault) combinations"
    ASSUME = ["a cut inside the very last number of a file cannot be told from a shorter number and is not judged"]

    def budget(self, tier):
        return (8000, 100) if tier == "quick" else (200000, 800)

    def gen(self, seed, i, tier):
        return momfiles.gen(V.Rng(seed, self.ID, i), True)

    def run(self, trace):
        return momfiles.execute(trace)

    shrink = staticmethod(momfiles.shrink)
