"""C08: script runs fail cleanly on missing, unreadable, torn or mismatched files."""
from .. import scripts, values as V
from .common import Base


class Check(Base):
    ID = "C08"
    RULE = ("a run is a history of script runs of which about two thirds meet a fault: an open or read of the script or of a component failing, a component missing, misplaced, torn, "
            "short of records, of another degree, cut or replaced while being read, or the script ending inside a create command; fault-free runs follow; outcomes are compared with the "
            "reference interpreter and the disk is compared byte for byte; non-trivial: a fault fired or several runs; distinct: (commands, faults, outcome)")
    STATES = "distinct (executed commands, faults fired, outcome) combinations"
    ASSUME = ["a script cut between two commands is itself a complete script and is not judged", "a component cut inside its very last number is not judged"]

    def budget(self, tier):
        return (8000, 100) if tier == "quick" else (160000, 800)

    def gen(self, seed, i, tier):
        return scripts.gen(V.Rng(seed, self.ID, i), True)

    def run(self, trace):
        return scripts.execute(trace)

    shrink = staticmethod(scripts.shrink)
