"""C11: saving a body is acknowledged only when its files are completely written."""
from .. import saves, values as V
from .common import Base


class Check(Base):
    ID = "C11"
    EXTRA = saves.EXTRA
    RULE = ("a run builds, changes and saves bodies; about 60% of the saves meet a fault: a missing folder, a folder or a full device in the place of a file, a byte-exact file size limit, no free "
            "descriptor, an error at the n-th open or write of either file, or the process killed at a write, at a byte, or right after the save returned; acknowledged saves are parsed back and "
            "compared with the reference body; refused ones are repeated without the fault; non-trivial: a fault fired or several saves; distinct: (body, fault, position, mode, outcome)")
    STATES = "distinct (body, fault, position, mode, outcome) combinations"
    REAL = Base.REAL + ["cadquery and the OpenCASCADE kernel", "the kernel's file system, rlimits, /dev/full and signals"]
    STUBS = Base.STUBS + ["open/write/close of the saved files (sim/shim.c)"]
    ASSUME = ["the process is killed, the machine keeps running (no power loss)", "the model file is compared with the body by closed surface, volume and centre (4%), the moments exactly"]

    def budget(self, tier):
        return (1500, 110) if tier == "quick" else (60000, 800)

    def gen(self, seed, i, tier):
        return saves.gen(V.Rng(seed, self.ID, i))

    def run(self, trace):
        return saves.run(trace)

    shrink = staticmethod(saves.shrink)
