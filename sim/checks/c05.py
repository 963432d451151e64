"""C05: moment files load exactly as recorded however the bytes are delivered."""
from .. import momfiles, values as V
from .common import Base


class Check(Base):
    ID = "C05"
    RULE = ("a run is a history of 3-12 writes, rewrites and loads of inner and outer moment files (degree 0-40, six number formats, line endings, header texts) whose bytes the "
            "simulated disk delivers in short reads, with EINTR and stalls; every returned table is compared with an independent parse; non-trivial: at least one "
            "short, interrupted or stalled operation happened; distinct: (kind, degree, format, line ending, delivery, extension) combinations loaded")
    STATES = "distinct (kind, degree, format, line ending, delivery, extension) combinations loaded"
    ASSUME = ["files are UTF-8 text without blank lines after the records"]

    def budget(self, tier):
        return (6000, 100) if tier == "quick" else (150000, 800)

    def gen(self, seed, i, tier):
        return momfiles.gen(V.Rng(seed, self.ID, i), False)

    def run(self, trace):
        return momfiles.execute(trace)

    shrink = staticmethod(momfiles.shrink)
