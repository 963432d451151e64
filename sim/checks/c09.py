"""C09: moments, mass, centre of mass and CAD model of a body describe one body, after any history."""
from .. import bodies, values as V
from .common import Base


class Check(Base):
    ID = "C09"
    EXTRA = bodies.EXTRA
    RULE = ("a run is a history of 4-13 operations on up to four bodies (build, rotate, move, convert to outer moments, combine, cut holes, refused requests); after every operation the body it "
            "touched is compared with a reference mass distribution: mass, centre of mass, every moment, and volume, centre and second moments of its CAD model; non-trivial: at least two "
            "operations; distinct: (operation, kind, inner/outer, number of parts, degree, other bodies)")
    STATES = "distinct (operation, kind of body, inner/outer, parts, degree, other bodies alive) situations"
    ASSUME = ["the CAD model is judged only when the solids are disjoint or holes lie wholly inside one solid (bounding balls)",
              "conversions and outer translations are judged against the same series truncated at the degree of the table",
              "moments are judged up to the lowest degree among the parts", "bodies of total mass near zero are not judged"]
    REAL = Base.REAL + ["cadquery and the OpenCASCADE kernel"]

    def budget(self, tier):
        return (2600, 100) if tier == "quick" else (60000, 800)

    def gen(self, seed, i, tier):
        return bodies.gen(V.Rng(seed, self.ID, i), "plain")

    def run(self, trace):
        return bodies.run(trace, ("wrong-", "refused"), judge=True)

    shrink = staticmethod(bodies.shrink)
