"""C16: the results of the Octave routines depend only on the arguments, and a call leaves the session as it was."""
from .. import session, values as V
from .common import Base


class Check(Base):
    ID = "C16"
    RULE = ("a run is one real Octave session that makes 8-40 calls of the Octave routines with equal, nearly equal, re-signed and re-sized arguments, between changes of the folder, the random "
            "generators, the output format, warnings and global variables, with calls that run out of memory at any of their calls of Octave's own functions and calls with unusable arguments; "
            "every result is compared with the same call made in a copy of the session in which nothing was called yet, the session's settings and the caller's variables around every call; "
            "non-trivial: at least two calls of one routine; distinct: ordered pairs (earlier call, later call) of one routine")
    STATES = "distinct ordered pairs (earlier call, later call) of one routine that shared a session"
    REAL = ["matlab-src/*.m and matlab-src/shapes/*.m from the working tree", "the Octave interpreter and its gsl package"]
    STUBS = ["thin stand-ins for rows, columns, zeros, ones, sqrt, sum, sin, cos, floor, exp, max, min, which call Octave's own or report that memory ran out (octave/session/fault)"]
    ASSUME = ["two results are equal when they agree to 1e-11 of the largest number in them", "Octave is deterministic on one machine"]

    def preload(self):
        pass

    def cleanup(self):
        pass

    def budget(self, tier):
        return (700, 80) if tier == "quick" else (30000, 600)

    def gen(self, seed, i, tier):
        return session.gen(V.Rng(seed, self.ID, i))

    def run(self, trace):
        return session.run(trace)

    shrink = staticmethod(session.shrink)
