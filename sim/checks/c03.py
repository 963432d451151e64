"""C03: a failed or interrupted call leaves no trace."""
import copy
from .. import core, hist, sites, world, calls as C, values as V
from .common import Base

BAD = ["none", "str", "nan", "neg", "empty", "short", "ragged", "obj", "scalar"]
PRINTS = ["read_multiFor.read_gsq", "read_multiFor.read_gbq", "read_multiFor.read_mpc", "qlmNum.cone_mom", "bigQlmNum.outer_cone", "bigQlmNum.annulus",
          "rotations.rotate_qlm_Ds", "rotations.rotate_qlm_Ds_right", "multipoleLib.embed_qlm", "qlm.tri_prism", "qlm.annulus"]


class Check(Base):
    ID = "C03"
    RULE = ("a run is a history of 4-14 calls in one simulated process, a third to a half of them cut short: an interrupt or out-of-memory error raised at a "
            "chosen line or C call inside the routine, a failing write to standard output, or unusable arguments; then retried and followed by related calls; "
            "arguments and process settings are compared around every call, results with a fresh process; non-trivial: at least one fault fired with a "
            "completed call after it; distinct: (routine, fault kind, position) sequences")
    STATES = "distinct (routine, fault kind, code position) triples at which a fault fired"
    ASSUME = Base.ASSUME + ["exceptions are not injected on the header or clean-up lines of with/try statements, which no Python code can protect"]

    def budget(self, tier):
        return (2600, 110) if tier == "quick" else (50000, 800)

    def gen(self, seed, i, tier):
        r = V.Rng(seed, self.ID, i)
        table = dict(C.T)
        table.update(C.FILES)
        slow = sites.slow_table(r, C.SLOW, .02, C.LONG)
        if slow:
            table = slow
            n = 3
        else:
            n = r.randrange(3, 10)
        if r.chance(.05):
            table.update(C.RAND)
        if n > 3 and r.chance(.1):
            table = C.FILES
        focus = [C.choose(r, None, table) for _ in range(r.pick([1, 1, 2, 3]))]
        focus = sites.prefer(r, table, focus)
        base = {f: C.make(r, f) for f in focus}
        ops = []
        while len(ops) < n:
            f = r.pick(focus)
            c = C.sibling(r, base[f]) if r.chance(.6) else copy.deepcopy(base[f])
            x = r.random()
            if x < .5:
                op = ["abort", None, c, r.pick(["line", "line", "line", "ccall"]), r.random(), r.weighted([("KeyboardInterrupt", 3), ("MemoryError", 3), ("RuntimeError", 1)]), r.pick(["new", "any", "hot"])]
                ops.append(op)
            elif x < .58:
                pf = r.pick(PRINTS) if n > 3 else f
                pc = C.make(r, pf) if pf not in base else c
                if n > 3 and pf in C.SLOW:
                    pc, pf = c, f
                op = ["stdout", None, pc, r.randrange(1, 4), r.pick(["full", "pipe", "closed"])]
                ops.append(op)
                c = pc
            elif x < .72 and n > 3:
                b = copy.deepcopy(c)
                if b["f"] in C.FILES and r.chance(.8):
                    if r.chance(.5):
                        ops.append(["disk", None, b, [r.pick(["open", "read"]), r.pick([1, 1, 2]), 1 << 30, r.pick(["EIO", "EACCES", "ENOMEM", "EMFILE", "ENOENT"])]])
                        b = copy.deepcopy(c)
                    b["a"][int(b["f"].endswith("mpc"))] = r.pick(world.BAD_NAMES[b["f"]])
                elif b["a"]:
                    j = r.randrange(len(b["a"]))
                    kinds = ["none", "str", "empty", "ragged", "obj"] if C.ALL[b["f"]][0][j] in C.INTS else BAD
                    b["a"][j] = ["bad", r.pick(kinds)]
                    if b["f"] in C.SLOW:
                        b = c
                ops.append(["call", None, b])
            else:
                ops.append(["call", None, c])
                continue
            # what the caller does next: retry, then something related
            if r.chance(.85):
                ops.append(["call", None, copy.deepcopy(c)])
            if r.chance(.4):
                ops.append(["call", None, C.sibling(r, c)])
        return {"ops": ops}

    def run(self, trace):
        res = hist.execute(trace, True)
        states, fired = [], False
        for e in res["log"]:
            if len(e) == 4 and e[1] == "abort" and e[3]:
                op = trace["ops"][e[0]]
                states.append(core.digest([op[2]["f"], op[3], op[5], e[3]]))
                fired = True
        for op in trace["ops"]:
            if op[0] == "stdout":
                states.append(core.digest([op[2]["f"], op[3], op[4]]))
        res["nontrivial"] = fired or any(o[0] == "stdout" for o in trace["ops"])
        res["states"] = states
        return res

    shrink = staticmethod(hist.shrink)
