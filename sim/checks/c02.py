"""C02: arguments are never modified, results belong to the caller."""
import copy
from .. import core, hist, sites, world, calls as C, values as V
from .common import Base

KIND_OF = {C.qlm: "qlm", C.qlm2: "qlm", C.pts: "pts", C.pts_far: "pts", C.pts2d: "pts", C.pts_far2d: "pts", C.ds: "ds", C.tm: "tm", C.vec: "vec",
           C.axis: "vec", C.pt1: "pt1", C.tc: "tc", C.angles: "angles", C.xyz: "xyz", C.euler: "vec"}


class Check(Base):
    ID = "C02"
    RULE = ("a run is a history of 6-20 steps in one simulated process: values made by the caller, calls whose arguments are earlier values or results "
            "(shared, read-only, strided, integer, 1-d, freed), in-place edits by the caller, repeats of earlier calls; after every step every value the "
            "caller holds is compared bit for bit with its model and every result with a fresh process; non-trivial: at least one edit between two calls; "
            "distinct: the sequence of (operation, routine, argument provenance)")
    STATES = "distinct sequences of (operation, routine, which arguments were earlier values) over whole runs"

    def budget(self, tier):
        return (2600, 110) if tier == "quick" else (60000, 800)

    def gen(self, seed, i, tier):
        r = V.Rng(seed, self.ID, i)
        lmax = r.pick([2, 3, 4, 5])
        L = r.randrange(1, lmax + 1)
        table = dict(C.T)
        table.update(C.FILES)
        slow = sites.slow_table(r, C.SLOW, .015, C.LONG)
        if slow:
            table = slow
            nops = r.pick([3, 4, 5])
        else:
            nops = r.randrange(6, 21)
        focus = [C.choose(r, None, table) for _ in range(r.pick([1, 2, 3, 5] if not slow else [1]))]
        focus = sites.prefer(r, table, focus)
        ops, slots, calls_made, n = [], {}, [], 0
        while len(ops) < nops:
            x = r.random()
            if x < (.12 if not slow else .5) and calls_made:                 # the same call again, fresh or same arguments
                c = copy.deepcopy(r.pick(calls_made))
                ops.append(["call", n, c])
                slots[n] = (C.ALL[c["f"]][1], c["L"])
                n += 1
                if r.chance(.5):
                    ops.append(["edit", n - 1, r.randrange(5)])
            elif x < .75 or not slots:
                f = r.pick(focus) if r.chance(.75) else C.choose(r, None, table)
                c = C.make(r, f, lmax, L=L if r.chance(.8) else None)
                used = []
                for k, g in enumerate(C.ALL[f][0]):
                    kind = KIND_OF.get(g)
                    if kind is None or not isinstance(c["a"][k], list):
                        continue
                    cand = [s for s, (kd, sl) in slots.items() if kd == kind and (kind in ("pts", "pt1", "vec", "angles", "xyz") or sl == c["L"])]
                    if cand and r.chance(.6):
                        s = r.pick(cand)
                        c["a"][k] = ["ref", s]
                        used.append(s)
                    elif r.chance(.7):
                        ops.append(["new", n, c["a"][k]])
                        slots[n] = (kind, c["a"][k][1] if kind in ("qlm", "ds", "tm") else c["L"])
                        c["a"][k] = ["ref", n]
                        used.append(n)
                        n += 1
                ops.append(["call", n, c])
                res = n
                slots[n] = (C.ALL[f][1], c["L"])
                n += 1
                calls_made.append(c)
                if r.chance(.55):
                    ops.append(["edit", res, r.randrange(5)])
                if used and r.chance(.45):
                    ops.append(["edit", r.pick(used), r.randrange(5)])
            elif x < .9:
                ops.append(["edit", r.pick(sorted(slots)), r.randrange(5)])
            else:
                s = r.pick(sorted(slots))
                ops.append(["drop", s, r.randrange(2)])
                slots.pop(s)
        return {"ops": ops}

    def run(self, trace):
        res = hist.execute(trace, False)
        sig, last_call, edited, nt = [], False, False, False
        for op in trace["ops"]:
            if op[0] == "call":
                sig.append((op[2]["f"], [a[1] if isinstance(a, list) and a[0] == "ref" else "." for a in op[2]["a"]]))
                nt |= edited
                last_call = True
            else:
                sig.append(op[:2])
                edited |= last_call and op[0] == "edit"
        res["nontrivial"] = nt
        res["states"] = [core.digest(sig)] if nt else []
        return res

    shrink = staticmethod(hist.shrink)
