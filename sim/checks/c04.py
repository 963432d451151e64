"""C04: a result depends only on the arguments."""
import copy
import json
import os
import pickle
import subprocess
import sys
from .. import core, hist, sites, world, calls as C, values as V
from .common import Base, spell

CHEAP = ["glib.gmmr2_array", "glib.translate_point_array", "glib.rotate_point_array", "glib.point_matrix_gravity", "rotations.dlmn", "rotations.wignerDl",
         "rotations.rotate_qlm", "rotations.rotate_H_recurs", "qlm.annulus", "qlm.cone", "qlm.rect_prism", "qlm.ngon_prism", "qlm.cylinder", "qlm.sphere",
         "translationRecurs.transl_newt_z_RR", "translationRecurs.transl_newt_z_SS", "translationRecurs.transl_newt_z_SR", "translationRecurs.translate_qlm",
         "bigQlm.sphere", "multipoleLib.force_basis", "multipoleLib.embed_qlm", "clebschGordan.cgCoeff", "glibShapes.sphere", "gShapeGL.sphere", "pg2Multi.qmoments"]


class Check(Base):
    ID = "C04"
    RULE = ("a run is a history of 6-16 calls (one run in twelve: 150-320 cheap calls, then revisits) with equal, nearly equal, re-typed, re-signed and "
            "re-sized arguments, between clock jumps, reseeding and directory changes; process settings are compared around every call, results with a fresh "
            "process; one run in twenty visits a grid of up to thousands of arguments that a key could confuse, in two opposite orders; one run in 150 repeats its calls in a newly started interpreter with another hash seed, locale, time and directory; non-trivial: at "
            "least two calls of one routine; distinct: multiset of (routine, argument digest) sequences")
    STATES = "distinct ordered pairs (earlier call, later call) of one routine that shared a process"

    def budget(self, tier):
        return (1800, 110) if tier == "quick" else (40000, 800)

    def gen(self, seed, i, tier):
        r = V.Rng(seed, self.ID, i)
        table = dict(C.T)
        table.update(C.FILES)
        if i % 150 == 7:
            t = dict(table)
            t.update(C.RAND)
            names = [C.choose(r, None, t) for _ in range(40)]
            return {"fresh": {"PYTHONHASHSEED": str(r.randrange(1, 4294967295)), "TZ": r.pick(["UTC", "Asia/Tokyo", "America/New_York"]),
                              "LC_ALL": r.pick(["C", "C.UTF-8", "POSIX"]), "HOME": "/nonexistent"}, "clock": r.pick([0, 4_000_000_000, 1_000_000_000]),
                    "calls": [C.make(r, n) for n in names], "ops": []}
        if i % 20 == 11:                                   # a grid of arguments that a key could confuse, visited in two orders
            name = sites.prefer(r, table, [r.pick(CHEAP) if r.chance(.6) else C.choose(r, None, table)])[0]
            if name in C.HEAVY or name in C.FILES:
                name = "clebschGordan.cgCoeff"
            return {"grid": C.lattice(r, name, 2500 if name.startswith("cleb") else 150), "ops": []}
        ops = []
        if i % 12 == 5:                                    # a long life: many distinct small calls, then the early ones again
            names = sites.prefer(r, {n: 1 for n in CHEAP}, [r.pick(CHEAP) for _ in range(r.pick([1, 1, 2]))])
            base = [C.make(r, n, 3) for n in names]
            made = []
            for k in range(r.randrange(150, 320)):
                c = r.pick(base) if r.chance(.3) else r.pick(made) if made else base[0]
                c = C.make(r, r.pick(names), 3) if r.chance(.5) else C.sibling(r, c)
                made.append(c)
                ops.append(["call", None, c])
            for c in made[:6] + [r.pick(made) for _ in range(6)]:
                ops.append(["call", None, copy.deepcopy(c)])
            return {"ops": ops, "judge": sorted(r.sample(range(len(ops) - 12), 24)) + list(range(len(ops) - 12, len(ops)))}
        n = r.randrange(6, 17)
        slow = sites.slow_table(r, C.SLOW, .02, C.LONG)
        if slow:
            table = slow
            n = r.pick([3, 4])
        elif r.chance(.15):
            table.update(C.RAND)
        focus = [C.choose(r, None, table) for _ in range(r.pick([1, 2, 2, 3, 4]))]
        focus = sites.prefer(r, table, focus)
        if "glibShapes.spherical_random_shell" in table and r.chance(.6):
            focus.append("glibShapes.spherical_random_shell")
        base = {f: C.make(r, f) for f in focus}
        made = []
        while len(ops) < n:
            x = r.random()
            if x < .08:
                ops.append(["seed", r.randrange(1000)])
            elif x < .16:
                ops.append(["clock", r.pick([.001, 1, 61, 3600, 86400.0, 1e7, -3600, -1e8])])
            elif x < .19:
                ops.append(["chdir", r.pick(["mom", "mpc"])])
            else:
                f = r.pick(focus)
                c = copy.deepcopy(base[f]) if r.chance(.25) else C.sibling(r, r.pick([m for m in made if m["f"] == f] or [base[f]]))
                made.append(c)
                ops.append(["call", None, c])
        return {"ops": ops}

    def run(self, trace):
        if trace.get("fresh"):
            return self.fresh(trace)
        if trace.get("grid"):
            return self.grid(trace)
        res = hist.execute(trace, True)
        by, states = {}, []
        for op in trace["ops"]:
            if op[0] == "call":
                key = core.digest(op[2]["a"])
                prev = by.setdefault(op[2]["f"], [])
                for p in prev[-4:]:
                    states.append(core.digest([op[2]["f"], p, key])[:12])
                prev.append(key)
        res["nontrivial"] = any(len(v) > 1 for v in by.values())
        res["states"] = states
        if len(trace["ops"]) > 100:
            res["stats"]["probe.long_lives"] = 1
        res.pop("log", None)
        return res

    def grid(self, trace):
        calls = trace["grid"]

        def life(order):
            world.fresh_process(stall=True)
            sys.stdout = world.Sink()
            out = {}
            for k in order:
                out[k] = hist._call(C.fn(calls[k]["f"]), C.decode_args(calls[k]))
            return [out[k] for k in range(len(calls))]
        got = []
        for order in (range(len(calls)), range(len(calls) - 1, -1, -1)):
            st, o = core.isolate(lambda: life(order), 120)
            if st != "ok":
                raise core.HarnessError("run died: %r" % (o,))
            got.append(o)
        viol = None
        for c, x, y in zip(calls, *got):
            w = world.compare(x, y, C.decode_args(c))
            if w:
                viol = {"class": "history-dependent", "detail": "%s among %d calls of the routine, the same calls made in the reverse order: %s" % (
                    spell(c), len(calls), w)}
                break
        return {"violation": viol, "digest": core.digest([viol, [V.digest(o) for o in got[0][:200]]]), "nontrivial": True,
                "states": [core.digest([calls[0]["f"], len(calls), calls[0]["a"]])[:12]], "sim_time": 2e-3 * len(calls),
                "stats": {"probe.argument_grids": 1, "calls": 2 * len(calls)}}

    def fresh(self, trace):
        env = dict(os.environ)
        env.update(trace["fresh"])
        env["SIM_FIX"] = world.FIX
        env["LD_PRELOAD"] = os.environ["SIM_SHIM"]
        p = subprocess.run([sys.executable, "-c", "import sys; sys.path.insert(0, %r); from sim.checks import c04; c04.child()" % core.VERIF],
                           input=json.dumps(trace).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd="/", timeout=200)
        if p.returncode:
            raise core.HarnessError("fresh interpreter failed: " + p.stderr.decode()[-1500:])
        got = pickle.loads(p.stdout)
        viol, dig = None, []
        for c, g in zip(trace["calls"], got):
            args = C.decode_args(c)
            w = world.compare(g, world.baseline(c["f"], C.decode_args(c)), args)
            dig.append(V.digest(g))
            if w:
                viol = {"class": "environment-dependent", "detail": "%s in another interpreter (%s): %s" % (spell(c), trace["fresh"], w)}
                break
        return {"violation": viol, "digest": core.digest([viol, dig]), "stats": {"fault.fresh_interpreter": 1, "calls": len(got)}, "nontrivial": True,
                "states": [], "sim_time": 0.0}

    def shrink(self, t):
        if t.get("grid"):
            from .common import shrink_list
            yield from shrink_list(t, "grid", 1)
        elif t.get("fresh"):
            from .common import shrink_list
            yield from shrink_list(t, "calls", 1)
        else:
            yield from hist.shrink(t)


def child():
    trace = json.load(sys.stdin)
    real = os.dup(1)
    world.load()
    world.FIX = os.environ["SIM_FIX"]
    out = []
    for c in trace["calls"]:
        def go():
            world.fresh_process()
            world.CLOCK.start(int(trace["clock"] * 1e9) + 1, 5_000_000)
            world.LIB.sim_random(1, 777)
            return hist._call(C.fn(c["f"]), C.decode_args(c))
        st, o = core.isolate(go, 60)
        if st != "ok":
            raise core.HarnessError("died")
        out.append(o)
    os.write(real, b"")
    d = pickle.dumps(out, protocol=4)
    core._write_all(real, d)
    os._exit(0)
