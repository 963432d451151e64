"""Known findings: listed in known_findings.json, each re-tried on the real code; printed while it still fails."""
import os
import numpy as np
from . import core, world


def zero_body(kind, args):
    import newt.shapes as sh
    b = getattr(sh, kind)(*args)
    return b.mass != 0 and not np.any(b.qlm)


def zero_above(kind, args, degree):
    import newt.shapes as sh
    q = np.asarray(getattr(sh, kind)(*args).qlm)
    return bool(np.any(q[:degree + 1])) and not np.any(q[degree + 1:])


def script_zero_above(text, L, degree):
    import newt.read_multiFor as rm
    d = world.FIX + "/known-%d" % os.getpid()
    os.makedirs(d + "/mpc", exist_ok=True)
    with open(d + "/mpc/k.mpc", "w") as f:
        f.write(text)
    q = np.asarray(rm.read_mpc(L, "k", d + "/mpc/"))
    return bool(np.any(q[:degree + 1])) and not np.any(q[degree + 1:])


PROBES = {"zero_body": zero_body, "zero_above": zero_above, "script_zero_above": script_zero_above}


def lines(pid):
    out = []
    for e in core.load_known():
        if e.get("status") != "known" or e["property"] != pid:
            continue

        def go():
            world.fresh_process()
            return bool(PROBES[e["probe"]](*e["input"]))
        try:
            st, r = core.isolate(go, 120)
        except core.HarnessError:
            continue
        if st == "ok" and r:
            out.append("KNOWN-FINDING: property=%s %s" % (pid, e["what"]))
    return out
