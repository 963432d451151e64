#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the checks present in sim/checks."""
import json
import os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": "deterministic simulation: seeded thread scheduler (random, PCT, round robin; line and opcode switch points) with abort injection, results against fresh-process baselines",
    "C02": "deterministic simulation: seeded call histories with caller edits, drops and memory reuse against an exact value model",
    "C03": "deterministic simulation with fault injection: interrupts, out-of-memory errors, failing standard output and unusable arguments at seeded points inside calls",
    "C04": "deterministic simulation: seeded call histories under simulated clock, random state, working directory and hash seed, results against fresh-process baselines",
    "C05": "deterministic simulation with fault injection: files delivered through a simulated disk (short reads, EINTR, stalls), results against an independent parser",
    "C06": "deterministic simulation with fault injection: torn files, read errors, truncation and replacement at every point of a load",
    "C07": "deterministic simulation: seeded command histories against an executable reference model of the two registers, files delivered by the simulated disk",
    "C08": "deterministic simulation with fault injection: open/read errors, torn, missing and replaced files in histories of script runs, against the reference model",
    "C09": "deterministic simulation: seeded histories of body operations against an executable reference model (mass distributions, rigid motions, measured CAD solids)",
    "C10": "deterministic simulation with fault injection: the k-th call into the CAD or numerical layer of a body operation fails; state compared and operation retried",
    "C11": "deterministic simulation with fault injection: full disk at any byte, failing opens, missing folders and process kill at seeded points of a save; durable files re-read",
    "C12": "deterministic simulation: crafted generator states and seeded random streams drive the rejection sampler, invariants checked on every result",
    "C13": "deterministic simulation: Octave's rand() replaced by a seeded adversarial stream, invariants checked on every result",
    "C14": "deterministic simulation: seeded histories of operations and in-place edits over several bodies against a frozen snapshot model",
    "C15": "deterministic simulation with fault injection: seeded orders of imports under the thread scheduler, with aborts at module lines and unreadable sources, against modules imported alone",
    "C16": "deterministic simulation with fault injection: seeded histories of Octave calls with out-of-memory at seeded points and session changes, against calls made alone in a forked session",
    "C17": "deterministic simulation: Octave's rand() replaced by a seeded adversarial stream, the points read back from the figure",
    "C18": "deterministic simulation with fault injection: seeded histories of CAD models with failures at the k-th call into the CAD kernel, source line or disk operation, against a rigid-motion reference",
    "C19": "deterministic simulation with fault injection: seeded histories of displays among the caller's own figures, failing at the n-th source line, C call or entry into matplotlib; artists and pixels of every figure read back",
}
NOTE = {
    "_": "Sampled evidence: every seeded history in the budget held. Trusts the fault layer (sim/), CPython, numpy/scipy and, for bodies, OpenCASCADE. ",
}
NA = {
    "N01": "a pure function of the two point arrays and constants; no schedule, fault, time or history can affect it, so there is nothing for a simulator to decide",
    "N02": "a pure function of dimensions, mass and degree; its truth is a question of mathematics over inputs, not of schedules or faults (independence of history, threads and aborts is C01-C04; scripts and bodies that use the formulas are C07 and C09)",
    "N03": "a pure function of table and angles; only its independence of history and threads (C01-C04) and its use in histories (C07, C09) are simulation targets",
    "N04": "a pure function of table and vector; only its independence of history and threads (C01-C04) and its use in histories (C07, C09) are simulation targets",
    "N05": "a convergence statement about pure functions; no schedule, fault or history in it",
    "N06": "deterministic generators without I/O, randomness or state; a statement about inputs only",
    "N07": "a pure function of integers; nothing for a scheduler or fault injector to vary",
    "N08": "compares two pure implementations input by input; no schedule, fault or history in it",
}
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists("%s/sim/checks/%s.py" % (here, i.lower())):
        checks.append({"property": i, "quick_cmd": "./check.sh %s --tier quick" % i, "thorough_cmd": "./check.sh %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": TECH[i], "level": "exploration", "level_note": NOTE["_"] + NOTE.get(i, "")})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: all seams (threads, locks, clock, file system, randomness, standard output, CAD layer) are taken from outside, by LD_PRELOAD and by replacing library entry points in the simulated process."}
m = {k: v for k, v in m.items()}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
open(here + "/MANIFEST.json", "a").write("\n")
