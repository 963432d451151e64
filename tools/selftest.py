#!/usr/bin/env python3
"""Determinism of the simulator: every check runs the same seeds under different worker counts, hash seeds and times of day;
the event digests of all runs must agree.  With --mutants, also that a recorded replay file repeats exactly."""
import os
import subprocess
import sys
import tempfile

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N = {"C04": 160, "C01": 300, "C09": 200, "C10": 150, "C11": 150, "C14": 200, "C13": 100, "C15": 150, "C16": 60, "C17": 60, "C18": 150, "C19": 200}
bad = 0
for c in sys.argv[1:] or ["C%02d" % k for k in range(1, 20)]:
    seen = []
    for env in ({"VERIF_WORKERS": "8", "PYTHONHASHSEED": "0"}, {"VERIF_WORKERS": "3", "PYTHONHASHSEED": "4242", "TZ": "Asia/Tokyo"}):
        with tempfile.NamedTemporaryFile() as f:
            e = dict(os.environ, **env)
            p = subprocess.run([here + "/check.sh", c, "--n", str(N.get(c, 400)), "--cap", "600", "--digests", f.name], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            seen.append(dict(x.split() for x in open(f.name)))
            if p.returncode:
                print(p.stdout.decode()[-800:])
    a, b = seen
    d = [k for k in a if a[k] != b.get(k)]
    print("%s: %d runs, %d differ%s" % (c, len(a), len(d), " (%s)" % ", ".join(d[:5]) if d else ""), flush=True)
    bad += bool(d) or len(a) != len(b) or not a
sys.exit(1 if bad else 0)
