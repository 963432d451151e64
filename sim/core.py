"""Driver: seeds -> traces -> isolated simulated runs -> violations, minimised replay files, evidence."""
import hashlib
import importlib
import json
import os
import pickle
import select
import signal
import struct
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORKERS = int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 1)


class HarnessError(Exception):
    pass


class RunTimeout(HarnessError):
    pass


class SimHang(Exception):
    """A run used up its budget of executed source lines: no progress."""


STEP_LIMIT = [0]            # when set, simulated processes count source lines of the code under test
HANG_STATUS = 77


_real_monotonic = time.monotonic


def _write_all(fd, data):
    while data:
        n = os.write(fd, data)
        data = data[n:]


def isolate(fn, timeout=60.0):
    """Run fn() in a forked child and return its (picklable) result.  The child dies with os._exit, so nothing it did
    to the process survives.  Returns ("ok", value) | ("died", wait status) ; raises RunTimeout / HarnessError."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            try:
                res = ("ok", fn())
            except BaseException as e:        # noqa: the harness itself failed
                res = ("harness", "".join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:])
            try:
                data = pickle.dumps(res, protocol=4)
            except Exception as e:
                data = pickle.dumps(("harness", "unpicklable result: %r" % (e,)), protocol=4)
            _write_all(w, struct.pack(">Q", len(data)) + data)
        except BaseException:
            code = 97
        finally:
            os._exit(code)
    os.close(w)
    end = _real_monotonic() + timeout
    buf = b""
    try:
        while True:
            left = end - _real_monotonic()
            if left <= 0:
                os.kill(pid, signal.SIGKILL)
                raise RunTimeout("no answer within %g s" % timeout)
            if select.select([r], [], [], min(left, 5))[0]:
                d = os.read(r, 1 << 20)
                if not d:
                    break
                buf += d
    finally:
        os.close(r)
        _, st = os.waitpid(pid, 0)
    if len(buf) < 8 or len(buf) < 8 + struct.unpack(">Q", buf[:8])[0]:
        if os.WIFEXITED(st) and os.WEXITSTATUS(st) == HANG_STATUS:
            raise SimHang()
        return ("died", st)
    res = pickle.loads(buf[8:])
    if res[0] == "harness":
        raise HarnessError(res[1])
    return res


def digest(obj):
    return hashlib.sha1(json.dumps(obj, sort_keys=True, default=str).encode()).hexdigest()[:20]


class Stats(dict):
    """Nested counters that can be merged."""
    def add(self, key, n=1):
        self[key] = self.get(key, 0) + n

    def merge(self, other):
        for k, v in other.items():
            if isinstance(v, (int, float)):
                self[k] = self.get(k, 0) + v


def _send(fd, obj):
    d = pickle.dumps(obj, protocol=4)
    _write_all(fd, struct.pack(">Q", len(d)) + d)


def run_one(check, trace):
    """One simulated run.  After a wall-clock timeout the same trace runs again counting executed source lines: only using up
    that (deterministic) budget is a violation; another wall-clock timeout is an error of the harness."""
    limit = STEP_LIMIT[0]
    try:
        return check.run(trace)
    except SimHang:
        pass
    except RunTimeout:
        STEP_LIMIT[0] = limit or 20_000_000
        try:
            return check.run(trace)
        except SimHang:
            pass
        finally:
            STEP_LIMIT[0] = limit
    return {"violation": {"class": "no-progress", "detail": "the run executed %d source lines without finishing" % (limit or 20_000_000)},
            "digest": digest("no-progress"), "stats": {}, "states": [], "nontrivial": True}


def worker(check, seed, tier, indices, fd, deadline):
    for i in indices:
        if _real_monotonic() > deadline:
            break
        t0 = _real_monotonic()
        try:
            trace = check.gen(seed, i, tier)
            res = run_one(check, trace)
            msg = {"i": i, "res": res, "trace": trace if (res.get("violation") or i < 2) else None, "wall": _real_monotonic() - t0}
        except BaseException as e:
            msg = {"i": i, "error": "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]}
        _send(fd, msg)
    _send(fd, {"end": True})


def sweep(check, seed, tier, n, cap):
    """Run n seeds over the workers; returns results, first violation (lowest index) and errors."""
    out, errors, viol = [], [], []
    deadline = _real_monotonic() + cap
    fds, pids = {}, []
    sys.stdout.flush()
    for w in range(WORKERS):
        r, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.setpgid(0, 0)
                os.close(r)
                for f in fds:
                    os.close(f)
                worker(check, seed, tier, range(w, n, WORKERS), wfd, deadline)
            except BaseException:
                code = 98
            finally:
                os._exit(code)
        try:
            os.setpgid(pid, pid)
        except OSError:
            pass
        os.close(wfd)
        fds[r] = bytearray()
        pids.append(pid)
    ended = 0
    stop = False
    while fds and not stop:
        for f in select.select(list(fds), [], [], 5)[0]:
            d = os.read(f, 1 << 20)
            if not d:
                os.close(f)
                del fds[f]
                continue
            b = fds[f]
            b += d
            while len(b) >= 8 and len(b) >= 8 + struct.unpack(">Q", b[:8])[0]:
                k = struct.unpack(">Q", b[:8])[0]
                msg = pickle.loads(bytes(b[8:8 + k]))
                del b[:8 + k]
                if "end" in msg:
                    ended += 1
                elif "error" in msg:
                    errors.append((msg["i"], msg["error"]))
                else:
                    if msg["res"].get("violation"):
                        viol.append((msg["i"], msg["trace"], msg["res"]))
                    out.append(msg)
        if viol or len(errors) >= 20:
            stop = True
    if stop:
        for p in pids:
            try:
                os.killpg(p, signal.SIGKILL)
            except OSError:
                pass
        for f in fds:
            os.close(f)
    for p in pids:
        try:
            os.waitpid(p, 0)
        except OSError:
            pass
    if not stop and ended < WORKERS:
        errors.append((-1, "a worker process died"))
    viol.sort(key=lambda x: x[0])
    return out, viol, errors


def minimise(check, trace, want, budget=90.0, log=None):
    """Greedy shrinking: keep any candidate that still shows a violation of the same class."""
    end = _real_monotonic() + budget
    cur, tries, kept = trace, 0, 0
    progress = True
    while progress and _real_monotonic() < end:
        progress = False
        for cand in check.shrink(cur):
            if _real_monotonic() > end:
                break
            tries += 1
            try:
                res = isolate_check(check, cand)
            except HarnessError:
                continue
            v = res.get("violation")
            if v and v["class"] == want:
                cur, kept, progress = cand, kept + 1, True
                break
    return cur, tries, kept


def isolate_check(check, trace):
    return run_one(check, trace)


def size_of(trace):
    return len(json.dumps(trace))


def load_known():
    known = []
    p = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(p):
        known = json.load(open(p))["entries"]
    return known


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("check", nargs="?")
    ap.add_argument("--replay")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--n", type=int)
    ap.add_argument("--cap", type=float)
    ap.add_argument("--index", type=int, help="run a single seed index and print its result")
    ap.add_argument("--digests", help="write the per-seed event digests to this file (determinism self-test)")
    a = ap.parse_args(argv)
    rep = None
    if a.replay:
        rep = json.load(open(a.replay))
        a.check = rep["property"]
    mod = importlib.import_module("sim.checks." + a.check.lower())
    check = mod.Check()
    check.preload()
    try:
        if rep is not None:
            return replay(check, rep, a.replay)
        return explore(check, a)
    finally:
        getattr(check, "cleanup", lambda: None)()


def replay(check, rep, path):
    res = run_one(check, rep["trace"])
    v = res.get("violation")
    if not v:
        print("REPLAY property=%s: no violation (the recorded one was %s)" % (check.ID, rep["violation"]["class"]))
        return 0
    same = v["class"] == rep["violation"]["class"] and res.get("digest") == rep.get("digest")
    print("REPLAY property=%s class=%s exact=%s\n  %s" % (check.ID, v["class"], same, v["detail"]))
    print("VIOLATION property=%s replay=%s" % (check.ID, path))
    return 1


def explore(check, a):
    t0 = _real_monotonic()
    n, cap = check.budget(a.tier)
    n, cap = a.n or n, a.cap or cap
    print("%s tier=%s seed=%d runs=%d cap=%gs workers=%d repo=%s" % (check.ID, a.tier, a.seed, n, cap, WORKERS, REPO), flush=True)
    if a.index is not None:
        trace = check.gen(a.seed, a.index, a.tier)
        print(json.dumps(trace)[:6000])
        res = run_one(check, trace)
        print(json.dumps(res, indent=1, default=str)[:6000])
        return 1 if res.get("violation") else 0
    known_lines = []
    pre = getattr(check, "before", lambda s, t: None)(a.seed, a.tier) or {}
    results, viol, errors = sweep(check, a.seed, a.tier, n, cap)
    if a.digests:
        with open(a.digests, "w") as f:
            for m in sorted(results, key=lambda m: m["i"]):
                f.write("%d %s\n" % (m["i"], m["res"].get("digest")))
    wall = _real_monotonic() - t0
    tot, states, simt = Stats(), set(), 0.0
    nontriv = 0
    for m in results:
        r = m["res"]
        tot.merge(r.get("stats", {}))
        states.update(r.get("states", ()))
        simt += r.get("sim_time", 0.0)
        nontriv += 1 if r.get("nontrivial") else 0
    post = getattr(check, "after", lambda s, t: None)(a.seed, a.tier) if not viol else None
    if post and post.get("violation"):
        viol.append((n, post["trace"], post))
    if post:
        tot.merge(post.get("stats", {}))
    rcode = 0
    replay_path = None
    if viol:
        i, trace, res = viol[0]
        v = res["violation"]
        print("seed index %d: %s: %s" % (i, v["class"], v["detail"]), flush=True)
        small, tries, kept = trace, 0, 0
        if res.get("concrete"):
            trace = res["concrete"]
        if not trace.get("_no_shrink"):
            small, tries, kept = minimise(check, trace, v["class"], budget=60 if a.tier == "quick" else 240)
        final = run_one(check, small)
        if not final.get("violation"):
            small, final = viol[0][1], res
        # confirm in a process that shares nothing with this one
        os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
        replay_path = os.path.join(VERIF, "evidence", "replay", "%s-seed%d-%d.json" % (check.ID, a.seed, i))
        json.dump({"property": check.ID, "seed": a.seed, "index": i, "tier": a.tier, "trace": small,
                   "violation": final["violation"], "digest": final.get("digest"),
                   "minimised": {"from_bytes": size_of(trace), "to_bytes": size_of(small), "tried": tries, "kept": kept},
                   "log": final.get("log")}, open(replay_path, "w"), indent=1, default=str)
        print("minimised %d -> %d bytes (%d candidates): %s" % (size_of(trace), size_of(small), tries, final["violation"]["detail"]))
        print("VIOLATION property=%s replay=%s" % (check.ID, replay_path), flush=True)
        rcode = 1
    elif errors:
        for i, e in errors[:3]:
            print("HARNESS-ERROR seed index %d: %s" % (i, e), file=sys.stderr)
        rcode = 2
    elif not results:
        print("HARNESS-ERROR no run finished", file=sys.stderr)
        rcode = 2
    elif nontriv == 0:
        print("HARNESS-ERROR no run was non-trivial", file=sys.stderr)
        rcode = 2
    for line in getattr(check, "known_lines", lambda: [])():
        print(line)
    samples = [{"index": m["i"], "trace": m["trace"]} for m in sorted(results, key=lambda m: m["i"]) if m["trace"] is not None][:2]
    for s in samples:
        if size_of(s) > 6000:
            s["trace"] = json.dumps(s["trace"])[:6000] + " ..."
    faults = {k[6:]: v for k, v in tot.items() if k.startswith("fault.")}
    probes = {k[6:]: v for k, v in tot.items() if k.startswith("probe.")}
    other = {k: v for k, v in tot.items() if "." not in k}
    ev = {
        "property": check.ID, "tier": a.tier, "seed": a.seed, "level": check.LEVEL,
        "coverage": {
            "evaluations": len(results), "distinct_nontrivial": len(states) if states else nontriv,
            "rule": check.RULE, "samples": samples or [{"index": -1, "trace": viol[0][1] if viol else None}],
            "simulated_runs": len(results), "runs_with_faults_or_contention": nontriv,
            "runs_per_hour": int(len(results) / max(wall, 1e-9) * 3600), "seed_range": [0, n],
            "simulated_seconds": round(simt, 3), "faults_injected": faults, "probes": probes, "counts": other,
            "distinct_states": len(states), "state_measure": check.STATES, "real_code": check.REAL, "stubs": check.STUBS,
            "workers": WORKERS, **pre,
        },
        "assumptions": check.ASSUME, "wall_s": round(_real_monotonic() - t0, 2), "violations": 1 if viol else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", check.ID + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s: %d runs, %d distinct states, %.1f s, faults %s, probes %s%s" % (
        check.ID, len(results), len(states), wall, faults, probes, "" if not errors else ", %d harness errors" % len(errors)))
    return rcode
