"""The simulated disk of one run: delivery of bytes (short reads, EINTR, stalls) and faults, by rules of the preloaded layer."""
import ctypes
import errno
import os
import resource
import shutil
from . import core, world

OPEN, READ, WRITE, CLOSE, SYNC, RENAME = 1, 2, 4, 8, 16, 32
ERRNO, SHORT, EOF, TRUNC, SWAP, KILL, STALL = 1, 2, 3, 4, 5, 6, 7
READ_ERR = ["EIO", "ESTALE", "ENOMEM", "EISDIR"]
OPEN_ERR = ["EACCES", "EMFILE", "ENOENT", "EIO", "ENFILE", "ENOMEM"]


STAMPS = ["step", "step", "coarse", "same", "same", "back", "swing"]


class Disk:
    """Scratch folder of the simulated process; exists only inside the forked child."""
    def __init__(self, subs=()):
        self.root = "%s/run-%d" % (world.FIX, os.getpid())
        shutil.rmtree(self.root, ignore_errors=True)
        for s in subs:
            os.makedirs(self.root + "/" + s)
        self.texts = {}
        self.how, self.writes, self.now = "step", 0, 1_500_000_000_000_000_000

    def close(self):
        world.LIB.sim_fs_end()
        shutil.rmtree(self.root, ignore_errors=True)

    def put(self, rel, text):
        data = text.encode() if isinstance(text, str) else text
        self.write(rel, data)
        self.texts[rel] = data

    def write(self, rel, data):
        """Write as somebody else; the file's time stamp is what the simulated clock and file system make of it."""
        with open(self.root + "/" + rel, "wb") as f:
            f.write(data)
        self.writes += 1
        n = self.writes
        t = {"step": n * 1_000_000_007, "coarse": n * 300_000_000 // 2_000_000_000 * 2_000_000_000, "same": 0, "back": -n * 3_600_000_000_000, "swing": n * 7 % 4 * 1_000_000_000}[self.how]
        os.utime(self.root + "/" + rel, ns=(self.now + t, self.now + t))

    def remove(self, rel):
        try:
            os.remove(self.root + "/" + rel)
        except OSError:
            pass
        self.texts.pop(rel, None)

    def listing(self):
        out = {}
        for d, _, fs in os.walk(self.root):
            for f in fs:
                p = os.path.join(d, f)
                with open(p, "rb") as h:
                    out[os.path.relpath(p, self.root)] = h.read()
        return out

    def unchanged(self):
        """None, or what a routine that only reads did to the disk."""
        got = self.listing()
        for k in sorted(set(got) | set(self.texts)):
            if got.get(k) != self.texts.get(k):
                return "file %s %s" % (k, "appeared" if k not in self.texts else "disappeared" if k not in got else "was changed")
        return None

    def arm(self, delivery, faults=()):
        """delivery: {"chop": [seed, max, eintr%]}; faults: list of dicts.  Returns the rule numbers."""
        L = world.LIB
        L.sim_fs_begin((self.root + "/").encode())
        c = (delivery or {}).get("chop")
        if c:
            L.sim_fs_chop(c[0], c[1], c[2])
        ids = []
        for f in faults:
            act, arg, aux = f["act"], f.get("arg", 0), b""
            if act == "errno":
                a, arg = ERRNO, getattr(errno, f["err"])
            elif act == "eof":
                a = EOF
            elif act == "eofat":
                a = 8
            elif act == "trunc":
                a = TRUNC
            elif act == "swap":
                a, aux = SWAP, (self.root + "/" + f["aux"]).encode()
            elif act == "stall":
                a = STALL
            else:
                raise core.HarnessError(act)
            ids.append(L.sim_fs_rule({"open": OPEN, "read": READ, "close": CLOSE, "write": WRITE}[f["op"]], f["path"].encode(), f.get("nth", 1), f.get("last", f.get("nth", 1)), a, arg, aux))
        return ids

    def disarm(self, ids, stats, faults=()):
        L = world.LIB
        L.sim_fs_end()
        fired = [L.sim_fs_fired(i) > 0 for i in ids]
        for f, x in zip(faults, fired):
            if x:
                stats.add("fault.%s_%s%s" % (f["act"], f["op"], "_" + f["err"] if f["act"] == "errno" else ""))
        if L.sim_fs_chopped():
            stats.add("fault.short_reads", L.sim_fs_chopped())
        if L.sim_fs_eintr():
            stats.add("fault.eintr", L.sim_fs_eintr())
        stats.add("probe.reads", L.sim_fs_ops(READ))
        return fired


def few_descriptors(spare=6):
    """Leave only a few free descriptors, so that a routine that forgets to close its files runs out."""
    used = max(int(x) for x in os.listdir("/proc/self/fd"))
    hard = resource.getrlimit(resource.RLIMIT_NOFILE)[1]
    resource.setrlimit(resource.RLIMIT_NOFILE, (min(used + 1 + spare, hard), hard))


def gen_delivery(r):
    if r.chance(.6):
        return {"chop": [r.randrange(1 << 30), r.pick([1, 2, 3, 7, 16, 64, 500, 4096]), r.pick([0, 0, 5, 30])]}
    return {}
