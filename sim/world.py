"""The simulated process: imports of the code under test, clock and disk seams, fixtures, settings snapshots, baselines."""
import ctypes
import io
import os
import pickle
import random
import shutil
import signal
import sys
import tempfile
import traceback
import warnings

from . import core, sched, values as V

LIB = None
FIX = None
_OWNER = None
C_LONG = ctypes.c_long


class Clock:
    """Simulated time; the shim answers every clock read of the process from it."""
    def start(self, ns=1_600_000_000_000_000_000, step=1000):
        LIB.sim_clock(1, ns, step)
        self.t0 = ns

    def stop(self):
        LIB.sim_clock(0, 0, 0)

    def now(self):
        return LIB.sim_clock_now() / 1e9

    def advance(self, sec):
        LIB.sim_clock_jump(int(sec * 1e9))

    def advance_to(self, t):
        d = t - self.now()
        if d > 0:
            self.advance(d)

    def elapsed(self):
        return max(0.0, (LIB.sim_clock_now() - self.t0) / 1e9)


CLOCK = Clock()


def lib():
    global LIB
    if LIB is None:
        LIB = ctypes.CDLL(None)
        if not hasattr(LIB, "sim_fs_begin"):
            raise core.HarnessError("the fault layer is not preloaded")
        LIB.sim_clock.argtypes = [ctypes.c_int, C_LONG, C_LONG]
        LIB.sim_clock_jump.argtypes = [C_LONG]
        for f in ("sim_clock_now", "sim_clock_reads", "sim_sleeps", "sim_fs_ops", "sim_fs_fired", "sim_fs_chopped", "sim_fs_eintr"):
            getattr(LIB, f).restype = C_LONG
        LIB.sim_fs_begin.argtypes = [ctypes.c_char_p]
        LIB.sim_fs_rule.argtypes = [ctypes.c_int, ctypes.c_char_p, C_LONG, C_LONG, ctypes.c_int, C_LONG, ctypes.c_char_p]
        LIB.sim_fs_chop.argtypes = [ctypes.c_ulong, ctypes.c_int, ctypes.c_int]
        LIB.sim_random.argtypes = [ctypes.c_int, ctypes.c_ulong]
    return LIB


MODS = ["glib", "glibShapes", "gShapeGL", "pg2Multi", "qlm", "qlmACH", "qlmNum", "bigQlm", "bigQlmNum", "rotations",
        "translations", "translationRecurs", "clebschGordan", "multipoleLib", "read_multiFor"]


def load(extra=()):
    """Import third-party code with real primitives, then the code under test with simulated ones."""
    lib()
    sched.CLOCK = CLOCK
    warnings.simplefilter("ignore")
    import numpy, numpy.random, numpy.fft, numpy.linalg, numpy.polynomial                      # noqa
    import scipy.special, scipy.linalg, scipy.integrate, scipy.optimize                         # noqa
    import matplotlib.pyplot, mpl_toolkits.mplot3d                                              # noqa
    for m in extra:
        __import__(m)
    if "cadquery" in extra:
        # the kernel meshes on a pool of its own native threads: none, so that runs repeat and a forked process can mesh
        from OCP.OSD import OSD_ThreadPool
        OSD_ThreadPool.DefaultPool_s(1)
    sched.install()
    if core.REPO not in sys.path[:1]:
        sys.path.insert(0, core.REPO)
    import newt
    here = os.path.realpath(newt.__file__)
    if not here.startswith(os.path.realpath(core.REPO) + os.sep):
        raise core.HarnessError("imported %s, not the tree under test" % here)
    for m in MODS:
        __import__("newt." + m)
    from . import sites
    sites.routines()


# ------------------------------------------------------------------ files
def gsq_text(q, title="part", lmax=None, fmt="%.15e", eol="\n", header=None, drop=0):
    """A moment file in MULTIN's layout; q is a (L+1)x(2L+1) table in the file's own units."""
    L = (len(q) - 1) if lmax is None else lmax
    lines = [title, "%d 0" % L] + (header or ["header %d" % i for i in range(7)])
    for l in range(len(q)):
        for m in range(l + 1):
            z = q[l, len(q) - 1 + m]
            lines.append((fmt + " " + fmt) % (z.real, z.imag))
    if drop:
        lines = lines[:-drop]
    return eol.join(lines) + eol


SCRIPTS = {
    "s_cyl.mpc": "cyl\ncreate cylinder\n0,2,1,0,360\n2.5\n0,0,0\nadd\ntranslate 1,0,.5\nadd\nend\n",
    "s_two.mpc": "two\ncreate rectangle\n2,1,3\n1.5\n0,.5,0\nrotate 30,20,10\nadd\ncreate sphere\n.5\n8\n1,1,1\nadd\nend\n",
    "s_inch.mpc": "inch\ninchin\ncreate tetrahedron\n1,2,1\n2\n0,0,1\nadd\ncmin\ncreate pyramid\n1,2,1\n2\n0,0,1\nadd\nend\n",
    "s_load.mpc": "load\nload part3\nrotate 10,0,0\nadd\ncreate cone\n1,0,2\n1\n0,0,0\nadd\ngettotal\ntranslate 0,0,2\nputtotal\nend\n",
    "s_trap.mpc": "trap\ncreate trapezoid\n2,1,1,.5\n3\n0,0,0\nadd\ncreate partcylinder\n2,1,.5\n1\n0,1,0\nadd\nend\n",
    # scripts that cannot be carried out
    "s_cut.mpc": "cut\ninchin\ncreate sphere\n1\n2\n0,0,1\nadd\ncreate cylinder\n0,2,1,0,360\n2.5\n",
    "s_miss.mpc": "miss\ncreate sphere\n1\n2\n0,0,1\nadd\nload nowhere\nadd\nend\n",
    "s_torn.mpc": "torn\ncreate sphere\n1\n2\n0,0,1\nadd\nload cut4\nadd\nend\n",
    "s_word.mpc": "word\ncreate sphere\none\n2\n0,0,1\nadd\nend\n",
}
BAD_NAMES = {"read_multiFor.read_gsq": ["nowhere", "cut4", "folder", "out3.gsq"], "read_multiFor.read_gbq": ["nowhere", "cut3", "part2"],
             "read_multiFor.read_mpc": ["nowhere", "s_cut", "s_miss", "s_torn", "s_word", "s_load"]}


def make_fixtures(base=None):
    """Scratch directory with moment files and scripts; removed by drop_fixtures."""
    global FIX, _OWNER
    FIX = tempfile.mkdtemp(prefix="vsim-", dir=base)
    _OWNER = os.getpid()
    os.makedirs(FIX + "/mom")
    os.makedirs(FIX + "/mpc")
    for L in (2, 3, 4, 5):
        with open(FIX + "/mom/part%d.gsq" % L, "w") as f:
            f.write(gsq_text(V.moments(L, 50 + L, 10.0), "part %d" % L))
        with open(FIX + "/mom/out%d.gbq" % L, "w") as f:
            f.write(gsq_text(V.moments(L, 70 + L, 2.0), "outer %d" % L))
    with open(FIX + "/mom/cut4.gsq", "w") as f:
        f.write(gsq_text(V.moments(4, 54, 10.0), "cut", drop=3))
    with open(FIX + "/mom/cut3.gbq", "w") as f:
        f.write(gsq_text(V.moments(3, 55, 10.0), "cut", drop=1))
    os.makedirs(FIX + "/mom/folder.gsq")
    for n, t in SCRIPTS.items():
        with open(FIX + "/mpc/" + n, "w") as f:
            f.write(t)
    return FIX


def drop_fixtures():
    if FIX and os.getpid() == _OWNER and FIX.startswith(tempfile.gettempdir() + "/vsim-"):
        shutil.rmtree(FIX, ignore_errors=True)


def _fixdir(sub):
    return FIX + "/" + sub + "/"


# ------------------------------------------------------------------ process settings
_MISSING = object()


def settings(rng=True):
    """Everything process-wide that a numerical routine has no business changing."""
    import numpy as np
    import matplotlib
    import decimal
    import gc
    import locale
    import threading
    s = {
        "np.geterr": dict(np.geterr()), "np.geterrcall": repr(np.geterrcall()),
        "np.printoptions": {k: repr(v) for k, v in np.get_printoptions().items()},
        "np.bufsize": np.getbufsize(),
        "warnings.filters": repr([(f[0], str(f[1]), f[2].__name__, str(f[3]), f[4]) for f in warnings.filters]),
        "showwarning": id(warnings.showwarning),
        "cwd": os.getcwd(), "environ": dict(os.environ),
        "stdout": id(sys.stdout), "stderr": id(sys.stderr), "stdin": id(sys.stdin), "excepthook": id(sys.excepthook),
        "recursionlimit": sys.getrecursionlimit(), "switchinterval": sys.getswitchinterval(),
        "path": list(sys.path), "gc": (gc.isenabled(), gc.get_threshold()),
        "locale": locale.setlocale(locale.LC_ALL, None),
        "decimal": repr(decimal.getcontext()), "umask": None,
        "rcParams": repr(sorted((k, str(v)) for k, v in matplotlib.rcParams.items())),
        "sigint": repr(signal.getsignal(signal.SIGINT)), "sigpipe": repr(signal.getsignal(signal.SIGPIPE)),
        "threads": threading.active_count(),
        "intstr": sys.get_int_max_str_digits(),
        "float_repr": 0.1 + 0.2,
    }
    try:
        import scipy.special as sp
        s["sp.errstate"] = dict(sp.geterr())
    except Exception:
        pass
    s["open files"] = sorted(os.listdir("/proc/self/fd"))
    s["umask"] = os.umask(0o022)
    os.umask(s["umask"])
    if rng:
        st = np.random.get_state()
        s["np.random"] = (st[0], st[1].tobytes(), st[2], st[3], st[4])
        s["random"] = hash(random.getstate())
    return s


def settings_diff(a, b):
    return sorted(k for k in set(a) | set(b) if a.get(k, _MISSING) != b.get(k, _MISSING))


# ------------------------------------------------------------------ running calls
class Sink(io.TextIOBase):
    """Standard output of the simulated process; can be made to fail at the k-th write."""
    def __init__(self, fail_at=None, exc=None):
        self.n, self.fail_at, self.exc, self.fired = 0, fail_at, exc, 0
        self.text = []

    def writable(self):
        return True

    def write(self, s):
        self.n += 1
        if self.fail_at is not None and self.n >= self.fail_at:
            self.fired += 1
            raise self.exc
        return len(s)

    def flush(self):
        pass


def fresh_process(seed=0, stall=False):
    """Bring the forked child to the reference state of a new process."""
    import numpy as np
    sched.DEFER = [] if stall else None      # stall: a thread the code starts runs only when somebody waits for it
    np.random.seed(seed)
    random.seed(seed)
    CLOCK.start()
    LIB.sim_random(1, 12345)
    sys.stdout = Sink()
    if core.STEP_LIMIT[0]:
        count_steps(core.STEP_LIMIT[0])


def count_steps(limit):
    """End the simulated process when it executes more source lines of the code under test than any finite run needs."""
    left = [limit]

    def trace(frame, event, arg):
        if event == "line":
            left[0] -= 1
            if left[0] < 0:
                os._exit(core.HANG_STATUS)
        elif event == "call" and not sched.is_sut(frame.f_code.co_filename):
            return None
        return trace
    sys.settrace(trace)


def outcome(f, args):
    """("ret", value) or ("exc", type name)."""
    try:
        return ("ret", f(*args))
    except sched.SimDeadlock:
        return ("exc", "SimDeadlock")
    except Exception as e:
        return ("exc", type(e).__name__)


_base = {}


def baseline(name, args, timeout=60.0):
    """The same call alone in a fresh process (forked from the pristine image).  Memoised per worker."""
    from . import calls as C
    data = pickle.dumps((name, args), protocol=4)
    got = _base.get(data)
    if got is None:
        def go():
            fresh_process()
            n, a = pickle.loads(data)
            return outcome(C.fn(n), a)
        st, val = core.isolate(go, timeout)
        if st != "ok":
            raise core.HarnessError("the call %s alone killed the process (%r)" % (name, val))
        got = val
        if len(_base) > 4000:
            _base.clear()
        _base[data] = got
    return got


def compare(got, want, args=()):
    """None, or how the outcome of a call differs from the same call alone."""
    if got[0] != want[0]:
        return "%s, but alone it %s" % (brief(got), brief(want))
    if got[0] == "exc":
        return None if got[1] == want[1] else "%s, but alone it %s" % (brief(got), brief(want))
    V.COARSE[0] = V.single(args)
    try:
        return V.same(got[1], want[1])
    finally:
        V.COARSE[0] = False


def brief(o):
    return ("raised %s" % o[1]) if o[0] == "exc" else ("returned %.60r" % (o[1],))
