"""Source lines of the code under test that touch state shared by several calls (module variables, class attributes,
default values, closures of decorators).  Only a hint where switching threads or failing is most telling: the verdict
never depends on it, and code without such lines is scheduled as before."""
import dis
import functools
import sys
import types

PLAIN = (int, float, complex, str, bytes, bool, type(None), type(Ellipsis), tuple, frozenset, types.ModuleType, types.FunctionType,
         types.BuiltinFunctionType, types.MethodType, type, type(len), range)


def mutable(v):
    if isinstance(v, PLAIN) or callable(v) and not hasattr(v, "cache_info") and not isinstance(v, (dict, list)):
        return False
    return not type(v).__module__.startswith(("numpy.ufunc", "numpy.core", "numpy._core", "typing", "_thread"))


def functions(ns, modname):
    for v in list(ns.values()):
        if isinstance(v, types.FunctionType):
            yield v
        elif isinstance(v, type) and v.__module__ == modname:
            for w in list(vars(v).values()):
                w = getattr(w, "__func__", w)
                if isinstance(w, types.FunctionType):
                    yield w


def codes(code):
    yield code
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            yield from codes(c)


def names_of(code):
    return [(i.opname, i.argval, i.positions.lineno if i.positions else None) for i in dis.get_instructions(code)]


class Module:
    """What is shared in one module."""
    def __init__(self, ns):
        self.ns = ns
        self.fns = list(functions(ns, ns.get("__name__")))
        self.stored, self.attrs, self.params = set(), set(), {}
        for f in self.fns:
            for c in codes(f.__code__):
                for op, arg, _ in names_of(c):
                    if op in ("STORE_GLOBAL", "DELETE_GLOBAL"):
                        self.stored.add(arg)
            p = set()
            d = f.__defaults__ or ()
            argn = f.__code__.co_varnames[:f.__code__.co_argcount]
            p.update(n for n, v in zip(argn[len(argn) - len(d):], d) if mutable(v))
            p.update(n for n, v in (f.__kwdefaults__ or {}).items() if mutable(v))
            for n, cell in zip(f.__code__.co_freevars, f.__closure__ or ()):
                try:
                    if mutable(cell.cell_contents):
                        p.add(n)
                except ValueError:
                    pass
            self.params[id(f.__code__)] = p
            self.attrs.update(k for k in vars(f) if k != "__wrapped__")
        for v in ns.values():
            if isinstance(v, type) and v.__module__ == ns.get("__name__"):
                self.attrs.update(k for k, w in vars(v).items() if not k.startswith("__") and mutable(w) and not hasattr(w, "__get__"))
            if isinstance(v, types.ModuleType) and v.__name__.startswith("newt."):
                self.attrs.update(k for k, w in vars(v).items() if not k.startswith("__") and mutable(w))

    def lines(self, code):
        out = set()
        par = self.params.get(id(code), ())
        owner = False                             # the instruction before loaded a module, class or function by its global name
        for op, arg, line in names_of(code):
            was, owner = owner, False
            if line is None:
                continue
            if op in ("STORE_GLOBAL", "DELETE_GLOBAL"):
                out.add(line)
            elif op in ("LOAD_GLOBAL", "LOAD_NAME"):
                v = self.ns.get(arg)
                if arg in self.stored or mutable(v):
                    out.add(line)
                if isinstance(v, (types.ModuleType, type, types.FunctionType)):
                    owner = True
            elif op in ("LOAD_ATTR", "LOAD_METHOD", "STORE_ATTR", "DELETE_ATTR") and arg in self.attrs:
                out.add(line)
            elif op in ("STORE_ATTR", "DELETE_ATTR") and was:
                out.add(line)
            elif "FAST" in op or "DEREF" in op:
                names = arg if isinstance(arg, tuple) else (arg,)
                if any(n in par for n in names):
                    out.add(line)
        return frozenset(out)


@functools.lru_cache(None)
def _module(name):
    m = sys.modules.get(name)
    return Module(vars(m)) if m is not None else None


_by_code = {}                    # by identity: hashing a code object while it is being traced is not safe in CPython 3.12


def _lines(code, name):
    got = _by_code.get(id(code))
    if got is None:
        try:
            m = _module(name)
            out = m.lines(code) if m is not None else frozenset()
        except Exception:
            out = frozenset()
        got = _by_code[id(code)] = (out, code)
    return got[0]


def lines(frame):
    got = _by_code.get(id(frame.f_code))
    return got[0] if got is not None else _lines(frame.f_code, frame.f_globals.get("__name__"))


@functools.lru_cache(None)
def routines():
    """Names 'module.function' of the loaded functions that have such lines or call (by name) a function that has."""
    uses, hot = {}, set()
    for name in sorted(sys.modules):
        if name.startswith("newt.") and ".tests" not in name:
            m = _module(name)
            hot.update(name[5:] + "." + k for k, v in (m.ns.items() if m else ()) if hasattr(v, "cache_info") and getattr(v, "__module__", "") == name)
            for f in m.fns if m else ():
                if f.__module__ == name:
                    k = name[5:] + "." + f.__name__
                    uses.setdefault(k, set()).update(n for c in codes(f.__code__) for n in c.co_names)
                    if any(_lines(c, name) for c in codes(f.__code__)):
                        hot.add(k)
    while True:
        bare = {k.split(".")[1] for k in hot}
        more = {k for k, u in uses.items() if u & bare} - hot
        if not more:
            return tuple(sorted(hot))
        hot |= more


def slow_table(r, table, p, rare=()):
    """Now and then the table of slow routines (the rare ones seldom); more often when some of them touch shared state."""
    touch = [n for n in sorted(table) if n in routines()]
    if not r.chance(.12 if touch else p):
        return None
    if touch and r.chance(.85):
        return {n: table[n] for n in touch}
    return {k: v for k, v in table.items() if k not in rare or r.chance(.15)}


def prefer(r, table, names):
    """With some probability put routines of the table that touch shared state in place of the chosen names."""
    h = [n for n in routines() if n in table]
    if not h or not r.chance(.5):
        return names
    return [r.pick(h) if r.chance(.8) else n for n in names]
