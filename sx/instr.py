"""Loads the real pyactr from /repo and, for symbolic runs, puts symbolic
stand-ins for the C-level built-ins it uses into the modules' globals.  No
pyactr function is replaced or rewritten."""

import builtins
import math
import os
import re
import sys
import types
import collections

REPO = os.environ.get("VERIF_REPO", "/repo")


def load_pyactr():
    """Import the real package from /repo's working tree, without writing bytecode."""
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import pyactr
    assert os.path.realpath(pyactr.__file__).startswith(os.path.realpath(REPO)), pyactr.__file__
    import pyactr.simulation, pyactr.model, pyactr.productions, pyactr.vision, pyactr.motor, pyactr.environment  # noqa
    return pyactr


def pyactr_modules():
    return [m for n, m in sorted(sys.modules.items()) if (n == "pyactr" or n.startswith("pyactr.")) and m is not None]


# ---------------------------------------------------------------- state reset

_CONT = (dict, list, set, collections.deque)


class Snapshot:
    """Module- and class-level mutable state, restored before every path."""

    def __init__(self):
        self.saved = []
        seen = set()
        for mod in pyactr_modules():
            self._grab(mod, seen)
            for v in list(vars(mod).values()):
                if isinstance(v, type) and (v.__module__ or "").startswith("pyactr") and id(v) not in seen:
                    seen.add(id(v))
                    self._grab(v, seen)

    def _grab(self, owner, seen):
        for k, v in list(vars(owner).items()):
            if k.startswith("__"):
                continue
            if isinstance(v, _CONT):
                self.saved.append((owner, k, v, v.copy()))
            elif v is None or isinstance(v, (bool, int, float, str, tuple, frozenset)):
                self.saved.append((owner, k, v, None))

    def restore(self):
        for owner, k, v, copy in self.saved:
            if copy is not None:
                if isinstance(v, dict):
                    v.clear()
                    v.update(copy)
                elif isinstance(v, set):
                    v.clear()
                    v.update(copy)
                else:
                    v.clear()
                    v.extend(copy)
            if vars(owner).get(k) is not v:
                try:
                    setattr(owner, k, v)
                except (AttributeError, TypeError):
                    pass


# ---------------------------------------------------------------- instrumentation

def instrument():
    from . import engine as E

    class FloatMeta(type):
        def __instancecheck__(cls, x):
            if isinstance(x, E.SymNum):
                import z3
                return z3.is_real(x.t)
            return isinstance(x, builtins.float)

        def __subclasscheck__(cls, c):
            return issubclass(c, builtins.float) or c is E.SymNum

    class Float(metaclass=FloatMeta):
        def __new__(cls, x=0.0):
            return to_float(x)

    class IntMeta(type):
        def __instancecheck__(cls, x):
            if isinstance(x, E.SymNum):
                import z3
                return z3.is_int(x.t)
            return isinstance(x, builtins.int)

        def __subclasscheck__(cls, c):
            return issubclass(c, builtins.int)

    class Int(metaclass=IntMeta):
        def __new__(cls, x=0, *a):
            return to_int(x, *a)

    class StrMeta(type):
        def __instancecheck__(cls, x):
            return isinstance(x, builtins.str)

        def __subclasscheck__(cls, c):
            return issubclass(c, builtins.str)

        def __eq__(cls, o):
            return o is cls or o is builtins.str

        def __hash__(cls):
            return hash(builtins.str)

        def __getattr__(cls, n):
            return getattr(builtins.str, n)

    class Str(metaclass=StrMeta):
        def __new__(cls, *a, **kw):
            r = builtins.str(*a, **kw)
            return E.eng().tokens.get(r, r) if type(r) is builtins.str else r

    Str.__name__ = Str.__qualname__ = "str"

    def unwrap(x):
        if isinstance(x, str) and not isinstance(x, E.SymStr):
            return E.eng().tokens.get(str.__str__(x), x)
        return x

    def to_float(x):
        x = unwrap(x)
        if isinstance(x, E.IntStr):
            return E.SymNum(E.z3.simplify(E.z3.ToReal(x.t)), True)
        if isinstance(x, E.RelStr):
            raise ValueError(f"could not convert string to float: {x!r}")
        if isinstance(x, E.SymStr):
            lit = x._resolve()
            if lit is not None:
                return builtins.float(lit)
            raise ValueError(f"could not convert string to float: {x!r}")
        if isinstance(x, E.SymNum):
            return E.SymNum(E.z3.simplify(E._to_real(x.t)), x.grid)
        if isinstance(x, E.SymBool):
            return to_float(x._num())
        return builtins.float(x)

    def to_int(x, *a):
        x = unwrap(x)
        if isinstance(x, E.IntStr):
            return E.SymNum(x.t)
        if isinstance(x, E.SymStr):
            lit = x._resolve() if not isinstance(x, E.RelStr) else None
            if lit is not None:
                return builtins.int(lit, *a)
            raise ValueError(f"invalid literal for int() with base 10: {x!r}")
        if isinstance(x, E.SymNum):
            return x.__trunc__()
        if isinstance(x, E.SymBool):
            return x._num()
        return builtins.int(x, *a)

    # isinstance(x, float) against the shadow must also hold for type annotations etc.
    Float.__name__ = Float.__qualname__ = "float"
    Int.__name__ = Int.__qualname__ = "int"

    mathmap = {
        "exp": E.sym_exp, "log": E.sym_log, "sqrt": E.sym_sqrt, "tan": E.sym_tan, "sin": E.sym_sin, "cos": E.sym_cos,
        "atan2": E.sym_atan2, "atan": E.sym_atan, "hypot": E.sym_hypot,
        "pow": E.sym_pow,
        "floor": lambda x: x.__floor__() if isinstance(x, E.SymNum) else math.floor(x),
        "ceil": lambda x: x.__ceil__() if isinstance(x, E.SymNum) else math.ceil(x),
        "fabs": lambda x: abs(x) if isinstance(x, E.SymNum) else math.fabs(x),
        "isnan": lambda x: False if isinstance(x, E.SymNum) else math.isnan(x),
        "isinf": lambda x: False if isinstance(x, E.SymNum) else math.isinf(x),
        "isfinite": lambda x: True if isinstance(x, E.SymNum) else math.isfinite(x),
        "degrees": lambda x: x * 180 / math.pi,
        "radians": lambda x: x * math.pi / 180,
        "fsum": lambda xs: sum(xs),
        "dist": lambda p, q: E.sym_hypot(*[a - b for a, b in zip(p, q)]),
        "isclose": lambda a, b, rel_tol=1e-9, abs_tol=0.0: _isclose(E, a, b, rel_tol, abs_tol),
    }

    def guarded(name, f):
        real = getattr(math, name)

        def g(*args, **kw):
            if any(isinstance(a, (E.SymNum, E.SymBool)) for a in args) or \
                    any(hasattr(a, "__iter__") for a in args):
                return f(*args, **kw)
            return real(*args, **kw)
        g.__name__ = name
        return g

    mathsym = {k: guarded(k, f) for k, f in mathmap.items()}
    mathproxy = types.ModuleType("math")
    for k, v in vars(math).items():
        if not k.startswith("__"):
            setattr(mathproxy, k, mathsym.get(k, v))

    def rewrap(r):
        if type(r) is str:
            return E.eng().tokens.get(r, r)
        if isinstance(r, list):
            return [rewrap(x) for x in r]
        if type(r) is tuple:
            return tuple(rewrap(x) for x in r)
        return r

    class MatchProxy:
        def __init__(self, m):
            self._m = m

        def group(self, *a):
            return rewrap(self._m.group(*a))

        def groups(self, *a):
            return rewrap(self._m.groups(*a))

        def __getitem__(self, i):
            return rewrap(self._m[i])

        def __getattr__(self, n):
            return getattr(self._m, n)

    def wrapre(f):
        def g(*args, **kw):
            r = f(*args, **kw)
            if isinstance(r, re.Match):
                return MatchProxy(r)
            return rewrap(r)
        return g

    class PatternProxy:
        def __init__(self, p):
            self._p = p

        def __getattr__(self, n):
            v = getattr(self._p, n)
            return wrapre(v) if callable(v) else v

    reproxy = types.ModuleType("re")
    for k, v in vars(re).items():
        if k.startswith("__"):
            continue
        if k in ("findall", "sub", "subn", "split", "match", "search", "fullmatch"):
            v = wrapre(v)
        elif k == "compile":
            real_compile = v

            def v(*a, **kw):
                return PatternProxy(real_compile(*a, **kw))
        setattr(reproxy, k, v)

    class Members(tuple):
        """A tuple of strings: membership of a symbolic string is one condition, not one for each element."""

        def __contains__(self, x):
            x = unwrap(x)
            if isinstance(x, E.SymStr) and x.lits:
                cs = []
                for y in self:
                    r = x._eqterm(y)
                    if r is True:
                        return True
                    if r is not False and r is not None:
                        cs.append(r)
                return builtins.bool(E._sb(E.z3.Or(*cs))) if cs else False
            return tuple.__contains__(self, x)

    def members(v, deep=2):
        if type(v) is tuple and len(v) > 1 and all(type(x) is str for x in v):
            return Members(v)
        if type(v) is dict and deep and any(type(k) is tuple for k in v):
            return {members(k, 0): members(x, deep - 1) for k, x in v.items()}
        return v

    try:
        import simpy.core
        vars(simpy.core)["float"] = Float  # run(until) may be symbolic
    except ImportError:
        pass
    for mod in pyactr_modules():
        g = vars(mod)
        g["hash"] = E.sym_hash
        for k, v in list(g.items()):
            if not k.startswith("__"):
                g[k] = members(v)
            if isinstance(v, type) and (v.__module__ or "") == mod.__name__:
                for n, w in list(vars(v).items()):
                    if not n.startswith("__") and members(w) is not w:
                        setattr(v, n, members(w))
        for k, v in list(g.items()):
            if k.startswith("__"):
                continue
            if v is math:
                g[k] = mathproxy
            elif v is re:
                g[k] = reproxy
            elif isinstance(v, types.BuiltinFunctionType) and getattr(v, "__module__", None) == "math" and v.__name__ in mathsym:
                g[k] = mathsym[v.__name__]
        g.setdefault("float", Float)
        g.setdefault("int", Int)
        g.setdefault("str", Str)
        # a class whose __hash__ is written in Python: an ideal hash of what it hashes
        for v in list(g.values()):
            if isinstance(v, type) and (v.__module__ or "") == mod.__name__ and "__hash__" in vars(v) and \
                    isinstance(vars(v)["__hash__"], types.FunctionType):
                wrap_hash(E, v)
            if isinstance(v, type) and (v.__module__ or "") == mod.__name__:
                for w in list(vars(v).values()):
                    if isinstance(w, type) and "__hash__" in vars(w) and isinstance(vars(w)["__hash__"], types.FunctionType):
                        wrap_hash(E, w)


def _isclose(E, a, b, rel_tol, abs_tol):
    d = abs(a - b)
    return d <= max(rel_tol * max(abs(a), abs(b)), abs_tol)


def wrap_hash(E, cls):
    orig = vars(cls)["__hash__"]
    if getattr(orig, "_sx", False):
        return

    def __hash__(self):
        r = orig(self)
        return r if isinstance(r, E.HashVal) else E.HashVal(("n", r))
    __hash__._sx = True
    __hash__.__wrapped__ = orig
    cls.__hash__ = __hash__


class Coverage:
    """Which pyactr functions ran (sys.monitoring, one event per function)."""

    def __init__(self):
        self.seen = set()
        m = sys.monitoring
        self.tool = m.COVERAGE_ID
        try:
            m.use_tool_id(self.tool, "sx")
        except ValueError:
            self.tool = None
            return
        root = os.path.realpath(REPO) + os.sep + "pyactr" + os.sep

        def start(code, off):
            fn = code.co_filename
            if fn.startswith(root):
                self.seen.add(f"{os.path.basename(fn)[:-3]}.{code.co_qualname}".replace(".<locals>", ""))
            return m.DISABLE
        m.register_callback(self.tool, m.events.PY_START, start)
        m.set_events(self.tool, m.events.PY_START)
