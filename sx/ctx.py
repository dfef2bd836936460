"""The harness interface, in two modes: symbolic (SymS) and concrete (ConS).

One harness function serves both: the symbolic run explores all paths, the
concrete run replays a counterexample on the real, uninstrumented code."""

import math
from fractions import Fraction

TOL = 1e-6


class PathAbortC(BaseException):
    pass


class CheckFailed(Exception):
    pass


# ------------------------------------------------------------------ concrete

class ConS:
    symbolic = False

    def __init__(self, inputs, params=None):
        self.inputs = inputs
        self.params = params or {}
        self.failed = []
        self.covers = set()
        self.nchecks = 0
        self.used = {}

    def _get(self, name, default):
        v = self.inputs.get(name, default)
        self.used[name] = v
        return v

    def str(self, name, lits=(), only=False, lazy=False):
        d = lits[0] if only and lits else "zz" + name
        return self._get(name, d)

    def int(self, name, lo=None, hi=None):
        v = int(self._get(name, lo if lo is not None else 0))
        self.assume((lo is None or v >= lo) and (hi is None or v <= hi))
        return v

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        v = float(self._get(name, lo if lo is not None else 0))
        self.assume((lo is None or (v > lo if lo_open else v >= lo)) and (hi is None or (v < hi if hi_open else v <= hi)))
        return v

    def time(self, name, lo=0, hi=None, lo_open=False, hi_open=False, exact=False):
        v = round(self.real(name, lo, hi, lo_open, hi_open), 4)
        return v

    def flag(self, name):
        return bool(self._get(name, False))

    bool = flag

    def choice(self, name, options):
        i = int(self._get(name, 0))
        return options[i]

    def assume(self, c):
        if not c:
            raise PathAbortC()

    def check(self, c, label, detail=""):
        self.nchecks += 1
        if not c:
            self.failed.append((label, detail() if callable(detail) else str(detail)))

    def fail(self, label, detail=""):
        self.check(False, label, detail)

    def cover(self, label):
        self.covers.add(label)

    # logic
    def And(self, *a):
        return all(bool(x) for x in a)

    def Or(self, *a):
        return any(bool(x) for x in a)

    def Not(self, a):
        return not a

    def Implies(self, a, b):
        return (not a) or bool(b)

    def Iff(self, a, b):
        return bool(a) == bool(b)

    def If(self, c, a, b):
        return a if c else b

    def eq(self, a, b):
        r = a == b
        return r if r is not NotImplemented else False

    def close(self, a, b, tol=TOL):
        if a is None or b is None:
            return a is b
        return abs(a - b) <= max(tol, 1e-9 * max(abs(a), abs(b))) + 1e-12

    def le(self, a, b, tol=TOL):
        return a <= b + tol

    def known(self, c):
        return bool(c)

    # spec functions
    exp = staticmethod(lambda x: math.exp(x))
    log = staticmethod(lambda x: math.log(x))
    sqrt = staticmethod(lambda x: math.sqrt(x))
    tan = staticmethod(lambda x: math.tan(x))
    pow = staticmethod(lambda a, b: a ** b)
    atan2 = staticmethod(lambda a, b: math.atan2(a, b))
    round = staticmethod(lambda x, n=4: round(x, n))

    def float(self, x):
        return float(x)

    def loose_rounding(self):
        pass

    def intstr(self, n):
        return str(n)

    def relstr(self, sign, n):
        return sign + str(n)

    def atom(self, text):
        return text


# ------------------------------------------------------------------ symbolic

class SymS:
    symbolic = True

    def __init__(self, engine, params=None, prefix=None):
        from . import engine as E
        self.E = E
        self.e = engine
        self.params = params or {}
        self.prefix = prefix or {}
        self.pending = []
        self.on_flush = None
        self.covers = set()
        self.choices = {}

    def _new(self, name, kind, term, extra=None):
        if name in self.e.inputs:
            raise self.E.Unsupported(f"input {name} declared twice")
        self.e.inputs[name] = (kind, term, extra)

    def str(self, name, lits=(), only=False, lazy=False):
        """lazy (only with only=True): the library never looks this value up among literals in sets or dictionaries."""
        E, z3 = self.E, self.E.z3
        t = z3.Int("s_" + name)
        self._new(name, "str", t, tuple(lits))
        dom = [t == self.e.lit_id(l) for l in lits]
        if not only:
            dom.append(t >= E.LIT_LIMIT)
        self.e.axiom(z3.Or(*dom) if len(dom) > 1 else dom[0])
        return E.SymStr(t, tuple(lits), name, lazy and only)

    def _range(self, t, lo, hi, lo_open=False, hi_open=False):
        E = self.E
        cons = []
        isint = E.z3.is_int(t)
        c = (lambda x: E.z3.IntVal(x)) if isint else E.rv
        if lo is not None:
            cons.append(t > c(lo) if lo_open else t >= c(lo))
        if hi is not None:
            cons.append(t < c(hi) if hi_open else t <= c(hi))
        if cons:
            self.e.axiom(E.z3.And(*cons) if len(cons) > 1 else cons[0])

    def int(self, name, lo=None, hi=None):
        t = self.E.z3.Int("i_" + name)
        self._new(name, "int", t)
        self._range(t, lo, hi)
        return self.E.SymNum(t)

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        t = self.E.z3.Real("r_" + name)
        self._new(name, "real", t)
        self._range(t, lo, hi, lo_open, hi_open)
        return self.E.SymNum(t)

    def time(self, name, lo=0, hi=None, lo_open=False, hi_open=False, exact=False):
        """A time on the clock; exact: the solver knows that it is a multiple of 0.0001 (needed where off-clock times are rounded)."""
        if exact:
            t = self.E.z3.simplify(self.E.z3.ToReal(self.E.z3.Int("k_" + name)) / 10000)
        else:
            t = self.E.z3.Real("t_" + name)
        self._new(name, "time", t)
        self._range(t, lo, hi, lo_open, hi_open)
        return self.E.SymNum(t, True)

    def bool(self, name):
        t = self.E.z3.Bool("b_" + name)
        self._new(name, "bool", t)
        return self.E.SymBool(t)

    def flag(self, name):
        if name in self.prefix:
            t = self.E.z3.Bool("b_" + name)
            self._new(name, "bool", t)
            self.assume(self.E.SymBool(t if self.prefix[name] else self.E.z3.Not(t)))
            return bool(self.prefix[name])
        return bool(self.bool(name))

    def choice(self, name, options):
        """A finite choice: every option is explored."""
        z3 = self.E.z3
        t = z3.Int("c_" + name)
        self._new(name, "choice", t)
        n = len(options)
        if n == 1:
            self.e.axiom(t == 0)
            return options[0]
        if name in self.prefix:
            i = self.prefix[name]
            if i >= n:
                raise self.E.PathAbort()
            self.e.axiom(t == i)
            return options[i]
        self.e.axiom(z3.And(t >= 0, t < n))
        for i in range(n - 1):
            if self.e.decide(t == i):
                return options[i]
        return options[n - 1]

    def assume(self, c):
        self.flush()
        self.e.assume(c)

    def check(self, c, label, detail=""):
        self.e.stats["checks"] += 1
        if isinstance(c, self.E.SymBool):
            t = self.E.z3.simplify(c.t)
            if self.E.z3.is_true(t):
                self.e.stats["checks_syntactic"] += 1
                return
        else:
            if c:
                self.e.stats["checks_syntactic"] += 1
                return
            t = self.E.z3.BoolVal(False)
        self.pending.append((t, label, detail))

    def fail(self, label, detail=""):
        self.check(False, label, detail)

    def flush(self):
        if self.pending:
            p, self.pending = self.pending, []
            self.on_flush(p)

    def cover(self, label):
        self.covers.add(label)

    def _t(self, x):
        return self.E.bt(x)

    def _b(self, t):
        return self.E._sb(t)

    def And(self, *a):
        if any(x is False for x in a):
            return False
        return self._b(self.E.z3.And(*[self._t(x) for x in a])) if a else True

    def Or(self, *a):
        if any(x is True for x in a):
            return True
        return self._b(self.E.z3.Or(*[self._t(x) for x in a])) if a else False

    def Not(self, a):
        return self._b(self.E.z3.Not(self._t(a)))

    def Implies(self, a, b):
        return self._b(self.E.z3.Implies(self._t(a), self._t(b)))

    def Iff(self, a, b):
        return self._b(self._t(a) == self._t(b))

    def If(self, c, a, b):
        E = self.E
        if not isinstance(c, E.SymBool):
            return a if c else b
        a, b = E.lift(a), E.lift(b)
        ta, tb = a.t, b.t
        if E.z3.is_int(ta) != E.z3.is_int(tb):
            ta, tb = E._to_real(ta), E._to_real(tb)
        return E.SymNum(E.z3.If(c.t, ta, tb), a.grid and b.grid)

    def eq(self, a, b):
        r = a == b
        return r if isinstance(r, self.E.SymBool) else bool(r)

    def close(self, a, b, tol=TOL):
        if a is None or b is None:
            return a is b
        E = self.E
        a2, b2 = E.lift(a), E.lift(b)
        if a2 is None or b2 is None:
            return a == b
        d = E.expand(E._to_real(a2.t) - E._to_real(b2.t))
        c = E._const(d)
        if c is not None:
            return abs(c) <= Fraction(repr(tol))
        tl = E.rv(tol)
        return E.SymBool(E.z3.And(d <= tl, d >= -tl))

    def le(self, a, b, tol=TOL):
        r = a <= b + tol
        return r

    def known(self, c):
        """Whether c holds on this path (forks if it is open)."""
        return bool(c)

    def exp(self, x):
        return self.E.sym_exp(x)

    def log(self, x):
        return self.E.sym_log(x)

    def sqrt(self, x):
        return self.E.sym_sqrt(x)

    def tan(self, x):
        return self.E.sym_tan(x)

    def pow(self, a, b):
        return self.E.sym_pow(a, b)

    def atan2(self, a, b):
        return self.E.sym_atan2(a, b)

    def round(self, x, n=4):
        x = self.E.lift(x)
        return round(x, n)

    def loose_rounding(self):
        """Rounding may give any number within the rounding error (sound for proofs; counterexamples are replayed)."""
        self.e.loose_round = True

    def float(self, x):
        E = self.E
        if isinstance(x, E.IntStr):
            return E.SymNum(E.z3.ToReal(x.t), True)
        return float(x) if type(x) is str else x

    def intstr(self, n):
        if isinstance(n, self.E.SymNum):
            return self.E.IntStr(n.t)
        return str(n)

    def relstr(self, sign, n):
        if isinstance(n, self.E.SymNum):
            return self.E.RelStr(sign, n)
        return sign + str(n)

    def atom(self, text):
        """The value that a text stands for (texts of events hold placeholders)."""
        return self.e.tokens.get(str.__str__(text), text)
