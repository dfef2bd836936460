"""
A symbolic executor for the real pyactr code.

The Python functions of /repo run unmodified in CPython; their inputs are proxy
objects that carry z3 terms.  Whenever the code asks for the truth value of a
symbolic condition, the engine asks z3 which outcomes are possible under the
path condition and explores all of them (depth-first, by re-execution).  At
each property assertion z3 decides  path-condition AND NOT property : unsat
means the assertion holds for every value on that path, sat gives a concrete
counterexample.
"""

import builtins
import hashlib
import math
import sys
import time as _time
import warnings
from fractions import Fraction

import z3

z3.set_param("smt.random_seed", 1)

_float = builtins.float
_int = builtins.int
_hash = builtins.hash
_str = builtins.str

LIT_LIMIT = 1000000          # literal ids are below this, free atoms at or above
GRID = 10000                 # simulation times are rounded to 1/GRID s


class PathAbort(BaseException):
    """The current path violates an assumption (or is infeasible)."""


class Unsupported(Exception):
    """The engine cannot carry a symbolic value through this operation."""


class EngineLimit(BaseException):
    """The path is too long."""


class NonDeterministic(BaseException):
    """A re-execution of the same prefix took another turn."""


# ---------------------------------------------------------------- engine state

NONLINEAR_TIMEOUT = 100   # ms; a branch whose condition stays undecided is explored


class Engine:
    cur = None

    def __init__(self, feas_timeout=2000, check_timeout=20000, max_decisions=6000):
        self.feas_timeout = feas_timeout
        self.check_timeout = check_timeout
        self.max_decisions = max_decisions
        self.loose_round = False  # round to some number nearby (an over-approximation that keeps the solver off the integers)
        self.solver = z3.Solver()
        self.solver.set("timeout", feas_timeout)
        self.trail = []          # entries: [kind, value, alternative pending, term]
        self.pos = 0
        self.stats = dict(paths=0, aborted=0, decisions=0, forced=0, feas_queries=0,
                          check_queries=0, solver_s=0.0, unknown_feas=0, unknown_check=0,
                          concretizations=0, checks=0, checks_syntactic=0)
        self.lits = {}
        self.lit_names = []
        self.over = False
        self.reset_path()

    # -- literals ---------------------------------------------------------
    def lit_id(self, s):
        s = _str.__str__(s)
        if s not in self.lits:
            self.lits[s] = len(self.lits) + 1
            self.lit_names.append(s)
        return self.lits[s]

    # -- per path ---------------------------------------------------------
    def reset_path(self):
        self.pos = 0
        self.known = {}
        self.inputs = {}          # name -> (kind, term, extra)
        self.fresh = 0
        self.loose_round = False
        self.rounded = {}         # name of a rounded number -> (it, what it rounds, the whole that was split off)
        self.uf_apps = {}         # fname -> list of (args, result term)
        self.path_terms = []
        self.covers = set()
        self.path_concretized = 0
        self.tokens = {}

    def query(self, *extra):
        t = _time.time()
        r = self.solver.check(*extra)
        self.stats["solver_s"] += _time.time() - t
        self.stats["feas_queries"] += 1
        return r

    def _replayed(self, kinds, term):
        """The trail entry at this point of a re-execution, or None."""
        if self.over:       # something left behind by a path (a generator that is closed) runs on
            raise PathAbort()
        if self.pos >= len(self.trail):
            return None
        ent = self.trail[self.pos]
        if ent[0] not in kinds or (term is not None and not ent[3].eq(term)):
            raise NonDeterministic(f"re-execution differs: {ent} / {kinds} {term}")
        self.pos += 1
        return ent

    def _push(self, kind, val, alt, term, asserted):
        self.solver.push()
        self.solver.add(asserted)
        self.trail.append([kind, val, alt, term])
        self.pos += 1

    def bump(self):
        self.fresh += 1
        return self.fresh

    def axiom(self, term):
        """A fact about the values at hand (the definition of a stub)."""
        if self._replayed(("assert",), term) is None:
            self._push("assert", True, False, term, term)
        self.path_terms.append(term)

    def assume(self, cond):
        if isinstance(cond, SymBool):
            term = z3.simplify(cond.t)
            if z3.is_true(term):
                return
            if z3.is_false(term):
                raise PathAbort()
            k = self.known.get(term.get_id())
            if k is not None:
                if k[1]:
                    return
                raise PathAbort()
            ent = self._replayed(("assert",), term)
            if ent is None:
                self._push("assert", True, False, term, term)
                self.path_terms.append(term)
                r = self.linear(z3.BoolVal(False), (True,), 300)
                self.path_terms.pop()
                r = z3.unsat if r else self.query()
                self.solver.set("timeout", self.feas_timeout)
                if r == z3.unsat:
                    raise PathAbort()
            self.path_terms.append(term)
            self._learn(term, True)
        elif not cond:
            raise PathAbort()

    def _learn(self, term, value):
        self.known[term.get_id()] = (term, value)
        if z3.is_not(term):
            c = term.children()[0]
            if c.get_id() not in self.known:
                self._learn(c, not value)
        elif value and z3.is_and(term):
            for c in term.children():
                self._learn(c, True)
        elif not value and z3.is_or(term):
            for c in term.children():
                self._learn(c, False)

    def decide(self, term):
        term = z3.simplify(term)
        if z3.is_true(term):
            return True
        if z3.is_false(term):
            return False
        k = self.known.get(term.get_id())
        if k is not None:
            return k[1]
        ent = self._replayed(("dec", "forced"), term)
        if ent is not None:
            val = ent[1]
            kind = ent[0]
        else:
            if len(self.trail) > self.max_decisions:
                raise EngineLimit()
            easy = self.linear(term, timeout=300)
            rt = z3.unsat if easy is False else self.query(term)
            kind = "forced"
            if rt == z3.unsat:
                val = False
            else:
                rf = z3.unsat if easy is True else self.query(z3.Not(term))
                if rf == z3.unsat:
                    val = True
                else:
                    if rt == z3.unknown or rf == z3.unknown:
                        self.stats["unknown_feas"] += 1
                    val = True
                    kind = "dec"
            self.solver.set("timeout", self.feas_timeout)
            if kind == "forced":
                self.stats["forced"] += 1
                self.trail.append(["forced", val, False, term])
                self.pos += 1
            else:
                self.stats["decisions"] += 1
                self._push("dec", True, True, term, term)
        self._learn(term, val)
        if kind == "dec":
            self.path_terms.append(term if val else z3.Not(term))
        return val

    decide_entry = decide

    def backtrack(self):
        """Prepare the next path; False when the tree is exhausted."""
        while self.trail:
            kind, val, alt, term = self.trail[-1]
            if kind in ("dec", "assert"):
                self.solver.pop()
            self.trail.pop()
            if kind == "dec" and alt:
                self.solver.push()
                self.solver.add(z3.Not(term))
                self.trail.append(["dec", False, False, term])
                return True
        return False

    def run_path(self, fn):
        """Run fn once along the current prefix."""
        self.reset_path()
        Engine.cur = self
        self.over = False
        try:
            return fn()
        finally:
            self.over = True

    # -- final queries ------------------------------------------------------
    def prove(self, term, timeout=None):
        """Is term implied by the path condition? -> ('unsat'|'sat'|'unknown', model)"""
        self.stats["check_queries"] += 1
        t = _time.time()
        timeout = timeout or self.check_timeout
        if self.linear(term, (True,)):
            self.solver.set("timeout", self.feas_timeout)
            self.stats["solver_s"] += _time.time() - t
            return "unsat", None
        self.solver.set("timeout", min(timeout, 6000))
        try:
            r = self.solver.check(z3.Not(term))
            m = self.solver.model() if r == z3.sat else None
        finally:
            self.solver.set("timeout", self.feas_timeout)
        if r == z3.unknown:
            for mk in (z3.Solver, lambda: z3.SolverFor("QF_UFNRA"), lambda: z3.Then("simplify", "purify-arith", "propagate-values", "solve-eqs", "smt").solver()):
                s = mk()
                s.set("timeout", timeout)
                for p in self.path_terms:
                    s.add(p)
                s.add(z3.Not(term))
                try:
                    r = s.check()
                except z3.Z3Exception:
                    continue
                if r != z3.unknown:
                    m = s.model() if r == z3.sat else None
                    break
        self.stats["solver_s"] += _time.time() - t
        return _str(r), m

    def linear(self, term, sides=(True, False), timeout=1000):
        """The value that the term must have when products of unknowns are read as any numbers, or
        None.  This is a weaker reading of the path condition, so what it implies holds."""
        if not _nonlinear(term) and not any(map(_nonlinear, self.path_terms)):
            return None
        t = _time.time()
        s = z3.Solver()
        s.set("timeout", timeout)
        out = None
        for facts in (False, True):
            ps, t1 = [_linear(p) for p in self.path_terms], _linear(term)
            if facts:
                if not any("nl/" in x.sexpr() for x in ps + [t1]):
                    break
                ps, t1 = [_lin(p) for p in self.path_terms], _lin(term)
                ps += _facts(ps + [t1])
            s.add(*ps)
            for v in sides:
                if out is None and s.check(z3.Not(t1) if v else t1) == z3.unsat:
                    out = v
            if out is not None:
                break
        self.stats["solver_s"] += _time.time() - t
        self.solver.set("timeout", NONLINEAR_TIMEOUT)
        return out

    def any_model(self, *extra):
        r = self.query(*extra)
        return self.solver.model() if r == z3.sat else None

    # -- concretisation at a C boundary -------------------------------------
    def concretize(self, symnum):
        """The code handed a symbolic number to something outside Python."""
        t = z3.simplify(symnum.t)
        c = _const(t)
        if c is not None:
            return c
        self.stats["concretizations"] += 1
        self.path_concretized += 1
        ent = None
        if self.pos < len(self.trail):
            ent = self._replayed(("assert",), None)
            val = ent[1]
        else:
            m = self.any_model()
            if m is None:
                raise PathAbort()
            val = value_of(m.eval(t, model_completion=True))
            eq = t == (z3.IntVal(_int(val)) if z3.is_int(t) else rv(val))
            self._push("assert", val, False, eq, eq)
        self.path_terms.append(t == (z3.IntVal(_int(val)) if z3.is_int(t) else rv(val)))
        return val


_EXPAND = {}


def _opaque(t, found):
    """The outermost applications of uninterpreted functions in a term."""
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen or not z3.is_app(x) or x.num_args() == 0:
            continue
        seen.add(x.get_id())
        if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            found[x.get_id()] = x
        else:
            todo += x.children()


def expand(t):
    """The term as a sum of products; the arguments of exp, sqrt, ... stay as they are."""
    hit = _EXPAND.get(t.get_id())
    if hit is None:
        found = {}
        _opaque(t, found)
        subs = [(x, z3.Const(f"op!{i}", x.sort())) for i, x in found.items()]
        r = z3.simplify(z3.substitute(t, *subs) if subs else t, som=True, flat=True)
        hit = _EXPAND[t.get_id()] = (t, z3.substitute(r, *[(b, a) for a, b in subs]) if subs else r)
    return hit[1]


def _facts(terms):
    """What holds of the unknowns that stand for products and quotients in the linear readings of
    the terms: signs, bounds, and the expansion of the product."""
    out, seen, todo = [], set(), list(terms)
    visited = set()
    while todo:
        t = todo.pop()
        if t.get_id() in visited:
            continue
        visited.add(t.get_id())
        if not z3.is_app(t):
            continue
        if t.num_args() == 0:
            name = t.decl().name()
            if name in _NLBY and name not in seen:
                seen.add(name)
                fs = _fact(name)
                out += fs
                todo += fs
            continue
        todo += t.children()
    return out


_LINEAR = {}   # id of a term -> (the term, its linear reading)


def _linear(t):
    """The term with the products of unknowns in it replaced by unknowns, one for every monomial."""
    hit = _LINEAR.get(t.get_id())
    if hit is None:
        r = _lin(t)
        if not r.eq(t):
            r = _lin(expand(t))
        hit = _LINEAR[t.get_id()] = (t, r)
    return hit[1]


_FACT = {}


def _fact(name):
    if name in _FACT:
        return _FACT[name]
    m, kind, args = _NLBY[name]
    ls = [_lin(a) for a in args]
    out = []
    if kind == z3.Z3_OP_MUL:
        pos, nonneg = z3.And(*[l > 0 for l in ls]), z3.And(*[l >= 0 for l in ls])
        out += [z3.Implies(nonneg, m >= 0), z3.Implies(pos, m > 0)]
        if len(ls) == 2:
            x, y = ls
            if args[0].eq(args[1]):
                out += [m >= 0, (m == 0) == (x == 0)]
            else:
                out += [z3.Implies(z3.And(x <= 0, y >= 0), m <= 0), z3.Implies(z3.And(x >= 0, y <= 0), m <= 0), z3.Implies(z3.And(x <= 0, y <= 0), m >= 0), z3.Or(x == 0, y == 0) == (m == 0),
                        z3.Implies(z3.And(x <= 1, y >= 0), m <= y), z3.Implies(z3.And(x >= 1, y >= 0), m >= y), z3.Implies(z3.And(y <= 1, x >= 0), m <= x), z3.Implies(z3.And(y >= 1, x >= 0), m >= x)]
        e = expand(z3.Product(list(args)))
        le = _lin(e)
        if not le.eq(m):
            out.append(m == le)
    elif kind == z3.Z3_OP_DIV:
        x, y = ls
        out.append(z3.Implies(y > 0, z3.And((m > 0) == (x > 0), (m < 0) == (x < 0), (m < 1) == (x < y), (m <= 1) == (x <= y))))
    _FACT[name] = out
    return out


_LIN = {}
_NL = {}
_NLBY = {}


def _lin(t):
    hit = _LIN.get(t.get_id())
    if hit is not None:
        return hit[1]
    kind = t.decl().kind() if z3.is_app(t) else None
    if not z3.is_app(t) or t.num_args() == 0:
        r = t
    elif kind == z3.Z3_OP_MUL and sum(_const(a) is None for a in t.children()) > 1:
        c = z3.simplify(_product([a for a in t.children() if _const(a) is not None], t.sort()))
        xs = [a for a in t.children() if _const(a) is None]
        whole = all(z3.is_to_real(a) for a in xs)  # one unknown for a product, read as an integer or as a real
        xs = sorted((a.arg(0) for a in xs) if whole else xs, key=lambda a: a.get_id())
        m = _monomial(kind, xs, z3.IntSort() if whole else t.sort())
        r = c * (z3.ToReal(m) if whole else m)
    elif kind == z3.Z3_OP_POWER or kind in (z3.Z3_OP_DIV, z3.Z3_OP_MOD, z3.Z3_OP_IDIV) and _const(t.arg(1)) is None:
        r = _monomial(kind, t.children(), t.sort())
    else:
        args = [_lin(a) for a in t.children()]
        r = _app(t, args) if any(not a.eq(b) for a, b in zip(args, t.children())) else t
    _LIN[t.get_id()] = (t, r)
    return r


def _app(t, args):
    kind = t.decl().kind()
    if kind == z3.Z3_OP_ADD:
        return z3.Sum(args)
    if kind == z3.Z3_OP_AND:
        return z3.And(*args)
    if kind == z3.Z3_OP_OR:
        return z3.Or(*args)
    if kind == z3.Z3_OP_MUL:
        return z3.Product(args)
    if kind == z3.Z3_OP_DISTINCT:
        return z3.Distinct(*args)
    return t.decl()(*args)


def _product(ts, sort):
    one = z3.IntVal(1) if sort == z3.IntSort() else z3.RealVal(1)
    return z3.Product(ts) if len(ts) > 1 else ts[0] if ts else one


def _monomial(kind, args, sort):
    key = (kind, tuple(a.get_id() for a in args))
    if key not in _NL:
        name = f"nl{'/' if kind == z3.Z3_OP_DIV else '*'}{len(_NL)}"
        _NL[key] = (z3.Const(name, sort), args)
        _NLBY[name] = (_NL[key][0], kind, args)
    return _NL[key][0]


def _nonlinear(t):
    return not _lin(t).eq(t)


def eng():
    return Engine.cur


def value_of(v):
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    raise Unsupported(f"no numeric value for {v}")


def rv(x):
    """z3 real constant for a Python number (floats: their shortest decimal)."""
    if isinstance(x, bool):
        return z3.RealVal(_int(x))
    if isinstance(x, _int):
        return z3.RealVal(x)
    if isinstance(x, Fraction):
        return z3.Q(x.numerator, x.denominator)
    f = Fraction(repr(_float(x)))
    return z3.Q(f.numerator, f.denominator)


# ---------------------------------------------------------------- booleans

class SymBool:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return eng().decide_entry(self.t)

    def __and__(self, o):
        return SymBool(z3.And(self.t, bt(o)))
    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self.t, bt(o)))
    __ror__ = __or__

    def __xor__(self, o):
        return SymBool(z3.Xor(self.t, bt(o)))
    __rxor__ = __xor__

    def __invert__(self):
        return SymBool(z3.Not(self.t))

    def __eq__(self, o):
        if isinstance(o, (SymBool, bool)):
            return SymBool(self.t == bt(o))
        if isinstance(o, _int):
            return SymNum(z3.If(self.t, z3.IntVal(1), z3.IntVal(0))) == o
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SymBool) else not r

    def __hash__(self):
        return _hash(bool(self))

    def _num(self):
        return SymNum(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o):
        return self._num() + o
    __radd__ = __add__

    def __mul__(self, o):
        return self._num() * o
    __rmul__ = __mul__

    def __repr__(self):
        return "<sym bool>"


def bt(x):
    if isinstance(x, SymBool):
        return x.t
    return z3.BoolVal(bool(x))


# ---------------------------------------------------------------- numbers

def _is_num(x):
    return isinstance(x, (_int, _float, Fraction)) or type(x).__module__ == "numpy" and hasattr(x, "dtype") and getattr(x, "ndim", 1) == 0


def lift(x):
    """Python/numpy number or SymNum -> SymNum, or None."""
    if isinstance(x, SymNum):
        return x
    if isinstance(x, SymBool):
        return x._num()
    if isinstance(x, bool):
        return SymNum(z3.IntVal(_int(x)), True)
    if isinstance(x, _int):
        return SymNum(z3.IntVal(x), True)
    if isinstance(x, (_float, Fraction)):
        if isinstance(x, _float) and (math.isinf(x) or math.isnan(x)):
            return None
        f = x if isinstance(x, Fraction) else Fraction(repr(_float(x)))
        return SymNum(z3.Q(f.numerator, f.denominator), (f * GRID).denominator == 1)
    if _is_num(x):
        try:
            y = x.item()
        except Exception:
            return None
        if isinstance(y, SymNum):
            return y
        return lift(y)
    return None


def _to_real(t):
    return z3.ToReal(t) if z3.is_int(t) else t


class SymNum:
    """A symbolic int (z3 Int) or float (z3 Real, floats read as reals)."""
    __slots__ = ("t", "grid")

    def __init__(self, t, grid=False):
        self.t = t
        self.grid = grid or z3.is_int(t)

    # arithmetic
    def _bin(self, o, f, grid):
        o2 = lift(o)
        if o2 is None:
            return NotImplemented
        a, b = self.t, o2.t
        if z3.is_int(a) != z3.is_int(b):
            a, b = _to_real(a), _to_real(b)
        return SymNum(z3.simplify(f(a, b)), grid and self.grid and o2.grid)

    def __add__(self, o):
        if isinstance(o, _float) and (math.isinf(o) or math.isnan(o)):
            return o
        return self._bin(o, lambda a, b: a + b, True)

    def __radd__(self, o):
        if isinstance(o, _float) and (math.isinf(o) or math.isnan(o)):
            return o
        return self._bin(o, lambda a, b: b + a, True)

    def __sub__(self, o):
        if isinstance(o, _float) and (math.isinf(o) or math.isnan(o)):
            return -o
        return self._bin(o, lambda a, b: a - b, True)

    def __rsub__(self, o):
        if isinstance(o, _float) and (math.isinf(o) or math.isnan(o)):
            return o
        return self._bin(o, lambda a, b: b - a, True)

    def _mulgrid(self, o):
        o2 = lift(o)
        return o2 is not None and (z3.is_int(self.t) and o2.grid or z3.is_int(o2.t) and self.grid)

    def __mul__(self, o):
        if isinstance(o, _float) and (math.isinf(o) or math.isnan(o)):
            raise Unsupported("symbolic * inf")
        r = self._bin(o, lambda a, b: a * b, False)
        if isinstance(r, SymNum) and self._mulgrid(o):
            r.grid = True
        return r

    def __rmul__(self, o):
        return self.__mul__(o)

    def __truediv__(self, o):
        o2 = lift(o)
        if o2 is None:
            if isinstance(o, _float) and math.isinf(o):
                return 0.0
            return NotImplemented
        if o2 == 0:
            raise ZeroDivisionError("float division by zero")
        return SymNum(z3.simplify(_to_real(self.t) / _to_real(o2.t)))

    def __rtruediv__(self, o):
        o2 = lift(o)
        if o2 is None:
            return NotImplemented
        return o2 / self

    def __floordiv__(self, o):
        o2 = lift(o)
        if o2 is None:
            return NotImplemented
        if o2 == 0:
            raise ZeroDivisionError("division by zero")
        q = _to_real(self.t) / _to_real(o2.t)
        r = z3.ToInt(q)
        if z3.is_int(self.t) and z3.is_int(o2.t):
            return SymNum(r)
        return SymNum(z3.ToReal(r), True)

    def __rfloordiv__(self, o):
        o2 = lift(o)
        return NotImplemented if o2 is None else o2 // self

    def __mod__(self, o):
        o2 = lift(o)
        if o2 is None:
            return NotImplemented
        return self - o2 * (self // o2)

    def __rmod__(self, o):
        o2 = lift(o)
        return NotImplemented if o2 is None else o2 % self

    def __neg__(self):
        return SymNum(z3.simplify(-self.t), self.grid)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymNum(z3.If(self.t >= 0, self.t, -self.t), self.grid)

    def __pow__(self, o, mod=None):
        return sym_pow(self, o)

    def __rpow__(self, o):
        o2 = lift(o)
        return NotImplemented if o2 is None else sym_pow(o2, self)

    # comparisons
    def _cmp(self, o, f, py):
        if isinstance(o, _float) and (math.isinf(o) or math.isnan(o)):
            return py(0.0, o)
        o2 = lift(o)
        if o2 is None:
            return NotImplemented
        a, b = self.t, o2.t
        ra, rb = _radicand(a), _radicand(b)
        if ra is not None and rb is not None:  # square roots are ordered as what they are roots of
            a, b = ra, rb
        elif ra is not None and _const(b) is not None and _const(b) >= 0:
            a, b = ra, rv(_const(b) * _const(b))
        elif rb is not None and _const(a) is not None and _const(a) >= 0:
            a, b = rv(_const(a) * _const(a)), rb
        if z3.is_int(a) != z3.is_int(b):
            a, b = _to_real(a), _to_real(b)
        if eng().rounded:
            _compared(a, b)
        return _sb(f(a, b))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b, lambda a, b: False)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b, lambda a, b: True)
        return True if r is NotImplemented else r

    def __bool__(self):
        return eng().decide_entry(self.t != 0)

    def __hash__(self):
        return 0x4E554D

    # conversions
    def __round__(self, n=None):
        if n is None:
            return _round_int(self)
        if z3.is_int(self.t):
            return self
        n = _int(n)
        if self.grid and n >= 4:
            return self
        if _const(self.t) is not None:
            v = _const(self.t)
            return lift(round(v, n))
        if eng().loose_round:
            r = z3.Real(f"rnd!{eng().bump()}")
            half = z3.Q(1, 2 * 10 ** n)
            eng().axiom(z3.And(r - self.t <= half, r - self.t >= -half))
            return SymNum(r, n <= 4)
        scale = 10 ** n if n >= 0 else Fraction(1, 10 ** -n)
        k = _round_int(SymNum(z3.simplify(self.t * rv(Fraction(scale)))))
        return SymNum(z3.simplify(z3.ToReal(k.t) / rv(Fraction(scale))), n <= 4)

    def __floor__(self):
        return self if z3.is_int(self.t) else SymNum(z3.ToInt(self.t))

    def __ceil__(self):
        return self if z3.is_int(self.t) else SymNum(-z3.ToInt(-self.t))

    def __trunc__(self):
        if z3.is_int(self.t):
            return self
        return SymNum(z3.simplify(z3.If(self.t >= 0, z3.ToInt(self.t), -z3.ToInt(-self.t))))

    def __float__(self):
        return _float(eng().concretize(self))

    def __int__(self):
        return _int(eng().concretize(self))

    def __index__(self):
        if not z3.is_int(self.t):
            raise TypeError("'float' object cannot be interpreted as an integer")
        return _int(eng().concretize(self))

    def is_integer(self):
        return True if z3.is_int(self.t) else _sb(z3.IsInt(self.t))

    def item(self):
        return self

    @property
    def real(self):
        return self

    def conjugate(self):
        return self

    # numpy's object ufuncs call these
    def exp(self):
        return sym_exp(self)

    def log(self):
        return sym_log(self)

    def sqrt(self):
        return sym_sqrt(self)

    def tan(self):
        return sym_tan(self)

    def rint(self):
        return _round_int(self)

    def __repr__(self):
        return f"<num {z3.simplify(self.t)}>"

    def __str__(self):
        if z3.is_int(self.t):
            return IntStr(self.t)
        return f"<num {_hash_short(self.t)}>"

    def __format__(self, spec):
        return f"<num {_hash_short(self.t)}>"

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def _hash_short(t):
    return hashlib.md5(_str(t).encode()).hexdigest()[:8]


def _const(t):
    t = z3.simplify(t)
    if z3.is_int_value(t) or z3.is_rational_value(t):
        return value_of(t)
    return None


def _sb(t):
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def _round_int(x):
    """round-half-even(x) as a fresh int constrained around x."""
    c = _const(x.t)
    if c is not None:
        return lift(round(c))
    e = eng()
    key = ("round", x.t.get_id())
    for k, r, _keep in e.uf_apps.setdefault("round", []):
        if k == key:
            return SymNum(r)
    whole, rest = _split_whole(expand(_to_real(x.t)))
    if rest is None:
        return SymNum(whole)
    near = fresh_int("rnd")
    k = near if whole is None else whole + near
    d = rest - z3.ToReal(near)
    e.axiom(z3.And(d <= z3.Q(1, 2), d >= z3.Q(-1, 2),
                   z3.Implies(z3.Or(d == z3.Q(1, 2), d == z3.Q(-1, 2)), k % 2 == 0)))
    e.uf_apps["round"].append((key, k, x.t))
    e.rounded[near.decl().name()] = (near, rest, z3.IntVal(0) if whole is None else whole)
    return SymNum(k)


def _compared(a, b):
    """Two numbers are compared.  If they are rounded, they are ordered as what they round is."""
    d = expand(_to_real(a) - _to_real(b))
    found = {}
    for x in d.children() if z3.is_add(d) else [d]:
        c, u = (x.arg(0), x.arg(1)) if z3.is_mul(x) and x.num_args() == 2 and _const(x.arg(0)) is not None else (z3.RealVal(1), x)
        u = u.arg(0) if z3.is_to_real(u) else u
        if z3.is_const(u) and u.decl().name() in eng().rounded:
            if u.decl().name() in found:
                return
            found[u.decl().name()] = _const(c)
    if len(found) != 2 or sum(found.values()) != 0:
        return
    (n1, c), (n2, _) = sorted(found.items(), key=lambda x: -x[1])
    key = ("compared", d.get_id())
    if key in eng().uf_apps:
        return
    eng().uf_apps[key] = d
    (n1, r1, w1), (n2, r2, w2) = eng().rounded[n1], eng().rounded[n2]
    shift = z3.simplify((d / rv(c)) - z3.ToReal(n1) + z3.ToReal(n2), som=True)     # n1 - n2 + shift is compared with 0
    D = d
    R = r1 - r2 + shift
    eng().axiom(z3.And(z3.Implies(R < 0, D <= 0), z3.Implies(R > 0, D >= 0)))
    w = _const(z3.simplify(z3.ToReal(w1) - z3.ToReal(w2) - shift, som=True))
    if w is not None and w.denominator == 1 and w.numerator % 2 == 0:
        eng().axiom(z3.Implies(R == 0, D == 0))


def _split_whole(t):
    """t = a whole part (an integer term or None) + the rest (a real term or None)."""
    whole, rest = [], []
    for a in (t.children() if z3.is_add(t) else [t]):
        if z3.is_to_real(a):
            whole.append(a.arg(0))
            continue
        if z3.is_rational_value(a) and a.denominator_as_long() == 1:
            whole.append(z3.IntVal(a.numerator_as_long()))
            continue
        if z3.is_mul(a) and a.num_args() == 2 and z3.is_rational_value(a.arg(0)) and a.arg(0).denominator_as_long() == 1 and z3.is_to_real(a.arg(1)):
            whole.append(z3.IntVal(a.arg(0).numerator_as_long()) * a.arg(1).arg(0))
            continue
        rest.append(a)
    return (z3.Sum(whole) if len(whole) > 1 else whole[0] if whole else None, z3.Sum(rest) if len(rest) > 1 else rest[0] if rest else None)


def fresh_int(base):
    e = eng()
    e.bump()
    return z3.Int(f"{base}!{e.fresh}")


# ---------------------------------------------------------------- transcendental stubs

_EXP = z3.Function("exp", z3.RealSort(), z3.RealSort())
_LOG = z3.Function("log", z3.RealSort(), z3.RealSort())
_SQRT = z3.Function("sqrt", z3.RealSort(), z3.RealSort())
_TAN = z3.Function("tan", z3.RealSort(), z3.RealSort())
_SIN = z3.Function("sin", z3.RealSort(), z3.RealSort())
_COS = z3.Function("cos", z3.RealSort(), z3.RealSort())
_ATAN2 = z3.Function("atan2", z3.RealSort(), z3.RealSort(), z3.RealSort())
_POW = z3.Function("pow", z3.RealSort(), z3.RealSort(), z3.RealSort())

REAL_FUNCS = {"exp": math.exp, "log": math.log, "sqrt": math.sqrt, "tan": math.tan,
              "sin": math.sin, "cos": math.cos, "atan2": math.atan2, "pow": lambda a, b: a ** b}


def _uf(name, f, args, axioms):
    """Apply an uninterpreted function and instantiate its axioms once."""
    e = eng()
    args = [z3.simplify(_to_real(a)) for a in args]
    apps = e.uf_apps.setdefault(name, [])
    for a2, r2 in apps:
        if all(x.eq(y) for x, y in zip(args, a2)):
            return SymNum(r2)
    r = f(*args)
    apps.append((args, r))
    for ax in axioms(args, r, apps[:-1]):
        e.axiom(ax)
    return SymNum(r)


def _as_real(x):
    x = lift(x)
    if x is None:
        raise TypeError("must be real number")
    return x


def sym_exp(x):
    if isinstance(x, _float) and not isinstance(x, SymNum):
        return math_exp(x)
    x = _as_real(x)
    c = _const(x.t)
    if c is not None:
        if c == 0:
            return SymNum(z3.RealVal(1))
        return lift(math_exp(_float(c)))

    def ax(args, r, prev):
        (a,) = args
        out = [r > 0, z3.Implies(a == 0, r == 1), z3.Implies(a > 0, r > 1), z3.Implies(a < 0, r < 1), z3.Implies(a < z3.Q(1, 10), r < z3.Q(9, 8))]
        if z3.is_app(a) and a.decl().name() == "log" and a.num_args() == 1:
            out.append(r == a.children()[0])
        for (b,), rb in prev:
            out.append(z3.And((a < b) == (r < rb), (a == b) == (r == rb)))
            if z3.is_rational_value(z3.simplify(a + b)) and value_of(z3.simplify(a + b)) == 0:
                out.append(r * rb == 1)
        for (b,), lb in eng().uf_apps.get("log", []):
            out.append(z3.Implies(z3.And(b > 0, lb == a), r == b))
        return out
    return _uf("exp", _EXP, [x.t], ax)


def sym_log(x, base=None):
    if base is not None:
        return sym_log(x) / sym_log(base)
    x = _as_real(x)
    c = _const(x.t)
    if c is not None:
        if c <= 0:
            raise ValueError("expected a positive input")
        if c == 1:
            return SymNum(z3.RealVal(0))
        return lift(math_log(_float(c)))
    if x <= 0:
        raise ValueError("expected a positive input")

    def ax(args, r, prev):
        (a,) = args
        out = [z3.Implies(a == 1, r == 0), z3.Implies(a > 1, r > 0), z3.Implies(z3.And(a > 0, a < 1), r < 0)]
        if z3.is_app(a) and a.decl().name() == "exp" and a.num_args() == 1:
            out.append(r == a.children()[0])
        if z3.is_app(a) and a.decl().name() == "pow" and a.num_args() == 2:
            b, y = a.children()
            lb = sym_log(SymNum(b))
            out.append(r == y * lb.t)
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_DIV:
            n, d = a.children()
            if (_sb(n > 0) is True or eng().decide_entry(n > 0)) and eng().decide_entry(d > 0):
                out.append(r == sym_log(SymNum(n)).t - sym_log(SymNum(d)).t)
        for (b,), rb in prev:
            out.append(z3.Implies(z3.And(a > 0, b > 0), z3.And((a < b) == (r < rb), (a == b) == (r == rb))))
        for (b,), eb in eng().uf_apps.get("exp", []):
            out.append(z3.Implies(eb == a, r == b))
        return out
    return _uf("log", _LOG, [x.t], ax)


def _radicand(t):
    """The a of a term sqrt(a), as an integer term where it is one."""
    if z3.is_app(t) and t.decl().name() == "sqrt" and t.num_args() == 1:
        a = t.arg(0)
        return a.arg(0) if z3.is_to_real(a) else a
    return None


def _squares(t):
    """The term is a sum of squares and positive numbers, so it is not negative."""
    if z3.is_to_real(t):
        return _squares(t.arg(0))
    c = _const(t)
    if c is not None:
        return c >= 0
    if z3.is_add(t):
        return all(_squares(a) for a in t.children())
    if z3.is_mul(t):
        seen, rest = [], list(t.children())
        while rest:
            a = rest.pop()
            if _const(a) is not None and _const(a) >= 0:
                continue
            for i, b in enumerate(rest):
                if a.eq(b):
                    del rest[i]
                    break
            else:
                if not (_radicand(a) is not None or _squares(a)):
                    return False
        return True
    return t.decl().kind() == z3.Z3_OP_POWER and _const(t.arg(1)) == 2 or _radicand(t) is not None


def sym_sqrt(x):
    x = _as_real(x)
    c = _const(x.t)
    if c is not None and c >= 0:
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            return lift(Fraction(n, d))
        return lift(math_sqrt(_float(c)))
    if z3.is_mul(x.t) and x.t.num_args() == 2 and x.t.arg(0).eq(x.t.arg(1)):
        return abs(SymNum(x.t.arg(0))).__add__(_float(0))
    if not _squares(x.t) and x < 0:
        raise ValueError("math domain error")

    def ax(args, r, prev):
        (a,) = args
        out = [r >= 0, (a == 0) == (r == 0), r * r == a]
        for (b,), rb in prev:
            out.append(z3.And((a < b) == (r < rb), (a == b) == (r == rb)))
        return out
    return _uf("sqrt", _SQRT, [x.t], ax)


def sym_tan(x):
    x = _as_real(x)
    c = _const(x.t)
    if c is not None:
        return lift(math_tan(_float(c)))

    def ax(args, r, prev):
        (a,) = args
        lim = z3.Q(157, 100)
        out = [z3.Implies(a == 0, r == 0), z3.Implies(z3.And(a > 0, a < lim), r >= a),
               z3.Implies(z3.And(a < 0, a > -lim), r <= a)]
        for (b,), rb in prev:
            out.append(z3.Implies(z3.And(a > -lim, a < lim, b > -lim, b < lim), (a < b) == (r < rb)))
        return out
    return _uf("tan", _TAN, [x.t], ax)


def _plain_uf(name, f, real):
    def g(x):
        x = _as_real(x)
        c = _const(x.t)
        if c is not None:
            return lift(real(_float(c)))
        return _uf(name, f, [x.t], lambda args, r, prev: [])
    return g


sym_sin = _plain_uf("sin", _SIN, math.sin)
sym_cos = _plain_uf("cos", _COS, math.cos)


def sym_atan2(y, x):
    y, x = _as_real(y), _as_real(x)
    cy, cx = _const(y.t), _const(x.t)
    if cy is not None and cx is not None:
        return lift(math.atan2(_float(cy), _float(cx)))

    def ax(args, r, prev):
        a, b = args
        pi = z3.Q(31416, 10000)
        out = [r <= pi, r >= -pi, z3.Implies(z3.And(a == 0, b > 0), r == 0),
               z3.Implies(a > 0, r > 0), z3.Implies(a < 0, r < 0),
               z3.Implies(z3.And(a > 0, b > 0), z3.And(r < z3.Q(15708, 10000), r * b <= a))]
        for (a2, b2), r2 in prev:
            if b2.eq(b):
                out.append(z3.Implies(b > 0, z3.And((a < a2) == (r < r2), (a == a2) == (r == r2))))
        return out
    return _uf("atan2", _ATAN2, [y.t, x.t], ax)


def sym_atan(x):
    return sym_atan2(x, 1)


def sym_hypot(*xs):
    return sym_sqrt(sum((_as_real(x) * _as_real(x) for x in xs), lift(0)))


def sym_pow(b, ex):
    b = lift(b)
    ex2 = lift(ex)
    if b is None or ex2 is None:
        return NotImplemented
    c = _const(ex2.t)
    if c is not None and c.denominator == 1 and abs(c) <= 4:
        n = _int(c)
        if n == 0:
            return lift(1)
        if n > 0:
            r = b
            for _ in range(n - 1):
                r = r * b
            return r
        if b == 0:
            warnings.warn("divide by zero encountered in power", RuntimeWarning, stacklevel=2)
            return _float("inf")
        return lift(1) / sym_pow(b, -n)
    cb = _const(b.t)
    if c is not None and cb is not None:
        if cb > 0:
            return lift(_float(cb) ** _float(c))
    if c is not None and c == Fraction(1, 2) and _squares(b.t):
        return sym_sqrt(b)
    # numpy float semantics on arrays: warnings, not exceptions
    if b == 0:
        if ex2 < 0:
            warnings.warn("divide by zero encountered in power", RuntimeWarning, stacklevel=2)
            return _float("inf")
        if ex2 == 0:
            return lift(1)
        return lift(0)
    if b < 0:
        warnings.warn("invalid value encountered in power", RuntimeWarning, stacklevel=2)
        return _float("nan")
    if c is not None and c == Fraction(1, 2):
        return sym_sqrt(b)

    def ax(args, r, prev):
        x, y = args
        out = [r > 0, z3.Implies(x == 1, r == 1), z3.Implies(y == 0, r == 1), z3.Implies(y == 1, r == x),
               z3.Implies(y == -1, r * x == 1)]
        for (x2, y2), r2 in prev:
            if y2.eq(y):
                out.append(z3.And(z3.Implies(y > 0, (x < x2) == (r < r2)),
                                  z3.Implies(y < 0, (x < x2) == (r > r2)),
                                  z3.Implies(x == x2, r == r2)))
            s = _const(y + y2)
            if s is not None and s == 0:
                out.append(z3.Implies(x == x2, r * r2 == 1))
        return out
    return _uf("pow", _POW, [b.t, ex2.t], ax)


math_exp, math_log, math_sqrt, math_tan = math.exp, math.log, math.sqrt, math.tan


# ---------------------------------------------------------------- strings

TOK_A, TOK_B = "\ue000", "\ue001"


class SymStr(str):
    """A symbolic string: an unknown atomic value (no ACT-R special characters).

    The z3 term is an Int: ids below LIT_LIMIT are literals (only the literals in
    self.lits are possible), ids from LIT_LIMIT on are pairwise different
    ordinary names."""

    lazy = False  # no containers keyed by literals meet this string: its hash need not be that of a literal

    def __new__(cls, term, lits=(), name=None, lazy=False):
        e = eng()
        tok = f"{TOK_A}{name or _hash_short(term)}{TOK_B}"
        self = str.__new__(cls, tok)
        if lazy:
            self.lazy = True
        self.t = term
        self.lits = tuple(lits)
        e.tokens[tok] = self
        return self

    def _eqterm(self, o):
        """z3 condition for self == o, or True/False."""
        e = eng()
        if isinstance(o, IntStr):
            return False
        if isinstance(o, SymStr):
            return self.t == o.t
        if isinstance(o, str):
            t = e.tokens.get(_str.__str__(o))
            if t is not None:
                return self._eqterm(t)
            if o in self.lits:
                return self.t == e.lit_id(o)
            return False
        return None

    def __eq__(self, o):
        if self is o:
            return True
        t = self._eqterm(o)
        if t is None:
            return NotImplemented
        return t if isinstance(t, bool) else _sb(t)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return ~r if isinstance(r, SymBool) else not r

    def __hash__(self):
        e = eng()
        for l in self.lits if not self.lazy else ():
            if e.decide_entry(self.t == e.lit_id(l)):
                return _str.__hash__(l)
        return 0x5EED

    def _resolve(self):
        """The literal this string equals on this path (forks), or None."""
        e = eng()
        for l in self.lits:
            if e.decide_entry(self.t == e.lit_id(l)):
                return l
        return None

    def __str__(self):
        return self

    def __repr__(self):
        return "'" + _str.__str__(self) + "'"

    def __bool__(self):
        return True

    def __len__(self):
        l = self._resolve()
        return len(l) if l is not None else 5

    # an ordinary atom has no blanks and no special characters
    def strip(self, *a):
        return self
    lstrip = rstrip = strip

    def split(self, sep=None, maxsplit=-1):
        return [self]
    rsplit = split

    def replace(self, a, b, n=-1):
        l = self._resolve()
        return l.replace(a, b, n) if l is not None else self

    def startswith(self, p, *a):
        l = self._resolve()
        if l is not None:
            return l.startswith(p, *a)
        return False if p else True

    def endswith(self, p, *a):
        l = self._resolve()
        if l is not None:
            return l.endswith(p, *a)
        return False if p else True

    def _map(self, f):
        """A function of the literals, without forking (for strings that are always literals)."""
        e = eng()
        t = self.t
        todo = [(l, f(l)) for l in self.lits if f(l) != l]
        if not todo:
            return self
        groups = {}
        for l, m in todo:
            groups.setdefault(m, []).append(self.t == e.lit_id(l))
        for m, cs in groups.items():
            t = z3.If(z3.Or(*cs) if len(cs) > 1 else cs[0], z3.IntVal(e.lit_id(m)), t)
        return SymStr(t, tuple(dict.fromkeys(f(l) for l in self.lits)), None, True)

    def upper(self):
        if self.lazy:
            return self._map(_str.upper)
        l = self._resolve()
        return l.upper() if l is not None else self

    def lower(self):
        if self.lazy:
            return self._map(_str.lower)
        l = self._resolve()
        return l.lower() if l is not None else self

    def __getitem__(self, i):
        l = self._resolve()
        if l is not None:
            return l[i]
        return _str.__getitem__(self, i)

    # ordinary names are called val0, val1, ... in the order of their ids
    def _lt(self, o):
        e = eng()
        if isinstance(o, str) and not isinstance(o, SymStr):
            o = e.tokens.get(_str.__str__(o), o)
        if isinstance(self, RelStr) or isinstance(o, RelStr) or not isinstance(o, str):
            raise Unsupported("ordering of symbolic strings")
        if isinstance(self, IntStr) or isinstance(o, IntStr):
            if isinstance(self, IntStr) and isinstance(o, IntStr):
                raise Unsupported("ordering of symbolic strings")
            other = o if isinstance(self, IntStr) else self
            first = "val" if isinstance(other, SymStr) else (other or " ")
            if "-" <= first[0] <= "9":
                raise Unsupported("ordering of symbolic strings")
            int_first = first[0] > "9"
            return int_first if isinstance(self, IntStr) else not int_first
        a = self._resolve()
        b = o._resolve() if isinstance(o, SymStr) else o
        if a is None and b is None:
            return _sb(self.t < o.t)
        return _str.__lt__(a if a is not None else "val", b if b is not None else "val")

    def __lt__(self, o):
        return self._lt(o)

    def __gt__(self, o):
        r = _disj(self._lt(o), self == o)
        return ~r if isinstance(r, SymBool) else not r

    def __le__(self, o):
        return _disj(self._lt(o), self == o)

    def __ge__(self, o):
        r = self._lt(o)
        return ~r if isinstance(r, SymBool) else not r

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise Unsupported("pickling a symbolic string")


class IntStr(SymStr):
    """The decimal representation of a symbolic int."""

    def __new__(cls, term):
        e = eng()
        tok = f"{TOK_A}int{_hash_short(term)}{TOK_B}"
        if tok in e.tokens:
            return e.tokens[tok]
        self = str.__new__(cls, tok)
        self.t = z3.simplify(term)
        self.lits = ()
        e.tokens[tok] = self
        return self

    def _eqterm(self, o):
        e = eng()
        if isinstance(o, IntStr):
            return self.t == o.t
        if isinstance(o, SymStr):
            return False
        if isinstance(o, str):
            t = e.tokens.get(_str.__str__(o))
            if t is not None:
                return self._eqterm(t)
            try:
                return self.t == _int(o)
            except ValueError:
                return False
        return None

    def __eq__(self, o):
        return SymStr.__eq__(self, o)

    __ne__ = SymStr.__ne__

    def __hash__(self):
        return 0x1DEED

    def __getitem__(self, i):
        # the only thing known about a digit string's characters: no special signs
        if i == 0:
            return "0"
        return self if i == slice(None, None, None) else _str.__getitem__(self, i)

    def num(self):
        return SymNum(self.t)


class RelStr(SymStr):
    """A relative position such as '<100' or '>100' with a symbolic number."""

    def __new__(cls, sign, num):
        e = eng()
        tok = f"{TOK_A}rel{'lt' if sign == '<' else 'gt'}{_hash_short(num.t)}{TOK_B}"
        self = str.__new__(cls, tok)
        self.sign = sign
        self.t = num.t
        self.lits = ()
        e.tokens[tok] = self
        return self

    def _eqterm(self, o):
        e = eng()
        if isinstance(o, RelStr):
            return self.t == o.t if self.sign == o.sign else False
        if isinstance(o, SymStr):
            return False
        if isinstance(o, str):
            t = e.tokens.get(_str.__str__(o))
            return self._eqterm(t) if t is not None else False
        return None

    def __eq__(self, o):
        return SymStr.__eq__(self, o)

    __ne__ = SymStr.__ne__

    def __hash__(self):
        return 0x2E1

    def __getitem__(self, i):
        if i == 0 or i == slice(None, 1, None) or i == slice(0, 1, None):
            return self.sign
        if i == slice(1, None, None):
            return IntStr(self.t)
        return _str.__getitem__(self, i)

    def startswith(self, p, *a):
        return p == self.sign or (isinstance(p, tuple) and self.sign in p)

    def lstrip(self, c=None):
        return IntStr(self.t) if c and self.sign in c else self
    strip = lstrip


# ---------------------------------------------------------------- ideal hashing

def _sv(x):
    return x.s if isinstance(x, HashVal) else ("n", x)


class HashVal(int):
    """The hash of a value under an ideal (collision-free) hash function.

    C containers see one constant (so they always fall through to ==); Python
    code that compares two hashes gets structural equality of what was hashed."""

    def __new__(cls, struct):
        self = int.__new__(cls, 7)
        self.s = struct
        return self

    def __eq__(self, o):
        if isinstance(o, HashVal):
            return struct_eq(self.s, o.s)
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SymBool) else not r

    def __hash__(self):
        return 7

    def __bool__(self):
        return True

    def __xor__(self, o):
        return HashVal(("bag",) + _bag("^", self) + _bag("^", o))
    __rxor__ = __xor__

    def __add__(self, o):
        return HashVal(("bag+",) + _bag("+", self) + _bag("+", o))
    __radd__ = __add__

    def __mul__(self, o):
        return HashVal(("op*", _sv(self), _sv(o)))
    __rmul__ = __mul__

    def __mod__(self, o):
        return self
    __and__ = __mod__


def _bag(op, x):
    s = _sv(x)
    if isinstance(s, tuple) and s and s[0] == ("bag" if op == "^" else "bag+"):
        return s[1:]
    return (s,)


def _conj(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    return a & b


def _disj(a, b):
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    return a | b


def _bag_eq(xs, ys):
    """Equality of two multisets of structures."""
    if len(xs) != len(ys):
        return False
    if not xs:
        return True
    acc = False
    for i in range(len(ys)):
        r = struct_eq(xs[0], ys[i])
        if r is not False:
            acc = _disj(acc, _conj(r, _bag_eq(xs[1:], ys[:i] + ys[i + 1:])))
    return acc


def struct_eq(a, b):
    if isinstance(a, HashVal):
        a = a.s
    if isinstance(b, HashVal):
        b = b.s
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        if a and a[0] in ("bag", "bag+", "fs") and isinstance(a[0], str) and not isinstance(a[0], SymStr):
            return _bag_eq(a[1:], b[1:]) if a[0] == b[0] else False
        acc = True
        for x, y in zip(a, b):
            acc = _conj(acc, struct_eq(x, y))
            if acc is False:
                return False
        return acc
    if isinstance(a, tuple) or isinstance(b, tuple):
        return False
    r = a == b
    if isinstance(r, SymBool):
        return r
    return bool(r)


def sym_hash(x):
    if isinstance(x, HashVal):
        return x
    if isinstance(x, str):
        return HashVal(("v", x))
    if isinstance(x, SymNum) or isinstance(x, (_int, _float)):
        return HashVal(("n", x))
    if isinstance(x, tuple) and type(x).__hash__ is tuple.__hash__:
        return HashVal(("t",) + tuple(sym_hash(y).s for y in x))
    if isinstance(x, frozenset):
        return HashVal(("fs",) + tuple(sym_hash(y).s for y in x))
    h = type(x).__hash__
    if h is None:
        raise TypeError(f"unhashable type: '{type(x).__name__}'")
    r = h(x)
    if isinstance(r, HashVal):
        return r
    return HashVal(("n", r))
