"""Symbolic scalars, path conditions and the path explorer.

A symbolic real is a quotient n/d of z3 real terms, where d is a product of
factors that are known to be nonzero on the current path.  Every data-dependent
branch asks the solver which outcomes are feasible and forks if both are.
"""

import math
import time
import numbers
from fractions import Fraction

import numpy as np
import z3

z3.set_param("smt.random_seed", 1)


class EngineLimit(BaseException):
    """The executor met something it cannot encode (never a verdict)."""


class PathAbort(BaseException):
    """The current path is infeasible (an assumption failed)."""


# Global run state -----------------------------------------------------------
class Stats:
    def __init__(self):
        self.paths = 0
        self.branches = 0
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.solver_s = 0.0


STATS = Stats()
CTX = None  # the active symbolic Context


def ctx():
    if CTX is None:
        raise EngineLimit("symbolic value used outside of a symbolic run")
    return CTX


# Numbers ---------------------------------------------------------------------
def toQ(x):
    """Exact rational of a concrete number; floats are read as the simple
    rational they round to (0.1 -> 1/10), if there is one within 1 ulp."""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    if isinstance(x, (float, np.floating)):
        x = float(x)
        f = Fraction(x)
        if f.denominator == 1:
            return f
        g = f.limit_denominator(1000000)
        if g != 0 and abs(g - f) <= abs(f) * Fraction(1, 10**15):
            return g
        return f
    raise EngineLimit(f"not a number: {type(x)}")


_RV = {}


def rv(q):
    q = toQ(q)
    out = _RV.get(q)
    if out is None:
        out = z3.RealVal(q)
        _RV[q] = out
    return out


FACT = {}  # id -> z3 factor (kept alive so that ids stay unique)
_KEEP = {}


def key_of(e):
    k = e.get_id()
    FACT.setdefault(k, e)
    return k


def d_expr(d):
    out = None
    for k, p in d:
        for _ in range(p):
            out = FACT[k] if out is None else out * FACT[k]
    return out


def d_mul(d1, d2):
    if not d1:
        return d2
    if not d2:
        return d1
    m = dict(d1)
    for k, p in d2:
        m[k] = m.get(k, 0) + p
    return tuple(sorted(m.items()))


def d_lcm(d1, d2):
    """lcm and the two cofactors (as z3 expressions or None)."""
    if d1 == d2:
        return d1, None, None
    m = dict(d1)
    for k, p in d2:
        m[k] = max(m.get(k, 0), p)
    a, b = dict(d1), dict(d2)
    c1 = tuple((k, p - a.get(k, 0)) for k, p in m.items() if p > a.get(k, 0))
    c2 = tuple((k, p - b.get(k, 0)) for k, p in m.items() if p > b.get(k, 0))
    return tuple(sorted(m.items())), d_expr(c1), d_expr(c2)


def isnum(x):
    return isinstance(x, (int, float, Fraction, np.integer, np.floating, np.bool_))


class Sym:
    """Symbolic real number n/d."""

    __slots__ = ("n", "d")
    __array_priority__ = 1000

    # numpy-scalar look-alike attributes
    shape = ()
    ndim = 0
    size = 1

    def __init__(self, n, d=()):
        self.n = n
        self.d = d

    # -- arithmetic
    def __add__(self, o):
        if isinstance(o, Sym):
            d, c1, c2 = d_lcm(self.d, o.d)
            a = self.n if c1 is None else self.n * c1
            b = o.n if c2 is None else o.n * c2
            return Sym(a + b, d)
        if isinstance(o, SymBool):
            return self + o._asnum()
        if isnum(o):
            if isinstance(o, (float, np.floating)) and not math.isfinite(o):
                return float(o)
            q = toQ(o)
            if q == 0:
                return self
            if self.d:
                return Sym(self.n + rv(q) * d_expr(self.d), self.d)
            return Sym(self.n + rv(q))
        return NotImplemented

    __radd__ = __add__

    def __neg__(self):
        return Sym(-self.n, self.d)

    def __pos__(self):
        return self

    def __sub__(self, o):
        if isinstance(o, Sym):
            if o is self:
                return 0
            return self + (-o)
        if isinstance(o, SymBool):
            return self - o._asnum()
        if isnum(o):
            return self + (-o)
        return NotImplemented

    def __rsub__(self, o):
        if isinstance(o, (Sym, SymBool)) or isnum(o):
            return (-self) + o
        return NotImplemented

    def __mul__(self, o):
        if isinstance(o, Sym):
            n1, d1, n2, d2 = self.n, self.d, o.n, o.d
            # cancel a numerator that is exactly a denominator factor
            if d2 or d1:
                k1, k2 = n1.get_id(), n2.get_id()
                m2 = dict(d2)
                if m2.get(k1):
                    m2[k1] -= 1
                    d2 = tuple((k, p) for k, p in sorted(m2.items()) if p)
                    n1 = None
                m1 = dict(d1)
                if m1.get(k2):
                    m1[k2] -= 1
                    d1 = tuple((k, p) for k, p in sorted(m1.items()) if p)
                    n2 = None
            if n1 is None and n2 is None:
                n = rv(1)
            elif n1 is None:
                n = n2
            elif n2 is None:
                n = n1
            else:
                n = n1 * n2
            return Sym(n, d_mul(d1, d2))
        if isinstance(o, SymBool):
            return self * o._asnum()
        if isnum(o):
            if isinstance(o, (float, np.floating)) and not math.isfinite(o):
                return float("nan")
            q = toQ(o)
            if q == 0:
                return 0
            if q == 1:
                return self
            if q == -1:
                return -self
            return Sym(rv(q) * self.n, self.d)
        return NotImplemented

    __rmul__ = __mul__

    def inv(self):
        """1/self; the path forks on self == 0."""
        if ctx().decide_zero(self):
            return float("nan")
        e = d_expr(self.d)
        if z3.is_rational_value(self.n):
            q = 1 / Fraction(self.n.numerator_as_long(), self.n.denominator_as_long())
            return Sym(rv(q) if e is None else rv(q) * e)
        return Sym(rv(1) if e is None else e, ((key_of(self.n), 1),))

    def __truediv__(self, o):
        if isinstance(o, Sym):
            i = o.inv()
            return self * i
        if isinstance(o, SymBool):
            return self / o._asnum()
        if isnum(o):
            if isinstance(o, (float, np.floating)) and not math.isfinite(o):
                return float("nan") if math.isnan(o) else 0
            q = toQ(o)
            if q == 0:
                return float("nan")
            return self * (1 / q)
        return NotImplemented

    def __rtruediv__(self, o):
        if isnum(o):
            return self.inv() * o
        return NotImplemented

    def __pow__(self, k):
        if isinstance(k, Sym):
            k = k._const()
        if not isnum(k):
            return NotImplemented
        q = toQ(k)
        if q.denominator == 1:
            p = int(q)
            if p == 0:
                return 1
            base = self
            if p % 2 == 0:  # |x|^p = x^p
                base = ctx().memo.get(("absof", self.n.get_id(), self.d), (self,))[0]
            base = base if p > 0 else base.inv()
            out = base
            for _ in range(abs(p) - 1):
                out = out * base
            return out
        if q == Fraction(1, 2):
            return self.sqrt()
        if q == Fraction(-1, 2):
            s = self.sqrt()
            return s.inv() if isinstance(s, Sym) else sdiv(1, s)
        if q.denominator > 12 or abs(q.numerator) > 12:
            raise EngineLimit(f"symbolic power {k}")
        s = ctx().root(self, q.denominator)
        return s ** int(q.numerator)

    def __rpow__(self, o):
        c = self._const()
        return o**c

    def __abs__(self):
        c = ctx()
        k = ("abs", self.n.get_id(), self.d)
        if k in c.memo:
            return c.memo[k][0]
        cond = z3.simplify(self.cmp(0, "ge"))
        if z3.is_true(cond):
            out = self
        elif z3.is_false(cond):
            out = -self
        else:
            out = Sym(z3.If(cond, self.n, -self.n), self.d)
        c.memo[k] = (out, self.n)
        c.memo["absof", out.n.get_id(), out.d] = (self, out.n)
        return out

    def sqrt(self):
        return ctx().sqrt(self)

    def _const(self):
        """Concrete Fraction if the term is constant, else EngineLimit."""
        n = z3.simplify(self.n, som=True)
        if not z3.is_rational_value(n):
            raise EngineLimit("symbolic value where a concrete number is needed")
        q = Fraction(n.numerator_as_long(), n.denominator_as_long())
        for k, p in self.d:
            f = z3.simplify(FACT[k], som=True)
            if not z3.is_rational_value(f):
                raise EngineLimit("symbolic value where a concrete number is needed")
            q /= Fraction(f.numerator_as_long(), f.denominator_as_long()) ** p
        return q

    def __float__(self):
        return float(self._const())

    def __int__(self):
        return int(self._const())

    def __index__(self):
        q = self._const()
        if q.denominator != 1:
            raise TypeError("non-integer index")
        return int(q)

    def __floor__(self):
        return math.floor(self._const())

    def __ceil__(self):
        return math.ceil(self._const())

    def __round__(self, n=None):
        return round(self._const(), n)

    def __bool__(self):
        return not ctx().decide_zero(self)

    # -- comparisons
    def cmp(self, o, op):
        """z3 Bool for (self op o)."""
        if isinstance(o, Sym):
            d, c1, c2 = d_lcm(self.d, o.d)
            a = self.n if c1 is None else self.n * c1
            b = o.n if c2 is None else o.n * c2
        else:
            q = toQ(o)
            d = self.d
            a = self.n
            if q == 0 or not d:
                b = rv(q)
            else:
                b = rv(q) * d_expr(d)
        if op == "eq":
            return a == b
        if op == "ne":
            return a != b
        odd = d_expr(tuple((k, 1) for k, p in d if p % 2))
        if odd is not None:
            if z3.is_rational_value(b) and b.as_fraction() == 0:
                a = a * odd
            else:
                a, b = (a - b) * odd, rv(0)
        if op == "lt":
            return a < b
        if op == "le":
            return a <= b
        if op == "gt":
            return a > b
        if op == "ge":
            return a >= b
        raise ValueError(op)

    def _cmp(self, o, op):
        if isinstance(o, SymBool):
            o = o._asnum()
        if isinstance(o, Sym) or isnum(o):
            if not isinstance(o, Sym) and isinstance(o, (float, np.floating)) and not math.isfinite(o):
                if math.isnan(o):
                    return op == "ne"
                if op in ("eq", "ne"):
                    return op == "ne"
                return (o > 0) == (op in ("lt", "le"))
            return mkbool(self.cmp(o, op))
        return NotImplemented

    def __eq__(self, o):
        return self._cmp(o, "eq")

    def __ne__(self, o):
        return self._cmp(o, "ne")

    def __lt__(self, o):
        return self._cmp(o, "lt")

    def __le__(self, o):
        return self._cmp(o, "le")

    def __gt__(self, o):
        return self._cmp(o, "gt")

    def __ge__(self, o):
        return self._cmp(o, "ge")

    def __hash__(self):
        return hash((self.n.get_id(), self.d))

    # -- numpy scalar look-alikes
    def conjugate(self):
        return self

    conj = conjugate

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    @property
    def T(self):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    def astype(self, *a, **k):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise EngineLimit("pickling a symbolic value")

    def __repr__(self):
        return "<sym>"

    __str__ = __repr__

    def __format__(self, spec):
        hook = ctx().opts.get("format")
        return "<sym>" if hook is None else hook(self, spec)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import arr

        return arr.do_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import arr

        return arr.do_function(func, args, kwargs)

    def ravel(self):
        from . import arr

        return arr.mk([self])

    flatten = ravel

    def reshape(self, *shape):
        return self.ravel().reshape(*shape)

    def sum(self, *a, **k):
        return self

    min = max = mean = sum


numbers.Real.register(Sym)


class SymBool:
    __slots__ = ("e",)
    __array_priority__ = 1000
    shape = ()
    ndim = 0
    size = 1

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ctx().decide(self.e)

    def _asnum(self):
        return Sym(z3.If(self.e, rv(1), rv(0)))

    def __and__(self, o):
        return b_and(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return b_or(self, o)

    __ror__ = __or__

    def __invert__(self):
        return b_not(self)

    def __xor__(self, o):
        return b_or(b_and(self, b_not(o)), b_and(b_not(self), o))

    __rxor__ = __xor__

    def __add__(self, o):
        return self._asnum() + (o._asnum() if isinstance(o, SymBool) else o)

    __radd__ = __add__

    def __sub__(self, o):
        return self._asnum() - (o._asnum() if isinstance(o, SymBool) else o)

    def __rsub__(self, o):
        return (-self._asnum()) + o

    def __mul__(self, o):
        return self._asnum() * (o._asnum() if isinstance(o, SymBool) else o)

    __rmul__ = __mul__

    def __eq__(self, o):
        if isinstance(o, (bool, np.bool_)):
            return self if o else b_not(self)
        if isinstance(o, SymBool):
            return mkbool(self.e == o.e)
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else b_not(r)

    def __hash__(self):
        return hash(self.e.get_id())

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def item(self):
        return self

    def all(self, *a, **k):
        return self

    def any(self, *a, **k):
        return self

    def __repr__(self):
        return "<symbool>"

    __str__ = __repr__

    def __format__(self, s):
        return "<symbool>"

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import arr

        return arr.do_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import arr

        return arr.do_function(func, args, kwargs)


def mkbool(e):
    """SymBool, or a Python bool when the term is a constant."""
    s = z3.simplify(e)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return SymBool(e)


def bexpr(b):
    if isinstance(b, SymBool):
        return b.e
    if isinstance(b, Sym):
        return b.cmp(0, "ne")
    if isinstance(b, z3.BoolRef):
        return b
    return z3.BoolVal(bool(b))


def b_and(a, b):
    if not isinstance(a, (SymBool, Sym)):
        return (b if isinstance(b, SymBool) else mkbool(bexpr(b))) if a else False
    if not isinstance(b, (SymBool, Sym)):
        return (a if isinstance(a, SymBool) else mkbool(bexpr(a))) if b else False
    return mkbool(z3.And(bexpr(a), bexpr(b)))


def b_or(a, b):
    if not isinstance(a, (SymBool, Sym)):
        return True if a else (b if isinstance(b, SymBool) else mkbool(bexpr(b)))
    if not isinstance(b, (SymBool, Sym)):
        return True if b else (a if isinstance(a, SymBool) else mkbool(bexpr(a)))
    return mkbool(z3.Or(bexpr(a), bexpr(b)))


def b_not(a):
    if isinstance(a, (SymBool, Sym)):
        return mkbool(z3.Not(bexpr(a)))
    return not a


def sdiv(a, b):
    """Division with numpy semantics for concrete zero denominators."""
    if isinstance(a, (Sym, SymBool)) or isinstance(b, (Sym, SymBool)):
        if isinstance(a, SymBool):
            a = a._asnum()
        if isinstance(b, SymBool):
            b = b._asnum()
        if isinstance(a, Sym):
            return a / b
        return b.__rtruediv__(a)
    if b == 0:
        if a != a or a == 0:
            return float("nan")
        return float("inf") if a > 0 else float("-inf")
    if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)) and not isinstance(a, bool):
        return Fraction(a) / b
    if isinstance(a, Fraction) or isinstance(b, Fraction):
        if isinstance(a, float) and not math.isfinite(a) or isinstance(b, float) and not math.isfinite(b):
            return float(a) / float(b)
        return toQ(a) / toQ(b)
    return a / b


def ite(c, a, b):
    if not isinstance(c, (SymBool, Sym)):
        return a if c else b
    ce = bexpr(c)
    if a is b:
        return a
    for v in (a, b):
        if isinstance(v, (float, np.floating)) and not math.isfinite(v):
            return a if ctx().decide(ce) else b
        if not (isinstance(v, (Sym, SymBool)) or isnum(v)):
            return a if ctx().decide(ce) else b
    if isinstance(a, (bool, np.bool_, SymBool)) and isinstance(b, (bool, np.bool_, SymBool)):
        return mkbool(z3.If(ce, bexpr(a), bexpr(b)))
    a = a if isinstance(a, Sym) else Sym(rv(a)) if not isinstance(a, SymBool) else a._asnum()
    b = b if isinstance(b, Sym) else Sym(rv(b)) if not isinstance(b, SymBool) else b._asnum()
    d, c1, c2 = d_lcm(a.d, b.d)
    na = a.n if c1 is None else a.n * c1
    nb = b.n if c2 is None else b.n * c2
    return Sym(z3.If(ce, na, nb), d)


def smax(a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        if a != a or b != b:
            return float("nan")
        return a if a >= b else b
    if any(isinstance(v, float) and v != v for v in (a, b)):
        return float("nan")
    return ite(a >= b, a, b)


def smin(a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        if a != a or b != b:
            return float("nan")
        return a if a <= b else b
    if any(isinstance(v, float) and v != v for v in (a, b)):
        return float("nan")
    return ite(a <= b, a, b)


# Solver ----------------------------------------------------------------------
_VARS = {}


def vars_of(e):
    """Set of names of the free constants in a z3 term (memoised DAG walk)."""
    k = e.get_id()
    hit = _VARS.get(k)
    if hit is not None:
        return hit[0]
    out, stack, seen = set(), [e], set()
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(t.decl().name())
        else:
            stack.extend(t.children())
    _VARS[k] = (frozenset(out), e)
    return _VARS[k][0]


def slice_pc(pc, goal_vars):
    """Constraints transitively sharing variables with the goal."""
    vs = set(goal_vars)
    rest = [(c, vars_of(c)) for c in pc]
    keep, changed = [], True
    while changed:
        changed = False
        nxt = []
        for c, v in rest:
            if v & vs:
                keep.append(c)
                vs |= v
                changed = True
            else:
                nxt.append((c, v))
        rest = nxt
    return keep


def linear_abstraction(assertions):
    """The conjunction with every non-linear monomial replaced by a fresh constant.

    A relaxation: unsatisfiable only if the original is.  None if nothing is non-linear.
    """
    fresh, memo, hold = {}, {}, []

    def walk(e):
        k = e.get_id()
        if k in memo:
            return memo[k]
        ch = e.children()
        if not ch:
            out = e
        else:
            kind = e.decl().kind()
            nonlin = kind in (z3.Z3_OP_DIV, z3.Z3_OP_POWER) or (kind == z3.Z3_OP_MUL and sum(not z3.is_rational_value(t) for t in ch) > 1)
            if nonlin:
                co = [t for t in ch if z3.is_rational_value(t)] if kind == z3.Z3_OP_MUL else []
                rest = tuple(sorted(t.get_id() for t in ch if not z3.is_rational_value(t))) if kind == z3.Z3_OP_MUL else (k,)
                if (kind, rest) not in fresh:
                    fresh[kind, rest] = z3.Real(f"!m{len(fresh)}")
                out = fresh[kind, rest]
                for q in co:
                    out = q * out
            else:
                new = [walk(t) for t in ch]
                out = e if all(a is b for a, b in zip(new, ch)) else e.decl()(*new)
        memo[k] = out
        hold.append((e, ch))
        return out

    out = [walk(z3.simplify(a, som=True)) for a in assertions]
    return out if fresh else None


def solve(assertions, timeout_ms=20000, model=False, strategy=None):
    """z3 verdict on a conjunction: ('sat', model)|('unsat', None)|('unknown', None)."""
    t0 = time.time()
    res, mdl = "unknown", None
    plans = strategy or (("simp", 0.0), ("lin", 0.05), ("nra", 0.25), ("smt", 0.25), ("nra", 0.5))
    try:
        for which, frac in plans:
            if which == "simp":
                # z3's rewriter with polynomial normal forms: decides identities.
                g = z3.simplify(z3.And(*assertions), som=True, som_blowup=100000) if len(assertions) else z3.BoolVal(True)
                if z3.is_false(g):
                    res = "unsat"
                    break
                if z3.is_true(g):
                    res = "sat"
                    s = z3.Solver()
                    s.check()
                    mdl = s.model()
                    break
                continue
            if which == "lin":
                a = linear_abstraction(assertions)
                if a is not None:
                    s = z3.SolverFor("QF_LRA")
                    s.set("timeout", max(200, int(timeout_ms * frac)))
                    s.add(*a)
                    if s.check() == z3.unsat:
                        res = "unsat"
                        break
                continue
            s = z3.SolverFor("QF_NRA") if which == "nra" else z3.Solver()
            s.set("timeout", max(200, int(timeout_ms * frac)))
            s.add(*assertions)
            r = s.check()
            if r == z3.unsat:
                res = "unsat"
                break
            if r == z3.sat:
                res = "sat"
                mdl = s.model()
                break
    except z3.Z3Exception as e:
        if "canceled" not in str(e) and "timeout" not in str(e):
            raise
    STATS.queries += 1
    STATS.solver_s += time.time() - t0
    setattr(STATS, res, getattr(STATS, res) + 1)
    return res, mdl


def model_value(mdl, v):
    """Fraction value of a z3 constant in a model (algebraic numbers approximated)."""
    x = mdl.eval(v, model_completion=True)
    if z3.is_algebraic_value(x):
        x = x.approx(40)
    if z3.is_rational_value(x):
        return Fraction(x.numerator_as_long(), x.denominator_as_long())
    raise EngineLimit(f"no numeral value for {v}: {x}")


class Context:
    """State of one symbolic path."""

    def __init__(self, prefix, decide_timeout=10000):
        self.prefix = prefix
        self.trace = []  # (value, both_feasible)
        self.alternatives = []
        self.pc = []  # assumptions, decisions and definitions
        self.inputs = {}  # name -> (z3 var)
        self.memo = {}
        self.nfresh = 0
        self.fresh = {}
        self.assumed_unknown = 0
        self.decide_timeout = decide_timeout
        self.opts = {}
        self.notes = set()

    # -- variables
    def var(self, name):
        v = z3.Real(name)
        self.inputs[name] = v
        return Sym(v)

    def fresh_var(self, hint="t"):
        self.nfresh += 1
        name = f"!{hint}{self.nfresh}"
        v = z3.Real(name)
        self.fresh[name] = v
        return Sym(v)

    def define(self, e):
        """Add a constraint that only restricts fresh variables."""
        self.pc.append(e)

    def assume(self, e):
        e = bexpr(e)
        s = z3.simplify(e)
        if z3.is_true(s):
            return
        if z3.is_false(s):
            raise PathAbort("assumption false")
        self.pc.append(e)
        if self.opts.get("check_assume", False):
            r, _ = self.query([e], self.decide_timeout)
            if r == "unsat":
                raise PathAbort("assumption infeasible")

    def query(self, extra, timeout=None, model=False, full=False):
        ex = [bexpr(e) for e in extra]
        if full:
            pc = self.pc
        else:
            gv = set()
            for e in ex:
                gv |= vars_of(e)
            pc = slice_pc(self.pc, gv)
        return solve(list(pc) + ex, timeout or self.decide_timeout, model)

    # -- decisions
    def decide_zero(self, x):
        if z3.is_rational_value(x.n):
            return x.n.as_fraction() == 0
        k = ("z", x.n.get_id())
        if k in self.memo:
            return self.memo[k][0]
        e = x.n == rv(0)
        s = z3.simplify(e, som=True)
        if z3.is_true(s):
            r = True
        elif z3.is_false(s):
            r = False
        else:
            r = self.decide(e)
        self.memo[k] = (r, x.n)
        return r

    def decide(self, e):
        s = z3.simplify(e)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        k = ("b", s.get_id())
        if k in self.memo:
            return self.memo[k][0]
        kn = z3.simplify(z3.Not(s))
        i = len(self.trace)
        if i < len(self.prefix):
            v, both = self.prefix[i]
        else:
            rt, _ = self.query([e])
            if rt == "unsat":
                v, both = False, False
            else:
                rf, _ = self.query([z3.Not(e)])
                if rf == "unsat":
                    v, both = True, False
                else:
                    if rt == "unknown" or rf == "unknown":
                        self.assumed_unknown += 1
                    v, both = True, True
                    self.alternatives.append(self.trace + [(False, True)])
            STATS.branches += 1
        self.trace = self.trace + [(v, both)]
        if both:
            self.pc.append(e if v else z3.Not(e))
        self.memo[k] = (v, s)
        self.memo[("b", kn.get_id())] = (not v, kn)
        return v

    # -- functions with definitional axioms
    def sqrt(self, x, nonneg=False):
        """nonneg: the argument is a sum of squares."""
        nonneg = nonneg or (all(p % 2 == 0 for _, p in x.d) and syn_nonneg(x.n))
        n = z3.simplify(x.n, som=True, sort_sums=True)
        k = ("sqrt", n.get_id(), x.d)
        if k in self.memo:
            return self.memo[k][0]
        # perfect-square shortcut: sqrt(t*t) handled by the axiom below
        if not nonneg and self.decide(x.cmp(0, "lt")):
            out = float("nan")
        else:
            out = self.fresh_var("sqrt")
            self.define(out.n >= 0)
            lhs = out.n * out.n
            if x.d:
                lhs = lhs * d_expr(x.d)
            self.define(lhs == x.n)
        self.memo[k] = (out, n)
        return out

    def root(self, x, b):
        """Principal b-th root; nan for negative arguments like numpy."""
        n = z3.simplify(x.n, som=True, sort_sums=True)
        k = ("root", b, n.get_id(), x.d)
        if k in self.memo:
            return self.memo[k][0]
        if not (all(p % 2 == 0 for _, p in x.d) and syn_nonneg(x.n)) and self.decide(x.cmp(0, "lt")):
            out = float("nan")
        else:
            out = self.fresh_var("root")
            self.define(out.n >= 0)
            lhs = out.n
            for _ in range(b - 1):
                lhs = lhs * out.n
            if x.d:
                lhs = lhs * d_expr(x.d)
            self.define(lhs == x.n)
        self.memo[k] = (out, n)
        return out


def syn_nonneg(e, depth=12):
    """Syntactically non-negative: sums and products of squares."""
    if z3.is_rational_value(e):
        return e.numerator_as_long() >= 0
    if depth == 0 or not z3.is_app(e):
        return False
    k = e.decl().kind()
    if k == z3.Z3_OP_ADD:
        return all(syn_nonneg(a, depth - 1) for a in e.children())
    if k == z3.Z3_OP_MUL:
        fs, todo = [], list(e.children())
        while todo:
            a = todo.pop()
            if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_MUL:
                todo.extend(a.children())
            else:
                fs.append(a)
        n = {}
        for a in fs:
            n.setdefault(a.get_id(), [a, 0])[1] += 1
        return all(m % 2 == 0 or syn_nonneg(a, depth - 1) for a, m in n.values())
    if k == z3.Z3_OP_POWER:
        a, b = e.children()
        return z3.is_rational_value(b) and b.denominator_as_long() == 1 and b.numerator_as_long() % 2 == 0
    if k == z3.Z3_OP_ITE:
        return syn_nonneg(e.arg(1), depth - 1) and syn_nonneg(e.arg(2), depth - 1)
    return False


class activate:
    def __init__(self, c):
        self.c = c

    def __enter__(self):
        global CTX
        self.old = CTX
        CTX = self.c
        return self.c

    def __exit__(self, *a):
        global CTX
        CTX = self.old
