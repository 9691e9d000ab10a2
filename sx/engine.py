"""Path-exploring symbolic execution engine with z3 as the deciding solver.

One ``Engine`` explores one harness case.  Symbolic values (``SymReal``,
``SymBool``, ``SymName``) flow through the *real* repository code; whenever
the code needs a truth value the engine asks z3 which outcomes are feasible
under the current path condition and explores each of them by re-execution.
Assertions (``check``/``check_eq``) become solver queries at the end of each
path.
"""
import gc
import math
import random
import time
from fractions import Fraction

import z3

from . import poly as P

CURRENT = None  # the engine whose path is being executed


class Unsupported(Exception):
    """An operation the symbolic encoding does not cover."""


class PathInfeasible(BaseException):
    """Raised to abandon a path (assumption contradicts path condition)."""


class PathLimit(BaseException):
    """Raised when a bound of the exploration is exceeded on this path."""


class AssumeFailed(BaseException):
    """Concrete mode: generated input outside the assumed domain."""


def engine():
    if CURRENT is None:
        raise RuntimeError("no active symbolic path")
    return CURRENT


# --------------------------------------------------------------------------
# numbers


def to_exact(x):
    """Concrete number -> exact rational (int/Fraction)."""
    if type(x) is int:
        return x
    if isinstance(x, Fraction):
        return P._norm(x)
    if isinstance(x, bool):
        return int(x)
    try:
        import numpy as np

        if isinstance(x, np.integer):
            return int(x)
        if isinstance(x, np.bool_):
            return int(x)
    except ImportError:
        pass
    f = float(x)
    if f != f or f in (math.inf, -math.inf):
        raise OverflowError("non-finite")
    return P._norm(Fraction(f))


NUMERIC = (int, float, Fraction)


def is_number(x):
    if isinstance(x, NUMERIC):
        return True
    import numpy as np

    return isinstance(x, (np.integer, np.floating, np.bool_))


class SymReal:
    """num / prod(f**e) with polynomial num and canonical factors f."""

    __slots__ = ("num", "den")

    def __init__(self, num, den=()):
        self.num = num
        self.den = den

    # -- helpers
    @staticmethod
    def lift(x):
        if isinstance(x, SymReal):
            return x
        return SymReal(P.const(to_exact(x)))

    def is_const(self):
        return not self.den and P.is_const(self.num)

    def const_value(self):
        return P.const_value(self.num)

    def key(self):
        return (P.key(self.num), self.den)

    # -- arithmetic
    def __add__(self, o):
        return _bin(_add, self, o)

    def __radd__(self, o):
        return _bin(_add, o, self)

    def __sub__(self, o):
        return _bin(_sub, self, o)

    def __rsub__(self, o):
        return _bin(_sub, o, self)

    def __mul__(self, o):
        return _bin(_mul, self, o)

    def __rmul__(self, o):
        return _bin(_mul, o, self)

    def __truediv__(self, o):
        return _bin(_div, self, o)

    def __rtruediv__(self, o):
        return _bin(_div, o, self)

    def __neg__(self):
        return SymReal(P.neg(self.num), self.den)

    def __pos__(self):
        return self

    def __pow__(self, n):
        if isinstance(n, SymReal) and n.is_const():
            n = n.const_value()
        if is_number(n):
            if n == 0.5:
                return self.sqrt()
            if float(n) == int(n):
                n = int(n)
                if n < 0:
                    return _div(SymReal(P.ONE), self ** (-n))
                r = SymReal(P.ONE)
                for _ in range(n):
                    r = r * self
                return r
        raise Unsupported(f"power {n}")

    def __rpow__(self, o):
        raise Unsupported("symbolic exponent")

    def __floordiv__(self, o):
        return math_floor(_div(self, SymReal.lift(o)))

    def __rfloordiv__(self, o):
        return math_floor(_div(SymReal.lift(o), self))

    def __mod__(self, o):
        return self - (self // o) * o

    def __abs__(self):
        if self.is_const():
            return SymReal(P.const(abs(self.const_value())))
        return self if (self >= 0) else -self

    # -- comparisons
    def __lt__(self, o):
        return _cmp("<", self, o)

    def __le__(self, o):
        return _cmp("<=", self, o)

    def __gt__(self, o):
        return _cmp(">", self, o)

    def __ge__(self, o):
        return _cmp(">=", self, o)

    def __eq__(self, o):
        return _cmp("==", self, o)

    def __ne__(self, o):
        return _cmp("!=", self, o)

    def __hash__(self):
        return 7

    def __bool__(self):
        return bool(self != 0)

    # -- conversions
    def __float__(self):
        if self.is_const():
            return float(self.const_value())
        return float(engine().concretize(self))

    def __int__(self):
        if self.is_const():
            return int(self.const_value())
        return int(engine().concretize(self))

    def __index__(self):
        if self.is_const() and isinstance(self.const_value(), int):
            return self.const_value()
        raise TypeError("'float' object cannot be interpreted as an integer")

    def __round__(self, n=None):
        if self.is_const():
            return round(float(self.const_value()), n)
        return round(float(engine().concretize(self)), n)

    def __repr__(self):
        if self.is_const():
            return repr(float(self.const_value()))
        try:
            return f"<sym {show(self)}>"
        except Exception:
            return "<sym>"

    def __format__(self, spec):
        return repr(self)

    # -- methods numpy's object loops look for
    def conjugate(self):
        return self

    conj = conjugate

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return SymReal(P.ZERO)

    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()

    @property
    def size(self):
        return 1

    @property
    def T(self):
        return self

    @property
    def dtype(self):
        import numpy as np

        return np.dtype(float)

    def astype(self, t, copy=True):
        return _scalar_astype(self, t)

    def item(self):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def sqrt(self):
        return engine().sqrt(self)

    def cos(self):
        return engine().cos(self)

    def sin(self):
        return engine().sin(self)

    def floor(self):
        return math_floor(self)

    def __divmod__(self, o):
        return self // o, self % o

    def __floor__(self):
        return math_floor(self)

    def __ceil__(self):
        return -math_floor(-self)

    def is_integer(self):
        return bool(math_floor(self) == self)


def _scalar_astype(x, t):
    import numpy as np

    if t in (float, np.float64, object, "float", "float64", np.float32):
        return x
    if t is int or t == "int":
        return int(x)
    if t is bool:
        return bool(x)
    try:
        if np.issubdtype(t, np.floating):
            return x
    except TypeError:
        pass
    raise Unsupported(f"astype {t}")


def math_floor(x):
    if isinstance(x, SymReal) and x.is_const():
        return SymReal(P.const(math.floor(x.const_value())))
    return engine().floor(x)


def _special(x):
    """True if x is a non-finite concrete float."""
    return isinstance(x, float) and (x != x or x in (math.inf, -math.inf))


def _bin(f, a, b):
    for x in (a, b):
        if isinstance(x, SymReal):
            continue
        if not is_number(x):
            return NotImplemented
        x = float(x) if not isinstance(x, Fraction) else x
        if _special(x):
            return _nonfinite(f, a, b)
    return f(SymReal.lift(a), SymReal.lift(b))


def _nonfinite(f, a, b):
    def fin(x):
        if not isinstance(x, SymReal):
            return float(x)
        if x.is_const():
            return float(x.const_value())
        return None

    fa, fb = fin(a), fin(b)
    if (fa is not None and fa != fa) or (fb is not None and fb != fb):
        return math.nan
    if f is _add:
        return fa if fa is not None and _special(fa) else fb
    if f is _sub:
        return fa if fa is not None and _special(fa) else -fb
    if f is _div and fb is not None and _special(fb):
        return SymReal(P.ZERO)
    # inf * symbolic: depends on sign
    s, inf = (a, fb) if fa is None or not _special(fa) else (b, fa)
    if isinstance(s, SymReal):
        if s > 0:
            return inf
        if s < 0:
            return -inf
        return math.nan
    return float(s) * inf


def _merge_den(a, b):
    """lcm of two factored denominators -> (lcm, extra_a, extra_b)."""
    if a == b:
        return a, (), ()
    da, db = dict(a), dict(b)
    keys = sorted(set(da) | set(db))
    l, ea, eb = [], [], []
    for k in keys:
        x, y = da.get(k, 0), db.get(k, 0)
        m = max(x, y)
        l.append((k, m))
        if m > x:
            ea.append((k, m - x))
        if m > y:
            eb.append((k, m - y))
    return tuple(l), tuple(ea), tuple(eb)


def _prod(fs):
    r = P.ONE
    for k, e in fs:
        p = dict(k)
        for _ in range(e):
            r = P.mul(r, p)
    return r


def _mk(num, den):
    if not num:
        return SymReal(P.ZERO)
    if len(num) > 4000 and CURRENT is not None:
        num = CURRENT.reduce(num)
    return SymReal(num, den)


def _add(a, b):
    if a.den == b.den:
        return _mk(P.add(a.num, b.num), a.den)
    l, ea, eb = _merge_den(a.den, b.den)
    return _mk(P.add(P.mul(a.num, _prod(ea)), P.mul(b.num, _prod(eb))), l)


def _sub(a, b):
    return _add(a, SymReal(P.neg(b.num), b.den))


def _mul(a, b):
    if not a.num or not b.num:
        return SymReal(P.ZERO)
    # cheap cancellation of identical factors
    an, ad, bn, bd = a.num, a.den, b.num, b.den
    if ad and not P.is_const(bn):
        bn, ad = _cancel(bn, ad)
    if bd and not P.is_const(an):
        an, bd = _cancel(an, bd)
    if not ad:
        den = bd
    elif not bd:
        den = ad
    else:
        d = dict(ad)
        for k, e in bd:
            d[k] = d.get(k, 0) + e
        den = tuple(sorted(d.items()))
    return _mk(P.mul(an, bn), den)


def _cancel(num, den):
    c, can = P.content(num)
    k = P.key(can)
    for i, (f, e) in enumerate(den):
        if f == k:
            nd = den[:i] + (((f, e - 1),) if e > 1 else ()) + den[i + 1:]
            return P.const(c), nd
    return num, den


def _div(a, b):
    if not isinstance(a, SymReal):
        a = SymReal.lift(a)
    if b.is_const():
        v = b.const_value()
        if v == 0:
            return _div_by_zero(a)
        return SymReal(P.scale(a.num, Fraction(1) / v), a.den)
    eng = engine()
    n = eng.reduce(b.num)
    if P.is_const(n):
        if not n:
            return _div_by_zero(a)
    else:
        if not eng.known_nonzero(n):
            if SymBool(cmp_atom("==", n)):
                return _div_by_zero(a)
            eng.note_nonzero(n)
    if P.is_const(n):
        inv = SymReal(P.const(Fraction(1) / P.const_value(n)))
    else:
        c, can = P.content(n)
        inv = SymReal(P.const(Fraction(1) / c), ((P.key(can), 1),))
    r = _mul(a, inv)
    if b.den:
        r = _mul(r, SymReal(_prod(b.den)))
    return r


def _div_by_zero(a):
    if a.is_const():
        v = a.const_value()
        return math.nan if v == 0 else math.copysign(math.inf, v)
    if a == 0:
        return math.nan
    return math.inf if a > 0 else -math.inf


# --------------------------------------------------------------------------
# formulas:  True | False | ('cmp', op, polykey) | ('and', ...) | ('or', ...)
#            ('not', f) | ('z3', fn_key)


def cmp_atom(op, p):
    """p op 0, canonical."""
    if P.is_const(p):
        c = P.const_value(p)
        return {
            "==": c == 0, "!=": c != 0, "<": c < 0, "<=": c <= 0,
        }[op]
    if op in ("==", "!="):
        _, p = P.content(p)
    else:
        c, can = P.content(p)
        p = can if c > 0 else P.neg(can)
    return ("cmp", op, P.key(p))


def f_not(f):
    if f is True:
        return False
    if f is False:
        return True
    if f[0] == "not":
        return f[1]
    if f[0] == "cmp":
        op, k = f[1], f[2]
        if op == "==":
            return ("cmp", "!=", k)
        if op == "!=":
            return ("cmp", "==", k)
        # not (p < 0)  <=>  -p <= 0
        nk = P.key(P.neg(dict(k)))
        return ("cmp", "<=" if op == "<" else "<", nk)
    if f[0] == "and":
        return f_or(*[f_not(g) for g in f[1:]])
    if f[0] == "or":
        return f_and(*[f_not(g) for g in f[1:]])
    return ("not", f)


def f_and(*fs):
    out = []
    for f in fs:
        if f is False:
            return False
        if f is True:
            continue
        if f[0] == "and":
            out.extend(f[1:])
        else:
            out.append(f)
    out = list(dict.fromkeys(out))
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return ("and", *out)


def f_or(*fs):
    out = []
    for f in fs:
        if f is True:
            return True
        if f is False:
            continue
        if f[0] == "or":
            out.extend(f[1:])
        else:
            out.append(f)
    out = list(dict.fromkeys(out))
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return ("or", *out)


def _nonlinear(f):
    if f is True or f is False:
        return False
    if f[0] == "cmp":
        return any(len(m) > 1 for m, _ in f[2])
    return any(_nonlinear(g) for g in f[1:])


def f_vars(f):
    if f is True or f is False:
        return frozenset()
    r = _fv_cache.get(f)
    if r is None:
        if f[0] == "cmp":
            s = set()
            for m, _ in f[2]:
                s.update(m)
            r = frozenset(s)
        else:
            r = frozenset().union(*[f_vars(g) for g in f[1:]])
        _fv_cache[f] = r
    return r


_fv_cache = {}


class SymBool:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f

    def __bool__(self):
        f = self.f
        if f is True or f is False:
            return f
        return engine().branch(f)

    def __and__(self, o):
        if isinstance(o, SymBool):
            return mkbool(f_and(self.f, o.f))
        if _isb(o):
            return self if o else False
        return NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, SymBool):
            return mkbool(f_or(self.f, o.f))
        if _isb(o):
            return True if o else self
        return NotImplemented

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, SymBool):
            return mkbool(
                f_or(f_and(self.f, f_not(o.f)), f_and(f_not(self.f), o.f))
            )
        if _isb(o):
            return ~self if o else self
        return NotImplemented

    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(f_not(self.f))

    def __eq__(self, o):
        if _isb(o):
            return self if o else ~self
        if isinstance(o, SymBool):
            return ~(self ^ o)
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return ~r if isinstance(r, SymBool) else not r

    def __hash__(self):
        return 11

    # arithmetic on booleans (sum of mask etc.)
    def _num(self):
        return int(bool(self))

    def __add__(self, o):
        return self._num() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self._num() * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return self._num() - o

    def __rsub__(self, o):
        return o - self._num()

    def __int__(self):
        return self._num()

    def __index__(self):
        return self._num()

    def __float__(self):
        return float(self._num())

    def any(self, *a, **k):
        return self

    all = any

    def item(self):
        return self

    def __repr__(self):
        return "<symbool>"


def _isb(o):
    import numpy as np

    return isinstance(o, (bool, np.bool_))


def mkbool(f):
    if f is True or f is False:
        return f
    return SymBool(f)


def _cmp(op, a, b):
    for x in (a, b):
        if isinstance(x, SymReal):
            continue
        if not is_number(x):
            return NotImplemented
        if not isinstance(x, Fraction) and _special(float(x)):
            x = float(x)
            if x != x:
                return op == "!="
            if op == "==":
                return False
            if op == "!=":
                return True
            # is a < b ?
            less = (x > 0) if isinstance(a, SymReal) else (x < 0)
            return less if op in ("<", "<=") else not less
    return mkbool(cmp_formula(op, SymReal.lift(a), SymReal.lift(b)))


def cmp_formula(op, a, b):
    if op == ">":
        op, a, b = "<", b, a
    elif op == ">=":
        op, a, b = "<=", b, a
    d = _sub(a, b)
    if d.is_const():
        return cmp_atom(op, d.num)
    num = d.num
    eng = engine()
    if op in ("<", "<="):
        for k, e in d.den:
            if e % 2 and not eng.known_positive(k):
                num = P.mul(num, dict(k))
    num = eng.reduce(num)
    return cmp_atom(op, num)


# --------------------------------------------------------------------------
# symbolic names (registry keys): equality decided by the solver


class SymName(str):
    """A string whose identity is a solver variable.

    Two names are the same string iff their integer codes are equal; the
    text carried by the ``str`` base is only used in messages.
    """

    def __new__(cls, text, code):
        s = super().__new__(cls, text)
        s.code = code
        return s

    def __eq__(self, o):
        if self is o:
            return True
        if isinstance(o, SymName):
            if CURRENT is None or CURRENT.quiet:
                # destructors of a finished path
                return False
            return bool(_cmp("==", self.code, o.code))
        return False

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        return 13

    def __deepcopy__(self, memo):
        return self


# --------------------------------------------------------------------------


class Var:
    __slots__ = ("id", "name", "kind", "axioms", "z", "dom")

    def __init__(self, id, name, kind):
        self.id = id
        self.name = name
        self.kind = kind  # input | atom
        self.axioms = []
        self.z = z3.Real(f"v{id}")
        self.dom = None


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.obligations = 0
        self.discharged = 0
        self.undecided = 0
        self.concretized = 0
        self.decisions = 0
        self.paths = 0
        self.infeasible = 0
        self.lemmas = 0
        self.cex = 0
        self.limit = 0
        self.unsupported = 0

    def as_dict(self):
        return dict(self.__dict__)


class Obligation:
    __slots__ = ("name", "formula", "kind", "note")

    def __init__(self, name, formula, kind, note=None):
        self.name = name
        self.formula = formula
        self.kind = kind
        self.note = note


class Engine:
    FEAS_TIMEOUT = 2000
    OBL_TIMEOUT = 8000

    def __init__(self, seed=1, max_paths=100000, deadline=None):
        self.seed = seed
        self.stats = Stats()
        self.max_paths = max_paths
        self.deadline = deadline
        self.vars = []
        self.by_name = {}
        self.intvars = set()
        self.grules = {}  # global rewrite rules var -> (deg, rhs)
        self.pairs = {}  # product of two variables -> polynomial
        self.pairvars = set()
        self.rel_ax = {}  # var -> poly (== 0) backing the rewrite rule
        self.feas_cache = {}
        self.obl_cache = {}
        self.lemma_cache = set()
        self.lemma_queue = []
        self._nf_global = {}
        self._nf = self._nf_global
        self.prules = {}
        self.quiet = False
        self.rules = {}
        self.samples = []
        self.cex = []
        self.undecided = []
        self.notes = {}
        self.units = {}
        self.atom_angle = {}
        self.cfalse = z3.BoolVal(False)
        self._reset_path([])

    # -- variables -----------------------------------------------------
    def newvar(self, name, kind="input"):
        v = self.by_name.get(name)
        if v is None:
            v = Var(len(self.vars), name, kind)
            self.vars.append(v)
            self.by_name[name] = v
        return v

    def sym(self, v):
        return SymReal(P.var(v.id))

    def real(self, name, kind="input"):
        new = name not in self.by_name
        v = self.newvar(name, kind)
        if kind == "input":
            self.touch(v)
        return self.sym(v)

    def integer(self, name):
        """Input that is a whole number (any real in the encoding, a
        superset; whole in the candidates to be replayed)."""
        r = self.real(name)
        self.intvars.add(self.by_name[name].id)
        return r

    def touch(self, v):
        if v.id not in self.path_inputs_set:
            self.path_inputs_set.add(v.id)
            self.path_inputs.append(v.id)

    def add_axiom(self, v, f):
        if f is True:
            return
        if f not in v.axioms:
            v.axioms.append(f)

    def add_rule(self, v, deg, rhs):
        """v**deg -> rhs, sound because of an axiom v**deg == rhs."""
        if v.id in self.grules:
            return
        self.flush_lemmas()
        self.grules[v.id] = (deg, rhs)
        m = (v.id,) * deg
        self.rel_ax[v.id] = P.sub({m: 1}, rhs)
        self.add_axiom(v, cmp_atom("==", self.rel_ax[v.id]))
        self.rules = {**self.grules, **self.prules}

    def unit_group(self, names, kind="input"):
        """Variables with squares summing to one (rule on the first one)."""
        known = names[0] in self.by_name
        vs = [self.newvar(n, kind) for n in reversed(names)][::-1]
        if kind == "input":
            for v in vs:
                self.touch(v)
        if not known:
            rhs = P.ONE
            for v in vs[1:]:
                rhs = P.sub(rhs, {(v.id, v.id): 1})
            self.add_rule(vs[0], 2, rhs)
            # the relation constrains every member of the group
            ax = cmp_atom("==", self.rel_ax[vs[0].id])
            for v in vs[1:]:
                self.add_axiom(v, ax)
            for v in vs:
                v.dom = ("unit", tuple(x.id for x in vs))
        return [self.sym(v) for v in vs]

    # -- rewriting -----------------------------------------------------
    def _step_rule(self, m):
        rules = self.rules
        if self.pairvars and len(m) > 1:
            pv = [v for v in m if v in self.pairvars]
            for i in range(len(pv) - 1):
                for j in range(i + 1, len(pv)):
                    r = self.pairs.get((pv[i], pv[j]))
                    if r is not None:
                        rest = list(m)
                        rest.remove(pv[i])
                        rest.remove(pv[j])
                        return (pv[i], pv[j]), tuple(rest), r
        for i in range(len(m) - 1, -1, -1):
            v = m[i]
            r = rules.get(v)
            if r is None:
                continue
            if r[0] == 1:
                return v, m[:i] + m[i + 1:], r[1]
            if i and m[i - 1] == v:
                return v, m[:i - 1] + m[i + 1:], r[1]
        return None

    def reduce(self, p, cert=False):
        """Normal form modulo the rewrite rules.

        Every monomial normal form used is certified by z3 (see
        ``flush_lemmas``) before any obligation of the path is decided.
        """
        if P.is_const(p):
            return p
        nf = self._nf
        out = None
        for m in p:
            if m not in nf:
                self._normal(m)
        for m in p:
            if nf[m] is not None:
                out = {}
                break
        if out is None:
            return p
        for m, c in p.items():
            t = nf[m]
            if t is None:
                out[m] = out.get(m, 0) + c
            else:
                for m2, c2 in t.items():
                    out[m2] = out.get(m2, 0) + c * c2
        return {m: P._norm(c) for m, c in out.items() if c != 0}

    def _normal(self, m):
        """Fill the memo of normal forms for monomial m (None: itself)."""
        nf = self._nf
        s = self._step_rule(m)
        if s is None:
            nf[m] = None
            return
        v, rest, rhs = s
        r = {}
        cof = {v: {rest: 1}}
        for m2, c2 in rhs.items():
            mm = tuple(sorted(rest + m2)) if rest and m2 else (rest or m2)
            if mm not in nf:
                self._normal(mm)
            t = nf[mm]
            if t is None:
                r[mm] = r.get(mm, 0) + c2
            else:
                for m3, c3 in t.items():
                    r[m3] = r.get(m3, 0) + c2 * c3
        r = {k: P._norm(c) for k, c in r.items() if c != 0}
        nf[m] = r
        self.lemma_queue.append((m, v, rest, {
            (tuple(sorted(rest + m2)) if rest and m2 else (rest or m2)): c2
            for m2, c2 in rhs.items()}, r))

    def _rules_changed(self):
        self.flush_lemmas()
        self._nf = {} if self.prules else self._nf_global

    def flush_lemmas(self):
        """z3 certifies the queued rewrite steps.

        Each step claims  m == rest*rhs  because  lead == rhs  (lead being
        the rule's left side), and that the recorded normal form is rest*rhs
        with already certified normal forms substituted in.
        """
        q, self.lemma_queue = self.lemma_queue, []
        todo = []
        for m, v, rest, mid, r in q:
            k = (m, P.key(mid), P.key(r))
            if k in self.lemma_cache:
                continue
            self.lemma_cache.add(k)
            todo.append((m, v, rest, mid, r))
        for i in range(0, len(todo), 200):
            self._certify(todo[i:i + 200])

    def _certify(self, batch):
        bad = []
        vs = set()
        ps = self.spoly
        for m, v, rest, mid, r in batch:
            if isinstance(v, tuple):
                lead, rhs = v, self.pairs[v]
            else:
                deg, rhs = self.rules[v]
                lead = (v,) * deg
            vs.update(m)
            for q in (mid, rhs, r):
                for k in q:
                    vs.update(k)
            # m - mid == rest * (lead - rhs)
            bad.append(f"(not (= (- {ps({m: 1})} {ps(mid)}) (* "
                       f"{ps({rest: 1})} (- {ps({lead: 1})} {ps(rhs)}))))")
            # the normal form is mid with normal forms substituted
            sub = []
            for m2, c2 in mid.items():
                t = self._nf.get(m2)
                q = {m2: c2} if t is None else P.scale(t, c2)
                for k in q:
                    vs.update(k)
                sub.append(ps(q))
            bad.append(f"(not (= {ps(r)} (+ 0.0 0.0 {' '.join(sub)})))")
        txt = "".join(f"(declare-const v{i} Real)" for i in sorted(vs))
        txt += "(assert (or " + " ".join(bad) + "))"
        t0 = time.time()
        fs = z3.parse_smt2_string(txt)
        g = z3.simplify(fs[0], som=True)
        s = z3.Solver()
        s.set("timeout", 60000)
        s.add(g)
        res = s.check()
        self.stats.solver_s += time.time() - t0
        self.stats.queries += 1
        self.stats.lemmas += len(batch)
        if res != z3.unsat:
            raise AssertionError(f"rewrite certificate rejected: {res}")

    def spoly(self, p):
        if not p:
            return "0.0"
        ts = []
        for m, c in p.items():
            if isinstance(c, int):
                zc = f"{c}.0" if c >= 0 else f"(- {-c}.0)"
            else:
                n, d = c.numerator, c.denominator
                zc = f"(/ {abs(n)}.0 {d}.0)"
                if n < 0:
                    zc = f"(- {zc})"
            if m:
                vs = " ".join(f"v{i}" for i in m)
                if c == 1:
                    ts.append(vs if len(m) == 1 else f"(* {vs})")
                else:
                    ts.append(f"(* {zc} {vs})")
            else:
                ts.append(zc)
        return ts[0] if len(ts) == 1 else "(+ " + " ".join(ts) + ")"

    def add_rotation_rules(self, q, M):
        """rot(q) == M for a unit quaternion q and a proper rotation M."""
        ids = [next(iter(c.num))[0] for c in q]
        w, x, y, z = ids
        one = SymReal(P.ONE)
        t = M[0][0] + M[1][1] + M[2][2]
        quarter = Fraction(1, 4)
        prods = {
            (w, w): (one + t) * quarter,
            (x, x): (one + M[0][0] * 2 - t) * quarter,
            (y, y): (one + M[1][1] * 2 - t) * quarter,
            (z, z): (one + M[2][2] * 2 - t) * quarter,
            (w, x): (M[2][1] - M[1][2]) * quarter,
            (w, y): (M[0][2] - M[2][0]) * quarter,
            (w, z): (M[1][0] - M[0][1]) * quarter,
            (x, y): (M[0][1] + M[1][0]) * quarter,
            (x, z): (M[0][2] + M[2][0]) * quarter,
            (y, z): (M[1][2] + M[2][1]) * quarter,
        }
        for k, v in prods.items():
            k = tuple(sorted(k))
            if v.den:
                raise Unsupported("rotation matrix with denominators")
            if k not in self.pairs:
                self.pairs[k] = self.reduce(v.num)
                ax = cmp_atom("==", P.sub({k: 1}, self.pairs[k]))
                for i in set(k):
                    self.add_axiom(self.vars[i], ax)
        self.pairvars.update(ids)

    # -- known signs ---------------------------------------------------
    def known_positive(self, k):
        return k in self.positive

    def note_positive(self, p):
        c, can = P.content(p)
        if c > 0:
            self.positive.add(P.key(can))
        self.nonzero.add(P.key(can))

    def note_nonzero(self, p):
        _, can = P.content(p)
        self.nonzero.add(P.key(can))

    def known_nonzero(self, p):
        _, can = P.content(p)
        return P.key(can) in self.nonzero

    # -- z3 encoding ---------------------------------------------------
    def zpoly(self, p):
        if not p:
            return z3.RealVal(0)
        ts = []
        for m, c in p.items():
            if isinstance(c, int):
                zc = z3.RealVal(c)
            else:
                zc = z3.Q(c.numerator, c.denominator)
            t = zc
            first = True
            for v in m:
                zv = self.vars[v].z
                if first and c == 1:
                    t = zv
                else:
                    t = t * zv
                first = False
            ts.append(t)
        return ts[0] if len(ts) == 1 else z3.Sum(ts)

    def zf(self, f):
        if f is True:
            return z3.BoolVal(True)
        if f is False:
            return z3.BoolVal(False)
        r = self._zcache.get(f)
        if r is not None:
            return r
        if f[0] == "cmp":
            e = self.zpoly(dict(f[2]))
            op = f[1]
            r = {
                "==": lambda: e == 0,
                "!=": lambda: e != 0,
                "<": lambda: e < 0,
                "<=": lambda: e <= 0,
            }[op]()
        elif f[0] == "and":
            r = z3.And([self.zf(g) for g in f[1:]])
        elif f[0] == "or":
            r = z3.Or([self.zf(g) for g in f[1:]])
        elif f[0] == "not":
            r = z3.Not(self.zf(f[1]))
        else:
            raise AssertionError(f)
        self._zcache[f] = r
        return r

    def slice_(self, seed_vars, pc=None):
        """Formulas of pc and axioms connected to the seed variables."""
        pc = self.pc if pc is None else pc
        want = set(seed_vars)
        out = []
        used = set()
        ax_done = set()
        changed = True
        while changed:
            changed = False
            for v in list(want):
                if v in ax_done:
                    continue
                ax_done.add(v)
                for a in self.vars[v].axioms:
                    if a not in used:
                        used.add(a)
                        out.append(a)
                        nv = f_vars(a) - want
                        if nv:
                            want |= nv
                            changed = True
            for i, f in enumerate(pc):
                if f in used:
                    continue
                fv = f_vars(f)
                if fv & want:
                    used.add(f)
                    out.append(f)
                    if fv - want:
                        want |= fv
                        changed = True
        return out, want

    def z3check(self, fs, timeout, want_model=False, extra=()):
        s = z3.Solver()
        s.set("timeout", int(timeout))
        s.set("random_seed", self.seed)
        for f in fs:
            s.add(self.zf(f))
        for e in extra:
            s.add(e)
        t0 = time.time()
        r = s.check()
        self.stats.solver_s += time.time() - t0
        self.stats.queries += 1
        if r == z3.unknown:
            self.stats.unknown += 1
            return "unknown", None
        if r == z3.unsat:
            return "unsat", None
        return "sat", (s.model() if want_model else None)

    def zlin(self, f):
        """f with every nonlinear monomial as an unknown of its own."""
        if f is True or f is False:
            return z3.BoolVal(f)
        r = self._lcache.get(f)
        if r is not None:
            return r
        if f[0] == "cmp":
            ts = []
            for m, c in f[2]:
                zc = z3.RealVal(c) if isinstance(c, int) else z3.Q(
                    c.numerator, c.denominator)
                if not m:
                    ts.append(zc)
                elif len(m) == 1:
                    ts.append(zc * self.vars[m[0]].z)
                else:
                    ts.append(zc * z3.Real("m" + "_".join(map(str, m))))
            e = ts[0] if len(ts) == 1 else z3.Sum(ts)
            r = {"==": lambda: e == 0, "!=": lambda: e != 0,
                 "<": lambda: e < 0, "<=": lambda: e <= 0}[f[1]]()
        elif f[0] == "and":
            r = z3.And([self.zlin(g) for g in f[1:]])
        elif f[0] == "or":
            r = z3.Or([self.zlin(g) for g in f[1:]])
        else:
            r = z3.Not(self.zlin(f[1]))
        self._lcache[f] = r
        return r

    def linear_unsat(self, fs, timeout=400):
        """Unsatisfiable already as linear arithmetic over monomials?"""
        if not any(_nonlinear(f) for f in fs):
            return False
        s = z3.SolverFor("QF_LRA")
        s.set("timeout", timeout)
        s.set("random_seed", self.seed)
        for f in fs:
            s.add(self.zlin(f))
        t0 = time.time()
        r = s.check()
        self.stats.solver_s += time.time() - t0
        self.stats.queries += 1
        return r == z3.unsat

    def feasible(self, f):
        """Is pc ∧ f satisfiable?  (True | False | None for unknown)"""
        if f is True:
            return True
        if f is False:
            return False
        fs, _ = self.slice_(f_vars(f))
        k = (frozenset(fs), f)
        hit = self.feas_cache.get(k)
        if hit is not None:
            return {"sat": True, "unsat": False, "unknown": None}[hit]
        if "soft" in self.notes and self.linear_unsat(fs + [f]):
            r = "unsat"
        else:
            r, _ = self.z3check(fs + [f], self.FEAS_TIMEOUT)
        self.feas_cache[k] = r
        return {"sat": True, "unsat": False, "unknown": None}[r]

    # -- path control --------------------------------------------------
    def _reset_path(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.pc = []
        self.pcset = set()
        self.flush_lemmas()
        self.prules = {}
        self.rules = dict(self.grules)
        self._nf = self._nf_global
        self.obligations = []
        self.positive = set()
        self.nonzero = set()
        self.path_inputs = []
        self.path_inputs_set = set()
        self.choices = {}
        self.path_notes = []
        self.concretized = False
        self.fresh = {}
        if not hasattr(self, "_zcache"):
            self._zcache = {}
            self._lcache = {}

    def fresh_name(self, base):
        n = self.fresh.get(base, 0)
        self.fresh[base] = n + 1
        return f"{base}#{n}"

    def assume_f(self, f):
        """Add f to the path condition (no feasibility check)."""
        if f is True:
            return
        if f is False:
            raise PathInfeasible
        for g in f[1:] if f[0] == "and" else (f,):
            if g in self.pcset:
                continue
            self.pc.append(g)
            self.pcset.add(g)
            self._learn(g)

    def _learn(self, g):
        if g[0] != "cmp":
            return
        op, k = g[1], g[2]
        p = dict(k)
        if op == "<":
            # p < 0  ->  -p positive
            self.note_positive(P.neg(p))
        elif op == "!=":
            self.note_nonzero(p)
        elif op == "==":
            if p and () not in p and all(
                    len(m) % 2 == 0 and len(set(m)) == 1 for m in p) and (
                    all(c > 0 for c in p.values())
                    or all(c < 0 for c in p.values())):
                # even powers adding up to zero are all zero
                for m in p:
                    self.assume_f(cmp_atom("==", P.var(m[0])))
                if len(p) > 1 or len(next(iter(p))) > 1:
                    return
            if len(p) == 1 and len(next(iter(p))) == 1:
                # a vanishing root: its radicand vanishes
                v = next(iter(p))[0]
                g = self.grules.get(v)
                if g and g[0] == 2 and not self.vars[v].dom:
                    self.assume_f(cmp_atom("==", g[1]))
            # linear in some variable with constant coefficient: new rule
            best = None
            for m in p:
                if len(m) == 1:
                    v = m[0]
                    if all(v not in mm or mm == m for mm in p):
                        if v in self.rules or self.vars[v].dom:
                            continue
                        if best is None or v > best:
                            best = v
            if best is not None:
                c = p[(best,)]
                rest = {m: x for m, x in p.items() if m != (best,)}
                rhs = P.scale(rest, Fraction(-1) / c)
                rhs = self.reduce(rhs)
                if best in P.variables(rhs) or self._reaches(rhs, best):
                    return
                # substitute into existing path rules
                self.flush_lemmas()
                self.prules[best] = (1, rhs)
                self.rules = {**self.grules, **self.prules}
                self._rules_changed()
                for v, (d, r) in list(self.prules.items()):
                    if v != best and best in P.variables(r):
                        nr = self.reduce(r)
                        self.flush_lemmas()
                        self.prules[v] = (d, nr)
                self.rules = {**self.grules, **self.prules}
                self._rules_changed()

    def _reaches(self, p, target):
        """Could rewriting p bring up the target variable?"""
        todo = list(P.variables(p))
        seen = set(todo)
        while todo:
            v = todo.pop()
            if v == target:
                return True
            nxt = []
            if v in self.rules:
                nxt.append(self.rules[v][1])
            if v in self.pairvars:
                nxt += [r for k, r in self.pairs.items() if v in k]
            for q in nxt:
                for u in P.variables(q):
                    if u not in seen:
                        seen.add(u)
                        todo.append(u)
        return False

    def add_pair(self, a, b, rhs):
        """a * b -> rhs, for variables a, b (an axiom of both)."""
        k = tuple(sorted((a, b)))
        if k in self.pairs:
            return
        rhs = self.reduce(rhs)
        if self._reaches(rhs, a) or self._reaches(rhs, b):
            return
        self.flush_lemmas()
        self.pairs[k] = rhs
        self.pairvars.update(k)
        self._nf_global.clear()
        self._nf = {} if self.prules else self._nf_global

    def branch(self, f):
        if self.prules:
            f = self._simplify(f)
            if f is True or f is False:
                return f
        if f in self.pcset:
            return True
        nf = f_not(f)
        if nf in self.pcset:
            return False
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(d)
            self.assume_f(f if d[1] else nf)
            return d[1]
        if self.deadline and time.time() > self.deadline:
            raise PathLimit("deadline")
        self.stats.decisions += 1
        ft = self.feasible(f)
        ff = True if ft is False else self.feasible(nf)
        if ft is False and ff is False:
            raise PathInfeasible
        val = ft is not False
        if ft is not False and ff is not False:
            self.worklist.append(self.trace + [("b", False)])
        self.trace.append(("b", val))
        self.pos += 1
        self.prefix = self.trace[:]  # keep in step
        self.assume_f(f if val else nf)
        return val

    def _simplify(self, f):
        if f is True or f is False:
            return f
        if f[0] == "cmp":
            p = dict(f[2])
            if any(v in self.prules for m in p for v in m):
                return cmp_atom(f[1], self.reduce(p))
            return f
        if f[0] == "and":
            return f_and(*[self._simplify(g) for g in f[1:]])
        if f[0] == "or":
            return f_or(*[self._simplify(g) for g in f[1:]])
        return f

    def choose(self, name, options):
        """Exhaustive case split over a finite list."""
        options = list(options)
        if name in self.choices:
            return options[self.choices[name]]
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            i = d[1]
        else:
            i = 0
            for j in range(len(options) - 1, 0, -1):
                self.worklist.append(self.trace + [("c", j)])
            d = ("c", 0)
            self.pos += 1
        self.trace.append(d)
        if self.pos >= len(self.prefix):
            self.prefix = self.trace[:]
        self.choices[name] = i
        return options[i]

    def concretize(self, x):
        """Solver-chosen value (incomplete: recorded)."""
        self.stats.concretized += 1
        self.concretized = True
        num = x.num
        vs = set(P.variables(num))
        for k, _ in x.den:
            for m, _c in k:
                vs.update(m)
        rng = random.Random(self.seed + len(self.trace))
        # fix every involved variable
        fs, want = self.slice_(vs)
        m = self._sample_model(fs, want, rng, None)
        if m is None:
            raise PathLimit("cannot concretize")
        for v in sorted(vs):
            val = m.get(v)
            if val is None:
                continue
            self.assume_f(cmp_atom("==", P.sub(P.var(v), P.const(val))))
        val = P.evaluate(num, m) / Fraction(P.evaluate(_prod(x.den), m))
        return val

    # -- exploration ---------------------------------------------------
    def explore(self, fn):
        """Run fn(self) over every feasible path."""
        global CURRENT
        self.worklist = [[]]
        # destructors run at fixed points only: paths are re-executed
        gc.collect()
        gc.freeze()
        gc.disable()
        n = 0
        while self.worklist:
            n += 1
            if n % 64 == 0:
                gc.collect()
            self.quiet = False
            if self.stop is not None and self.stop(self):
                self.stats.limit += len(self.worklist)
                self.notes["limit"] = "stopped after violations"
                break
            if self.stats.paths >= self.max_paths or (
                self.deadline and time.time() > self.deadline
            ):
                self.stats.limit += len(self.worklist)
                self.notes["limit"] = "path/time limit reached"
                break
            prefix = self.worklist.pop()
            self._reset_path(prefix)
            prev, CURRENT = CURRENT, self
            try:
                try:
                    fn(self)
                except PathInfeasible:
                    self.stats.infeasible += 1
                    continue
                except PathLimit as e:
                    self.stats.limit += 1
                    self.notes.setdefault("path_limit", str(e))
                    continue
                self.quiet = True
                self.stats.paths += 1
                self.finish_path()
            finally:
                CURRENT = prev
        gc.enable()
        gc.unfreeze()

    def finish_path(self):
        self.flush_lemmas()
        for ob in self.obligations:
            self.discharge(ob)
        if len(self.samples) < 3:
            self.samples.append(
                {
                    "choices": dict(self.choice_values()),
                    "path_condition": [show_formula(self, f) for f in
                                       self.pc[:12]],
                    "obligations": [o.name for o in self.obligations[:12]],
                }
            )

    def choice_values(self):
        return {k: v for k, v in self.choices.items()}

    # -- obligations ---------------------------------------------------
    def oblige(self, name, f, kind="bool", note=None):
        self.stats.obligations += 1
        self.obligations.append(Obligation(name, f, kind, note))

    def discharge(self, ob):
        f = self._simplify(ob.formula) if self.prules else ob.formula
        self.flush_lemmas()
        neg = f_not(f)
        if neg is False:
            # constant-folded; still confirmed by the solver below
            pass
        if neg is True:
            # fails on every input of this path: need a model of the path
            self.report(ob, neg)
            return
        fs, want = self.slice_(f_vars(neg)) if neg is not False else ([], ())
        k = (frozenset(fs), neg)
        hit = self.obl_cache.get(k)
        if hit == "unsat":
            self.stats.discharged += 1
            return
        if neg is False:
            r, _ = self.z3check([False], self.OBL_TIMEOUT)
            self.obl_cache[k] = r
            self.stats.discharged += 1
            return
        if self.linear_unsat(fs + [neg]):
            quick = "unsat"
        else:
            quick, _ = self.z3check(fs + [neg], 1500)
        if quick == "unsat":
            self.obl_cache[k] = "unsat"
            self.stats.discharged += 1
            return
        # an identity left over after rewriting is almost surely violated:
        # look for a witness first, then ask for the complete answer
        if self.report(ob, neg, may_fail=True):
            return
        late = self.deadline and time.time() > self.deadline
        r, _ = self.z3check(fs + [neg],
                            1000 if late else self.OBL_TIMEOUT * 3)
        if r == "unsat":
            self.obl_cache[k] = "unsat"
            self.stats.discharged += 1
            return
        self.report(ob, neg)

    def report(self, ob, neg, may_fail=False):
        """Find input values for pc ∧ neg, hand them to the replay hook."""
        sig = (ob.name, tuple(sorted(self.choices.items())))
        if sig in self.notes.setdefault("reported", set()):
            return True
        vs = set()
        for i in self.path_inputs:
            vs.add(i)
        for f in self.pc:
            vs |= f_vars(f)
        vs |= f_vars(neg)
        fs, want = self.slice_(vs)
        late = self.deadline and time.time() > self.deadline
        n_try = (1 if late else 5) if may_fail else (2 if late else 10)
        plan = [(fs if neg is True else fs + [neg], want, k, 1, False)
                for k in range(n_try)]
        if neg is not True:
            # first any inputs of the path, small and large: the replay
            # decides whether they fail
            vp = set(self.path_inputs)
            fp, wp = self.slice_(vp, [f for f in self.pc
                                      if f_vars(f) <= vp])
            plan = [(fp, wp, k, self.SCALES[k % len(self.SCALES)], True)
                    for k in range(6 if may_fail else 12)] + plan
        failed = 0
        for fs, want, attempt, scale, quick in plan:
            rng = random.Random(self.seed * 1000 + attempt)
            if quick and failed >= 2:
                continue
            m = self._sample_model(fs, want, rng, attempt, scale, quick)
            if m is None:
                failed += quick
                continue
            vals = self.input_values(m)
            cand = {
                "obligation": ob.name,
                "choices": self.choice_values(),
                "values": vals,
                "path_condition": [show_formula(self, f) for f in
                                   self.pc[:20]],
                "note": ob.note,
            }
            ok, msg = self.replay(cand) if self.replay else (True, "")
            if ok:
                cand["message"] = msg
                self.stats.cex += 1
                self.cex.append(cand)
                self.notes["reported"].add(sig)
                return True
            cand["message"] = msg
            self.last_failed_replay = cand
        if not may_fail:
            self.stats.undecided += 1
            self.undecided.append(
                {"obligation": ob.name, "choices": self.choice_values(),
                 "replay": getattr(self, "last_failed_replay", {}).get(
                     "message")}
            )
        return False

    replay = None
    stop = None

    def input_values(self, m):
        out = {}
        for i in self.path_inputs:
            v = self.vars[i]
            if i in m:
                out[v.name] = float(m[i])
            c = self.by_name.get("@" + repr(("cos", i)))
            if c is not None and c.id in m:
                sn = self.by_name["@" + repr(("sin", i))]
                out[v.name] = math.atan2(
                    float(m[sn.id]), float(m[c.id])
                ) / float(self.units.get(i, 1))
        return out

    SCALES = (Fraction(1, 10000), 1, Fraction(1, 50), 20)

    def _sample_model(self, fs, want, rng, attempt, scale=1, quick=False):
        """Model of fs over `want`, by solver-completed random seeds."""
        want = set(want)
        inputs = [v for v in sorted(want)
                  if self.vars[v].kind in ("input", "free")]
        pcv = set()
        for f in self.pc:
            pcv |= f_vars(f)
        fixed = {}
        unit_done = set()
        if attempt is None or attempt < 12:
            for v in sorted(want):
                dom = self.vars[v].dom
                if not (dom and dom[0] == "circle") or v in fixed:
                    continue
                ang = dom[2]
                if self.vars[ang].kind != "input" or ang in pcv:
                    continue
                if any(u in pcv for u in dom[1]) and attempt and attempt > 5:
                    continue
                cs = rand_unit(2, rng)
                for u, val in zip(dom[1], cs):
                    fixed[u] = val
                fixed[ang] = Fraction(
                    math.atan2(cs[1], cs[0]) / float(self.units.get(ang, 1))
                ).limit_denominator(10**9)
            for v in inputs:
                if v in fixed:
                    continue
                var = self.vars[v]
                if var.dom and var.dom[0] == "unit":
                    g = var.dom[1]
                    if g in unit_done:
                        continue
                    unit_done.add(g)
                    if any(u in pcv for u in g) and attempt and attempt > 5:
                        continue
                    for u, val in zip(g, rand_unit(len(g), rng)):
                        fixed[u] = val
                elif v in self.intvars:
                    if v not in pcv:
                        fixed[v] = Fraction(rng.randint(-9, 9))
                elif v not in pcv:
                    fixed[v] = Fraction(rng.randint(-40, 40), 8) * scale
        box = []
        for v in inputs:
            if v not in fixed:
                z = self.vars[v].z
                lim = Fraction(100 * scale)
                lim = z3.Q(lim.numerator, lim.denominator)
                box.append(z <= lim)
                box.append(z >= -lim)
                if v in self.intvars:
                    box.append(z3.IsInt(z))
        extra = [self.vars[v].z == z3.Q(x.numerator, x.denominator)
                 if isinstance(x, Fraction) else self.vars[v].z == x
                 for v, x in fixed.items()]
        # spread free order-type variables away from coincidences
        r = "unknown"
        if attempt is not None and attempt % 2 == 0:
            nudges = []
            for v in inputs:
                if v not in fixed and v in pcv:
                    x = Fraction(rng.randint(-20, 20), 4) * scale
                    nudges.append(self.vars[v].z
                                  >= z3.Q(x.numerator, x.denominator))
            if nudges:
                r, m = self.z3check(fs, 400 if quick else 3000, True,
                                    extra + box + nudges)
        if r != "sat":
            r, m = self.z3check(fs, 400 if quick else 4000, True,
                                extra + box)
        if r != "sat" and quick:
            return None
        if r != "sat" and attempt is not None and attempt >= 8:
            r, m = self.z3check(fs, 6000, True, [])
        if r != "sat":
            return None
        out = {}
        for v in want:
            if v in fixed:
                out[v] = fixed[v]
                continue
            out[v] = zval(m.eval(self.vars[v].z, model_completion=True))
        return out

    # -- atoms ---------------------------------------------------------
    numeric_atoms = False

    def atom(self, key):
        """Interned auxiliary variable; returns (var, is_new)."""
        name = "@" + repr(key)
        new = name not in self.by_name
        return self.newvar(name, "atom"), new

    def sqrt(self, x):
        if not isinstance(x, SymReal):
            x = SymReal.lift(x)
        if x.is_const():
            return self._sqrt_const(x.const_value())
        n = self.reduce(x.num)
        if P.is_const(n) and not x.den:
            return self._sqrt_const(P.const_value(n))
        den = x.den
        out = SymReal(P.ONE)
        if den:
            odd = [(k, 1) for k, e in den if e % 2]
            if odd:
                n = self.reduce(P.mul(n, _prod(odd)))
            half = [(k, (e + 1) // 2) for k, e in den]
            for k, e in half:
                p = SymReal(dict(k))
                if not self.known_positive(k):
                    p = abs(p)
                for _ in range(e):
                    out = out / p
        if P.is_const(n):
            return self._sqrt_const(P.const_value(n)) * out
        return self._sqrt_poly(n) * out

    def _sqrt_const(self, v):
        if v < 0:
            return math.nan
        r = P.isqrt_frac(v)
        if r is not None:
            return SymReal(P.const(r))
        if self.numeric_atoms:
            return SymReal(P.const(to_exact(math.sqrt(v))))
        a, new = self.atom(("sqrtc", Fraction(v)))
        if new:
            self.add_rule(a, 2, P.const(v))
            self.add_axiom(a, cmp_atom("<", P.neg(P.var(a.id))))
        self.note_positive(P.var(a.id))
        return self.sym(a)

    def _sqrt_poly(self, n):
        s = P.poly_sqrt(n)
        if s is not None:
            r = SymReal(s)
            return abs(r)
        # pull out a common square factor of single variables / content
        if SymBool(cmp_atom("<", n)) if not self._surely_nonneg(n) else False:
            return math.nan
        c, can = P.content(n)
        rc = P.isqrt_frac(c) if c > 0 else None
        mult = 1
        body = n
        if rc is not None:
            mult, body = rc, can
        a, new = self.atom(("sqrt", P.key(body)))
        if new:
            self.add_rule(a, 2, body)
            self.add_axiom(a, cmp_atom("<=", P.neg(P.var(a.id))))
        return SymReal(P.scale(P.var(a.id), mult))

    def _surely_nonneg(self, n):
        # even monomials with positive coefficients
        for m, c in n.items():
            if c < 0:
                return False
            if any(m.count(v) % 2 for v in set(m)):
                return False
        return True

    def is_whole(self, x):
        return not x.den and all(
            v in self.intvars for m in x.num for v in m
        ) and all(Fraction(c).denominator == 1 for c in x.num.values())

    def trunc(self, x):
        """Integer part, as storing in an integer array takes it."""
        if x.is_const():
            return SymReal.lift(int(x.const_value()))
        if self.is_whole(x):
            return x
        v, new = self.atom(("trunc", x.key()))
        t = self.sym(v)
        if new:
            def f(c):
                return c.f if isinstance(c, SymBool) else bool(c)

            self.add_axiom(v, f_or(
                f_and(f(x >= 0), f(t >= 0), f(t <= x), f(x < t + 1)),
                f_and(f(x <= 0), f(t <= 0), f(t >= x), f(x > t - 1))))
        return t

    def floor(self, x):
        if not isinstance(x, SymReal):
            return math.floor(x)
        # case split on the integer value within bounds
        k = self.real(self.fresh_name("@floor"), "atom")
        raise Unsupported("floor of symbolic value")

    # angles: polynomials, linear in angle variables with declared units
    def set_unit(self, v, unit):
        self.units[v] = P._norm(Fraction(unit))

    def _trig_base(self, v):
        """(cos, sin) polys of unit*variable v."""
        c, new = self.atom(("cos", v))
        s, _ = self.atom(("sin", v))
        if new:
            rhs = P.sub(P.ONE, {(s.id, s.id): 1})
            self.add_rule(c, 2, rhs)
            ax = cmp_atom("==", self.rel_ax[c.id])
            self.add_axiom(s, ax)
            self.atom_angle[c.id] = v
            for a in (c, s):
                a.dom = ("circle", (c.id, s.id), v)
        return P.var(c.id), P.var(s.id)

    def _trig(self, x):
        """(cos x, sin x) for symbolic or constant x."""
        x = SymReal.lift(x)
        if x.is_const():
            v = x.const_value()
            if v == 0:
                return SymReal(P.ONE), SymReal(P.ZERO)
            return self._trig_const(v)
        if x.den:
            raise Unsupported("trig of rational function")
        c, s = SymReal(P.ONE), SymReal(P.ZERO)
        p = self.reduce(x.num)
        for m, k in sorted(p.items()):
            if m == ():
                c2, s2 = self._trig_const(k)
            elif len(m) == 1 or True:
                if len(m) != 1:
                    v = ("mono", m)
                    unit = 1
                    raise Unsupported("trig of nonlinear polynomial")
                v = m[0]
                unit = self.units.get(v, 1)
                n = Fraction(k) / unit
                if n.denominator != 1:
                    raise Unsupported("angle is not a multiple of its unit")
                n = n.numerator
                bc, bs = self._trig_base(v)
                bc, bs = SymReal(bc), SymReal(bs)
                if n < 0:
                    bs = -bs
                    n = -n
                c2, s2 = bc, bs
                for _ in range(n - 1):
                    c2, s2 = c2 * bc - s2 * bs, s2 * bc + c2 * bs
            c, s = c * c2 - s * s2, s * c2 + c * s2
        return c, s

    def _trig_const(self, v):
        if self.numeric_atoms:
            return (SymReal(P.const(to_exact(math.cos(v)))),
                    SymReal(P.const(to_exact(math.sin(v)))))
        # the double nearest to pi stands for pi
        k = Fraction(v) * 2 / self.PI
        if k.denominator == 1:
            c, s = [(1, 0), (0, 1), (-1, 0), (0, -1)][k.numerator % 4]
            return SymReal(P.const(c)), SymReal(P.const(s))
        c, new = self.atom(("cosc", abs(Fraction(v))))
        s, _ = self.atom(("sinc", abs(Fraction(v))))
        if new:
            rhs = P.sub(P.ONE, {(s.id, s.id): 1})
            self.add_rule(c, 2, rhs)
            self.add_axiom(s, cmp_atom("==", self.rel_ax[c.id]))
            for a, val in ((c, math.cos(abs(v))), (s, math.sin(abs(v)))):
                eps = Fraction(1, 10**9)
                val = Fraction(val)
                self.add_axiom(a, cmp_atom("<=", P.sub(
                    P.var(a.id), P.const(val + eps))))
                self.add_axiom(a, cmp_atom("<=", P.sub(
                    P.const(val - eps), P.var(a.id))))
        return self.sym(c), (self.sym(s) if v > 0 else -self.sym(s))

    def cos(self, x):
        return self._trig(x)[0]

    def sin(self, x):
        return self._trig(x)[1]

    PI = Fraction(math.pi)

    def angle_atom(self, key, c, s, lo, hi):
        """New angle variable A with cos A = c, sin A = s, lo<A<=hi."""
        a, new = self.atom(key)
        bc, bs = self._trig_base(a.id)
        ca, sa = SymReal(bc), SymReal(bs)
        for lhs, rhs in ((ca, c), (sa, s)):
            f = cmp_formula("==", lhs, rhs)
            if new and isinstance(rhs, SymReal) and len(rhs.den) == 1 \
                    and f[0] == "cmp":
                # cos * radius -> coordinate
                (k, e), = rhs.den
                if e == 1 and len(k) == 1 and len(k[0][0]) == 1:
                    (m, kc), = k
                    self.add_pair(m[0], next(iter(lhs.num))[0],
                                  P.scale(rhs.num, Fraction(1) / kc))
                    self.add_axiom(a, f)
                    for m2 in (m[0], next(iter(lhs.num))[0]):
                        self.add_axiom(self.vars[m2], f)
            self.assume_f(f)
        va = P.var(a.id)
        self.assume_f(cmp_atom("<=", P.sub(va, P.const(hi))))
        self.assume_f(cmp_atom("<=", P.sub(P.const(lo), va)))
        if new and lo == 0:
            # 2/pi A <= sin A <= A tie small angles to their sine
            f = cmp_atom("<=", P.sub(sa.num, va))
            g = f_or(cmp_atom("<", ca.num), cmp_atom(
                "<=", P.sub(P.scale(va, Fraction(2) / hi), sa.num)))
            for v in (self.vars[next(iter(sa.num))[0]], a):
                self.add_axiom(v, f)
                self.add_axiom(v, g)
        return self.sym(a)

    def arctan2(self, y, x):
        y, x = SymReal.lift(y), SymReal.lift(x)
        if y.is_const() and x.is_const():
            return SymReal(P.const(to_exact(
                math.atan2(y.const_value(), x.const_value()))))
        # same angle as a declared angle variable in (-pi, pi]?
        for vid in self.principal:
            bc, bs = self._angle_cs(vid)
            cross = self.reduce_real(y * bc - x * bs)
            if cross.is_const() and cross.const_value() == 0:
                dotp = x * bc + y * bs
                if bool(dotp > 0):
                    return SymReal(P.var(vid))
        r2 = x * x + y * y
        if r2 == 0:
            return SymReal(P.ZERO)
        r = self.sqrt(r2)
        if isinstance(r, SymReal) and not r.den:
            self.note_positive(r.num)
        key = ("atan2", self.reduce_real(y).key(), self.reduce_real(x).key())
        return self.angle_atom(key, x / r, y / r, -self.PI, self.PI)

    principal = ()
    principal_pos = ()

    def _angle_cs(self, vid):
        return self._trig(SymReal(P.var(vid)))

    def arccos(self, z):
        z = SymReal.lift(z)
        if z.is_const():
            v = z.const_value()
            if abs(v) > 1:
                return math.nan
            return SymReal(P.const(to_exact(math.acos(v))))
        for vid in self.principal_pos:
            bc, bs = self._angle_cs(vid)
            d = self.reduce_real(z - bc)
            if d.is_const() and d.const_value() == 0:
                return SymReal(P.var(vid))
        one = SymReal(P.ONE)
        s2 = self.reduce_real(one - z * z)
        if not (self._surely_nonneg(s2.num)
                and all(e % 2 == 0 for _, e in s2.den)) and s2 < 0:
            return math.nan
        s = self.sqrt(s2)
        key = ("acos", self.reduce_real(z).key())
        return self.angle_atom(key, z, s, Fraction(0), self.PI)

    def reduce_real(self, x):
        return SymReal(self.reduce(x.num), x.den) if self.reduce(
            x.num) else SymReal(P.ZERO)


def rand_unit(n, rng):
    """Random rational point on the unit sphere."""
    while True:
        if n == 4:
            a, b, c, d = (rng.randint(-6, 6) for _ in range(4))
            N = a * a + b * b + c * c + d * d
            if N == 0:
                continue
            # square of a quaternion divided by its norm: rational and unit
            w = Fraction(a * a - b * b - c * c - d * d, N)
            x, y, z = (Fraction(2 * a * t, N) for t in (b, c, d))
            if abs(w) in (0, 1) or 0 in (x, y, z):
                continue
            return [w, x, y, z]
        u = [Fraction(rng.randint(-6, 6), 3) for _ in range(n - 1)]
        s = sum(t * t for t in u)
        if s == 0 or s == 1:
            continue
        return [(1 - s) / (1 + s)] + [2 * t / (1 + s) for t in u]


def zval(z):
    if z3.is_rational_value(z):
        return Fraction(z.numerator_as_long(), z.denominator_as_long())
    if z3.is_algebraic_value(z):
        a = z.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    raise AssertionError(z)


def show_poly(eng, p):
    out = []
    for m, c in sorted(p.items())[:12]:
        out.append(f"{c}*" + "*".join(eng.vars[v].name for v in m)
                   if m else str(c))
    if len(p) > 12:
        out.append("...")
    return " + ".join(out) if out else "0"


def show_formula(eng, f):
    if f is True or f is False:
        return str(f)
    if f[0] == "cmp":
        return f"{show_poly(eng, dict(f[2]))} {f[1]} 0"[:300]
    return f[0] + "(" + ", ".join(show_formula(eng, g) for g in f[1:5]) + ")"


def show(x):
    eng = engine()
    s = show_poly(eng, x.num)
    if x.den:
        s = f"({s})/({show_poly(eng, _prod(x.den))})"
    return s
