"""The math module on symbols."""
import functools
import math
import operator
import types

from . import engine as E
from . import nshim as N


def _sym(x):
    return isinstance(x, (E.SymReal, N.SymArray)) or (
        isinstance(x, (list, tuple)) and any(_sym(y) for y in x))


def _scalar(x):
    if isinstance(x, N.SymArray):
        if x.size != 1:
            raise TypeError("only length-1 arrays can be converted to "
                            "Python scalars")
        return N.to_obj(x).reshape(-1)[0]
    return x


F = {
    "sqrt": N.s_sqrt,
    "sin": N.s_sin,
    "cos": N.s_cos,
    "tan": lambda x: N.s_div(N.s_sin(x), N.s_cos(x)),
    "acos": N.s_arccos,
    "atan2": N.s_arctan2,
    "atan": lambda x: N.s_arctan2(x, N.lift(1)),
    "fabs": N.s_abs,
    "floor": E.math_floor,
    "ceil": lambda x: -E.math_floor(-x),
    "trunc": N.s_trunc,
    "isnan": N.s_isnan,
    "isfinite": lambda x: not (N._special(x) and not math.isfinite(x)),
    "isinf": lambda x: N._special(x) and math.isinf(x),
    "pow": N.s_power,
    "radians": lambda x: x * N.Fraction(math.pi) / 180,
    "degrees": lambda x: x * 180 / N.Fraction(math.pi),
    "copysign": lambda x, y: N.s_abs(x) if y >= 0 else -N.s_abs(x),
    "hypot": lambda *x: N.s_sqrt(functools.reduce(
        operator.add, [y * y for y in x])),
}


def _wrap(name, f):
    real = getattr(math, name)

    def g(*a):
        if any(_sym(x) for x in a):
            return f(*[N.lift(_scalar(x)) if not N._special(_scalar(x))
                       else x for x in a])
        return real(*a)

    g.__name__ = name
    return g


def _items(x):
    return [_scalar(y) for y in x]


def fsum(x):
    x = _items(x)
    return functools.reduce(operator.add, x, 0.0) if _sym(x) \
        else math.fsum(x)


def prod(x, start=1):
    x = _items(x)
    return functools.reduce(operator.mul, x, start) if _sym(x) \
        else math.prod(x, start=start)


def dist(p, q):
    p, q = _items(p), _items(q)
    if _sym(p) or _sym(q):
        return F["hypot"](*[N.lift(a) - b for a, b in zip(p, q)])
    return math.dist(p, q)


def isclose(a, b, *, rel_tol=1e-9, abs_tol=0.0):
    a, b = _scalar(a), _scalar(b)
    if not (_sym(a) or _sym(b)):
        return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    m = N.s_max(N.s_abs(a), N.s_abs(b)) * rel_tol
    return bool(N.s_abs(a - b) <= N.s_max(m, abs_tol))


def build():
    m = types.ModuleType("math")
    m.__dict__.update(math.__dict__)
    for k, f in F.items():
        setattr(m, k, _wrap(k, f))
    m.fsum, m.prod, m.dist, m.isclose = fsum, prod, dist, isclose
    return m
