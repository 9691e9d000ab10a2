"""Sparse multivariate polynomials over exact rationals.

A polynomial is a plain ``dict`` monomial -> coefficient; a monomial is a
sorted tuple of variable numbers with repetition (``()`` is 1); coefficients
are ``int`` or ``Fraction`` and never zero.
"""
from fractions import Fraction

ZERO = {}
ONE = {(): 1}


def _norm(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


def const(c):
    c = _norm(c)
    return {(): c} if c != 0 else {}


def var(i):
    return {(i,): 1}


def add(a, b):
    if not a:
        return b
    if not b:
        return a
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        s = r.get(m)
        if s is None:
            r[m] = c
        else:
            s = s + c
            if s == 0:
                del r[m]
            else:
                r[m] = _norm(s)
    return r


def neg(a):
    return {m: -c for m, c in a.items()}


def sub(a, b):
    return add(a, neg(b))


def scale(a, k):
    if k == 0:
        return {}
    if k == 1:
        return a
    return {m: _norm(c * k) for m, c in a.items()}


def mul(a, b):
    if not a or not b:
        return {}
    if len(a) == 1 and () in a:
        return scale(b, a[()])
    if len(b) == 1 and () in b:
        return scale(a, b[()])
    r = {}
    get = r.get
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = tuple(sorted(m1 + m2)) if m1 and m2 else (m1 or m2)
            r[m] = get(m, 0) + c1 * c2
    return {m: _norm(c) for m, c in r.items() if c != 0}


def is_const(a):
    return not a or (len(a) == 1 and () in a)


def const_value(a):
    return a.get((), 0)


def variables(a):
    s = set()
    for m in a:
        s.update(m)
    return s


def key(a):
    return tuple(sorted(a.items()))


def degree(a):
    return max((len(m) for m in a), default=0)


def lead(a):
    """Leading monomial: graded by tuple of descending variables (lex)."""
    return max(a, key=lambda m: m[::-1])


def content(a):
    """Scale so the coefficient of the smallest monomial is 1 (canonical)."""
    if not a:
        return 1, a
    m = min(a)
    c = a[m]
    return c, scale(a, Fraction(1) / c)


def mono_div(m, d):
    """m / d or None."""
    m = list(m)
    for v in d:
        try:
            m.remove(v)
        except ValueError:
            return None
    return tuple(m)


def isqrt_frac(q):
    """Exact square root of a non-negative rational or None."""
    from math import isqrt

    q = Fraction(q)
    if q < 0:
        return None
    n, d = isqrt(q.numerator), isqrt(q.denominator)
    if n * n == q.numerator and d * d == q.denominator:
        return _norm(Fraction(n, d))
    return None


def poly_sqrt(a):
    """Exact polynomial square root or None (lex leading-term algorithm)."""
    if not a:
        return {}
    lm = lead(a)
    half = []
    i = 0
    while i < len(lm):
        if i + 1 >= len(lm) or lm[i] != lm[i + 1]:
            return None
        half.append(lm[i])
        i += 2
    c = isqrt_frac(a[lm])
    if c is None:
        return None
    lead_half = tuple(half)
    r = {lead_half: c}
    rest = sub(a, mul(r, r))
    for _ in range(len(a) + 8):
        if not rest:
            return r
        m = lead(rest)
        d = mono_div(m, lead_half)
        if d is None:
            return None
        t = {d: _norm(Fraction(rest[m]) / (2 * c))}
        if d in r:
            return None
        # (r+t)^2 = r^2 + 2rt + t^2
        rest = sub(rest, add(scale(mul(r, t), 2), mul(t, t)))
        r = add(r, t)
    return None


def evaluate(a, values):
    s = 0
    for m, c in a.items():
        t = c
        for v in m:
            t = t * values[v]
        s = s + t
    return s
