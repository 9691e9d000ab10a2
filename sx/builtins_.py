"""Conversions whose C implementation would lose symbolic values."""
import builtins
import numbers

from .engine import SymReal

TABLE = {}


def _scalar(x):
    """The symbolic scalar in x, or None."""
    if isinstance(x, SymReal):
        return x
    if getattr(x, "ndim", None) == 0 and hasattr(x, "item"):
        v = x.item()
        if isinstance(v, SymReal):
            return v
    return None


def to_float(*a, **k):
    """float(x)"""
    if len(a) == 1 and not k:
        v = _scalar(a[0])
        if v is not None:
            return v
    return builtins.float(*a, **k)


def to_int(*a, **k):
    """int(x): towards zero; an unknown within one of x (not provably whole)
    """
    if hasattr(a[0] if a else None, "sx_int"):
        return a[0].sx_int(*a[1:], **k)
    if len(a) == 1 and not k:
        v = _scalar(a[0])
        if v is not None:
            if v.is_const():
                return builtins.int(v.const_value())
            from . import engine as E

            eng = E.CURRENT
            r = eng.sym(eng.newvar(eng.fresh_name("int"), "atom"))
            if bool(v >= 0):
                eng.assume_f(((r <= v) & (v < r + 1) & (r >= 0)).f)
            else:
                eng.assume_f(((r >= v) & (v > r - 1) & (r <= 0)).f)
            return r
    return builtins.int(*a, **k)


def is_instance(x, t):
    """isinstance(x, t), symbolic reals being floats"""
    if builtins.isinstance(x, t):
        return True
    if builtins.isinstance(x, SymReal):
        ts = t if builtins.isinstance(t, tuple) else (t,)
        return any(u is builtins.float or u in (
            numbers.Number, numbers.Real, numbers.Complex) for u in ts)
    return False
