"""numpy stand-in whose float arrays hold symbolic reals.

Structure (shapes, axes, broadcasting, indexing) is done by the real numpy on
object arrays; only the scalar operations are symbolic.
"""
import functools
import itertools
import math
import operator
from fractions import Fraction

import numpy as np

from . import engine as E
from . import poly as P
from .engine import (
    SymBool,
    SymReal,
    Unsupported,
    engine,
    is_number,
    mkbool,
)

SYM = (SymReal, SymBool)


class _FakeDtype:
    """What repository code sees as ``arr.dtype``."""


def _kind_of(arr, default="f"):
    """'f' float, 'b' bool, 'q' quaternion, 'o' other."""
    if arr.size == 0:
        return default
    x = arr.flat[0]
    from .qshim import SymQuat

    if isinstance(x, SymQuat):
        return "q"
    if isinstance(x, (SymBool, bool, np.bool_)):
        return "b"
    if isinstance(x, SymReal) or is_number(x):
        return "f"
    return "o"


class SymArray(np.ndarray):
    """Object array of symbolic scalars posing as a float array."""

    def __new__(cls, a, kind=None):
        obj = np.asarray(a, dtype=object).view(cls)
        obj._k = kind or _kind_of(obj.view(np.ndarray))
        return obj

    def __array_finalize__(self, obj):
        self._k = getattr(obj, "_k", "f")

    # ------------------------------------------------------------------
    @property
    def kind(self):
        k = getattr(self, "_k", "f")
        return _kind_of(self.view(np.ndarray), "f" if k == "i" else k)

    @property
    def isint(self):
        """An integer array: what is stored in it loses its fraction."""
        return getattr(self, "_k", "f") == "i"

    @property
    def dtype(self):
        k = self.kind
        if k == "q":
            from .qshim import QDTYPE

            return QDTYPE
        if k == "b":
            return np.dtype(bool)
        if self.isint:
            return np.dtype(int)
        if k == "f":
            return np.dtype(float)
        return np.dtype(object)

    @property
    def itemsize(self):
        return 8

    @property
    def nbytes(self):
        return 8 * self.size

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return self * 0.0

    @property
    def components(self):
        from .qshim import as_float_array

        return as_float_array(self)

    # ------------------------------------------------------------------
    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        return sym_ufunc(ufunc, method, inputs, out, kw)

    def __array_function__(self, func, types, args, kwargs):
        h = OVERRIDES.get(func)
        if h is not None:
            return h(*args, **kwargs)
        ints = all_int((args, tuple(kwargs.values())))
        args, kwargs = plain(args), plain(kwargs)
        try:
            return as_int(post(func(*args, **kwargs)), ints)
        except (TypeError, AttributeError) as e:
            if "sym" in str(e).lower() or "Sym" in str(e):
                raise Unsupported(f"{func.__name__}: {e}") from e
            raise

    # ------------------------------------------------------------------
    def astype(self, dtype, order="K", casting="unsafe", subok=True,
               copy=True):
        return cast(self, dtype)

    def __getitem__(self, idx):
        return post_item(
            np.ndarray.__getitem__(self.view(np.ndarray), conv_index(idx)),
            self._k,
        )

    def __setitem__(self, idx, val):
        if isinstance(val, SymArray):
            val = val.view(np.ndarray)
        elif isinstance(val, (list, tuple)):
            val = to_obj(val)
        elif isinstance(val, np.ndarray) and val.dtype != object:
            val = to_obj(val)
        elif isinstance(val, (float, np.floating)) and math.isfinite(val):
            val = SymReal.lift(val)
        elif isinstance(val, (int, np.integer)) and not isinstance(
            val, (bool, np.bool_)
        ):
            val = SymReal.lift(int(val))
        if self.isint:
            val = truncated(val)
        np.ndarray.__setitem__(self.view(np.ndarray), conv_index(idx), val)

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(len(self)):
            yield self[i]

    def __bool__(self):
        if self.size == 1:
            return bool(self.view(np.ndarray).flat[0])
        raise ValueError(
            "The truth value of an array with more than one element is "
            "ambiguous. Use a.any() or a.all()"
        )

    def __float__(self):
        return float(self.view(np.ndarray).flat[0])

    def __int__(self):
        return int(self.view(np.ndarray).flat[0])

    def __contains__(self, x):
        return bool(np_any(self == x))

    def item(self, *a):
        return self.view(np.ndarray).item(*a)

    def tolist(self):
        return self.view(np.ndarray).tolist()

    # methods that would otherwise run object loops
    def any(self, axis=None, out=None, keepdims=False, **k):
        return np_any(self, axis=axis, keepdims=keepdims)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return np_all(self, axis=axis, keepdims=keepdims)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return np_sum(self, axis=axis, keepdims=keepdims, **k)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return np_prod(self, axis=axis, keepdims=keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return np_mean(self, axis=axis, keepdims=keepdims)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return np_max(self, axis=axis, keepdims=keepdims)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return np_min(self, axis=axis, keepdims=keepdims)

    def argsort(self, axis=-1, kind=None, order=None, **k):
        return np_argsort(self, axis)

    def sort(self, axis=-1, kind=None, order=None, **k):
        self[...] = np_sort(self, axis)

    def argmax(self, axis=None, out=None, **k):
        return np_argmax(self, axis)

    def argmin(self, axis=None, out=None, **k):
        return np_argmin(self, axis)

    def searchsorted(self, v, side="left", sorter=None):
        return np_searchsorted(self, v, side)

    def conjugate(self):
        return elementwise(
            lambda x: x.conjugate() if hasattr(x, "conjugate") else x, 1,
            self)

    conj = conjugate

    def dot(self, b, out=None):
        return np_dot(self, b)

    def cumsum(self, axis=None, dtype=None, out=None):
        return np_cumsum(self, axis)

    def nonzero(self):
        return np.nonzero(force_bool(self))

    def round(self, decimals=0, out=None):
        return np.round(concrete(self), decimals)

    def clip(self, min=None, max=None, out=None, **k):
        return np_clip(self, min, max)

    def tobytes(self, order="C"):
        raise Unsupported("tobytes")

    def view(self, *a, **k):
        if a and a[0] is np.ndarray or not a:
            return np.ndarray.view(self, *a, **k)
        if a and isinstance(a[0], type) and issubclass(a[0], np.ndarray):
            return np.ndarray.view(self, *a, **k)
        raise Unsupported("view with dtype")

    def __reduce__(self):
        raise Unsupported("pickle")

    def __deepcopy__(self, memo):
        return self.copy()

    def __repr__(self):
        return f"SymArray(shape={self.shape}, kind={self.kind})"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)


# ----------------------------------------------------------------------
# conversion helpers


def to_obj(x):
    """Anything array-like -> plain object ndarray of symbolic scalars."""
    from .qshim import SymQuat

    if isinstance(x, SymArray):
        return x.view(np.ndarray)
    if isinstance(x, SymReal) or isinstance(x, (SymBool, SymQuat)):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    if hasattr(x, "dims") and hasattr(x, "coords"):
        return to_obj(x.data)
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return x
        if x.dtype == bool:
            return x.astype(object)
        out = np.empty(x.shape, dtype=object)
        flat = out.reshape(-1) if out.size else out
        for i, v in enumerate(x.reshape(-1) if x.size else ()):
            flat[i] = lift(v)
        return out
    if isinstance(x, (list, tuple)):
        parts = [to_obj(e) for e in x]
        if not parts:
            return np.empty((0,), dtype=object)
        shp = parts[0].shape
        if any(p.shape != shp for p in parts):
            raise ValueError(
                "setting an array element with a sequence. The requested "
                "array has an inhomogeneous shape"
            )
        out = np.empty((len(parts),) + shp, dtype=object)
        for i, p in enumerate(parts):
            out[i] = p if shp else p[()]
        return out
    a = np.empty((), dtype=object)
    a[()] = lift(x)
    return a


def lift(v):
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if is_number(v):
        if not isinstance(v, Fraction):
            f = float(v)
            if not math.isfinite(f):
                return f
        return SymReal.lift(v)
    return v


def wrap(a, kind=None):
    """object ndarray -> SymArray (or bool ndarray when all concrete)."""
    if isinstance(a, SymArray):
        return a
    return SymArray(a, kind)


def has_sym(x, depth=0):
    from .qshim import SymQuat

    if isinstance(x, (SymReal, SymBool, SymQuat)):
        return True
    if isinstance(x, (list, tuple)) and depth < 6:
        return any(has_sym(e, depth + 1) for e in x)
    return False


def is_objarr(x):
    return (
        isinstance(x, np.ndarray)
        and not isinstance(x, SymArray)
        and x.dtype == object
        and x.size > 0
        and _kind_of(x) in "fbq"
    )


def truncated(v):
    """Value as an integer array stores it."""
    if isinstance(v, np.ndarray):
        out = np.empty(v.shape, dtype=object)
        for i in np.ndindex(v.shape):
            out[i] = truncated(v[i])
        return out
    if isinstance(v, (bool, np.bool_)):
        return SymReal.lift(int(v))
    if isinstance(v, SymReal):
        return engine().trunc(v)
    if is_number(v) and math.isfinite(v):
        return SymReal.lift(int(v))
    raise Unsupported(f"{v!r} in an integer array")


def all_int(args):
    """Do only integer arrays take part?"""
    seen = []

    def walk(x, depth=0):
        if isinstance(x, SymArray):
            seen.append(x.isint)
        elif isinstance(x, np.ndarray):
            if x.dtype.kind == "f":
                seen.append(False)
        elif isinstance(x, (SymReal, float)):
            seen.append(False)
        elif isinstance(x, (list, tuple)) and depth < 4:
            for e in x:
                walk(e, depth + 1)

    walk(args)
    return bool(seen) and all(seen)


def as_int(r, yes=True):
    if yes:
        if isinstance(r, SymArray):
            r._k = "i"
        elif isinstance(r, (list, tuple)):
            for e in r:
                as_int(e)
    return r


def plain(x):
    if isinstance(x, SymArray):
        return x.view(np.ndarray)
    if isinstance(x, tuple):
        t = [plain(e) for e in x]
        return type(x)(*t) if hasattr(x, "_fields") else tuple(t)
    if isinstance(x, list):
        return [plain(e) for e in x]
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    return x


def post(r):
    """Result of a real numpy call -> what repository code sees."""
    if isinstance(r, SymArray):
        return r
    if isinstance(r, np.ndarray):
        if r.dtype == object:
            if r.size and _kind_of(r) == "b":
                if all(isinstance(v, (bool, np.bool_)) for v in r.flat):
                    return r.astype(bool)
            if r.size and _kind_of(r) == "o":
                return r
            return SymArray(r)
        if np.issubdtype(r.dtype, np.floating):
            return SymArray(to_obj(r))
        return r
    if isinstance(r, tuple):
        t = [post(e) for e in r]
        return type(r)(*t) if hasattr(r, "_fields") else tuple(t)
    if isinstance(r, list):
        return [post(e) for e in r]
    return r


def post_item(r, kind):
    if isinstance(r, np.ndarray):
        r = r.view(SymArray)
        r._k = kind
    return r


def conv_index(idx):
    if isinstance(idx, tuple):
        return tuple(conv_index(i) for i in idx)
    if isinstance(idx, SymArray):
        if idx.kind == "b":
            return force_bool(idx)
        return concrete(idx).astype(int)
    if isinstance(idx, SymBool):
        return bool(idx)
    if isinstance(idx, np.ndarray) and idx.dtype == object:
        return force_bool(idx) if _kind_of(idx) == "b" else idx
    if isinstance(idx, list) and has_sym(idx):
        return [conv_index(i) for i in idx]
    return idx


def force_bool(a):
    """Decide every element (forks)."""
    a = to_obj(a)
    out = np.empty(a.shape, dtype=bool)
    for i in np.ndindex(a.shape):
        v = a[i]
        out[i] = bool(v)
    return out


def concrete(a):
    a = to_obj(a)
    out = np.empty(a.shape, dtype=float)
    for i in np.ndindex(a.shape):
        out[i] = float(a[i])
    return out


def cast(a, dtype):
    from .qshim import QDTYPE, as_quat_array, is_qdtype

    if is_qdtype(dtype):
        return a
    if dtype is object:
        return a.copy()
    try:
        dt = np.dtype(dtype)
    except TypeError:
        raise Unsupported(f"astype {dtype}")
    if np.issubdtype(dt, np.floating):
        if a.kind == "b":
            return SymArray(to_obj(force_bool(a).astype(float)))
        return SymArray(to_obj(a).copy()) if a.isint else a.copy()
    if dt == bool:
        return (a != 0) if a.kind == "f" else a
    if np.issubdtype(dt, np.integer):
        if a.kind == "f" and a.isint:
            return a.copy()
        return concrete(a).astype(dt)
    raise Unsupported(f"astype {dtype}")


# ----------------------------------------------------------------------
# ufuncs


def _scal(x):
    """normalise an element"""
    if isinstance(x, (float, np.floating, np.integer)) or type(x) is int:
        return lift(x)
    return x


def _special(x):
    return isinstance(x, float)


def s_sqrt(x):
    if _special(x):
        return math.sqrt(x) if x >= 0 else math.nan
    return engine().sqrt(x)


def s_cos(x):
    return math.nan if _special(x) else engine().cos(x)


def s_sin(x):
    return math.nan if _special(x) else engine().sin(x)


def s_abs(x):
    if _special(x):
        return abs(x)
    from .qshim import SymQuat

    if isinstance(x, SymQuat):
        return x.abs()
    return abs(x)


def _soft(a, b):
    """Maxima are to be unknowns of their own (no case split)."""
    return "soft" in E.CURRENT.notes and (
        isinstance(a, E.SymReal) or isinstance(b, E.SymReal))


def soft_max(a, b):
    """max(a, b) as an unknown that is one of them and below none."""
    eng = E.CURRENT
    d = E.SymReal.lift(a - b)
    if d.is_const():
        return a if d.const_value() >= 0 else b
    key = ("soft_max", E.SymReal.lift(a).key(), E.SymReal.lift(b).key())
    memo = eng.notes["soft"]
    if key not in memo:
        r = eng.sym(eng.newvar(eng.fresh_name("max"), "atom"))
        eng.assume_f(((r >= a) & (r >= b)).f)
        eng.assume_f(((r == a) | (r == b)).f)
        memo[key] = r
    return memo[key]


def builtin_max(*a, **k):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if k or "soft" not in E.CURRENT.notes:
        return max(*a, **k)
    r = xs[0]
    for x in xs[1:]:
        r = s_max(r, x)
    return r


def builtin_min(*a, **k):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if k or "soft" not in E.CURRENT.notes:
        return min(*a, **k)
    r = xs[0]
    for x in xs[1:]:
        r = s_min(r, x)
    return r


def builtin_abs(x):
    if isinstance(x, E.SymReal) and "soft" in E.CURRENT.notes:
        return s_max(x, -x)
    return abs(x)


def s_max(a, b):
    if a is b:
        return a
    for v in (a, b):
        if _special(v) and v != v:
            return v
    if _soft(a, b):
        return soft_max(a, b)
    return a if bool(a >= b) else b


def s_min(a, b):
    if a is b:
        return a
    for v in (a, b):
        if _special(v) and v != v:
            return v
    if _soft(a, b):
        return -soft_max(-a, -b)
    return a if bool(a <= b) else b


def s_div(a, b):
    if _special(a) and _special(b):
        return math.nan
    if isinstance(b, SymReal) or isinstance(a, SymReal):
        from .qshim import SymQuat

        if isinstance(a, SymQuat) or isinstance(b, SymQuat):
            return a / b
        return E._bin(E._div, a, b)
    return a / b


def s_isnan(x):
    from .qshim import SymQuat

    if isinstance(x, SymQuat):
        return any(s_isnan(c) for c in x.c)
    return isinstance(x, float) and x != x


def s_trunc(x):
    if _special(x):
        return x
    return E.math_floor(x) if x >= 0 else -E.math_floor(-x)


def s_rint(x):
    """Round half to even."""
    if _special(x):
        return x
    f = E.math_floor(x)
    d = x - f
    half = Fraction(1, 2)
    if d < half:
        return f
    if d > half:
        return f + 1
    return f if bool(E.math_floor(f * half) * 2 == f) else f + 1


def np_round(a, decimals=0, out=None):
    if decimals:
        k = 10 ** decimals if decimals > 0 else Fraction(1, 10 ** -decimals)
        return elementwise(lambda x: s_rint(x * k) / k, 1, a)
    return elementwise(s_rint, 1, a)


def np_digitize(x, bins, right=False):
    # increasing bins
    return np_searchsorted(bins, x, "left" if right else "right")


def la_solve(a, b):
    return np_dot(la_inv(a), b)


def s_sign(x):
    if _special(x):
        return float(np.sign(x))
    if x > 0:
        return SymReal(P.ONE)
    if x < 0:
        return SymReal(P.const(-1))
    return SymReal(P.ZERO)


def s_arctan2(y, x):
    if _special(y) or _special(x):
        return math.nan
    return engine().arctan2(y, x)


def s_arccos(z):
    return math.nan if _special(z) else engine().arccos(z)


def s_tb(x):
    return x if isinstance(x, (SymBool, bool)) else (x != 0)


def _b(f):
    def g(*a):
        a = [s_tb(x) for x in a]
        if all(isinstance(x, bool) for x in a):
            return f(*a)
        return functools.reduce(f, a)

    return g


def s_hypot(a, b):
    return s_sqrt(a * a + b * b)


def s_power(a, n):
    if isinstance(a, SymReal):
        return a ** n
    if isinstance(n, SymReal) and n.is_const():
        n = float(n.const_value())
    return _scal(a) ** n


def s_exp(x):
    from .qshim import SymQuat, qexp

    if isinstance(x, SymQuat):
        return qexp(x)
    raise Unsupported("exp")


def s_log(x):
    from .qshim import SymQuat, qlog

    if isinstance(x, SymQuat):
        return qlog(x)
    raise Unsupported("log")


def s_not(x):
    x = s_tb(x)
    return (not x) if isinstance(x, bool) else ~x


def s_eq(a, b):
    r = a == b
    return r


def s_ne(a, b):
    return a != b


UFUNCS = {
    np.add: operator.add,
    np.subtract: operator.sub,
    np.multiply: operator.mul,
    np.true_divide: s_div,
    np.negative: operator.neg,
    np.positive: lambda x: x,
    np.power: s_power,
    np.float_power: s_power,
    np.square: lambda x: x * x,
    np.sqrt: s_sqrt,
    np.cos: s_cos,
    np.sin: s_sin,
    np.tan: lambda x: s_div(s_sin(x), s_cos(x)),
    np.absolute: s_abs,
    np.fabs: s_abs,
    np.maximum: s_max,
    np.minimum: s_min,
    np.fmax: s_max,
    np.fmin: s_min,
    np.less: operator.lt,
    np.less_equal: operator.le,
    np.greater: operator.gt,
    np.greater_equal: operator.ge,
    np.equal: s_eq,
    np.not_equal: s_ne,
    np.isnan: s_isnan,
    np.isfinite: lambda x: not (_special(x) and not math.isfinite(x)),
    np.isinf: lambda x: _special(x) and math.isinf(x),
    np.sign: s_sign,
    np.arctan2: s_arctan2,
    np.arccos: s_arccos,
    np.hypot: s_hypot,
    np.logical_and: _b(operator.and_),
    np.logical_or: _b(operator.or_),
    np.logical_not: s_not,
    np.logical_xor: _b(operator.xor),
    np.bitwise_and: _b(operator.and_),
    np.bitwise_or: _b(operator.or_),
    np.bitwise_xor: _b(operator.xor),
    np.invert: lambda x: x.conjugate() if not isinstance(
        x, (bool, SymBool)) and hasattr(x, "c") else s_not(x),
    np.conjugate: lambda x: x.conjugate(),
    np.reciprocal: lambda x: s_div(lift(1), x),
    np.deg2rad: lambda x: x * (Fraction(math.pi) / 180),
    np.radians: lambda x: x * (Fraction(math.pi) / 180),
    np.rad2deg: lambda x: x * (180 / Fraction(math.pi)),
    np.degrees: lambda x: x * (180 / Fraction(math.pi)),
    np.floor: E.math_floor,
    np.ceil: lambda x: -E.math_floor(-x),
    np.trunc: lambda x: s_trunc(x),
    np.rint: lambda x: s_rint(x),
    np.copysign: lambda x, y: s_abs(x) if y >= 0 else -s_abs(x),
    np.heaviside: lambda x, h: lift(1) if x > 0 else (
        lift(0) if x < 0 else h),
    np.fmod: lambda x, y: x - s_trunc(s_div(x, y)) * y,
    np.arctan: lambda x: s_arctan2(x, lift(1)),
    np.arcsin: lambda x: Fraction(math.pi) / 2 - s_arccos(x),
    np.floor_divide: operator.floordiv,
    np.remainder: operator.mod,
    np.exp: s_exp,
    np.log: s_log,
}

BOOLRES = {
    np.less, np.less_equal, np.greater, np.greater_equal, np.equal,
    np.not_equal, np.isnan, np.isfinite, np.isinf, np.logical_and,
    np.logical_or, np.logical_not, np.logical_xor, np.bitwise_and,
    np.bitwise_or, np.bitwise_xor,
}
REDUCE_ID = {np.add: 0, np.multiply: 1, np.logical_and: True,
             np.logical_or: False, np.bitwise_or: False,
             np.bitwise_and: True}

_fp_cache = {}


def elementwise(f, nin, *arrs, boolres=False):
    objs = [to_obj(a) for a in arrs]
    b = np.broadcast_arrays(*objs) if len(objs) > 1 else objs
    shape = b[0].shape
    out = np.empty(shape, dtype=object)
    if shape == ():
        return f(*[_scal(x[()]) for x in b])
    for i in np.ndindex(shape):
        out[i] = f(*[_scal(x[i]) for x in b])
    if boolres and all(isinstance(v, (bool, np.bool_)) for v in out.flat):
        return out.astype(bool)
    r = SymArray(out, "b" if boolres else None)
    return r


KEEP_INT = {np.add, np.subtract, np.multiply, np.negative, np.absolute,
            np.maximum, np.minimum, np.square, np.positive}


def sym_ufunc(ufunc, method, inputs, out, kw):
    kw = {k: v for k, v in kw.items() if k not in ("casting", "order",
                                                   "subok", "dtype")}
    where = kw.pop("where", True)
    f = UFUNCS.get(ufunc)
    if f is None:
        if ufunc is np.matmul:
            r = np_matmul(*inputs)
            return r if out is None else _into(out, r)
        if ufunc is np.divmod:
            return tuple(sym_ufunc(u, method, inputs, None, kw)
                         for u in (np.floor_divide, np.remainder))
        # numpy's own object loop as a last resort
        objs = [to_obj(x) for x in inputs]
        try:
            return post(getattr(ufunc, method)(*objs, **kw))
        except (TypeError, AttributeError) as e:
            raise Unsupported(f"ufunc {ufunc.__name__}: {e}")
    if method == "__call__":
        if any(x is None or isinstance(x, str) for x in inputs):
            if ufunc is np.equal:
                return False
            if ufunc is np.not_equal:
                return True
        r = elementwise(f, ufunc.nin, *inputs, boolres=ufunc in BOOLRES)
        if ufunc in KEEP_INT and isinstance(r, SymArray) and all_int(inputs):
            as_int(r)
        if where is not True:
            w = force_bool(where)
            base = to_obj(out[0]) if out else np.zeros_like(to_obj(r))
            r = SymArray(np.where(w, to_obj(r), base))
        if out is not None:
            return _into(out, r)
        return r
    if method == "reduce":
        r = reduce_axis(
            f, inputs[0], kw.get("axis", 0), kw.get("keepdims", False),
            REDUCE_ID.get(ufunc), boolres=ufunc in BOOLRES,
            initial=kw.get("initial", None),
        )
        return r if out is None else _into(out, r)
    if method == "accumulate":
        return accumulate(f, inputs[0], kw.get("axis", 0))
    if method == "outer":
        a, b = (to_obj(x) for x in inputs)
        aa = a.reshape(a.shape + (1,) * b.ndim)
        return elementwise(f, 2, aa, b, boolres=ufunc in BOOLRES)
    raise Unsupported(f"ufunc method {ufunc.__name__}.{method}")


def _into(out, r):
    o = out[0]
    if isinstance(o, SymArray):
        ob = o.view(np.ndarray)
        ro = to_obj(r)
        if ro.shape != ob.shape and np.broadcast_shapes(
            ro.shape, ob.shape
        ) != ob.shape:
            raise ValueError(
                f"non-broadcastable output operand with shape {ob.shape} "
                f"doesn't match the broadcast shape {ro.shape}"
            )
        if o.isint and not getattr(r, "isint", False):
            raise TypeError(
                "Cannot cast ufunc output from dtype('float64') to "
                "dtype('int64') with casting rule 'same_kind'"
            )
        ob[...] = ro
        return o
    if isinstance(o, np.ndarray) and o.dtype == object:
        o[...] = to_obj(r)
        return o
    if isinstance(o, np.ndarray) and o.dtype == bool:
        o[...] = force_bool(r)
        return o
    if isinstance(o, np.ndarray) and np.issubdtype(o.dtype, np.integer):
        raise TypeError(
            "Cannot cast ufunc output from dtype('float64') to "
            "dtype('int64') with casting rule 'same_kind'"
        )
    raise Unsupported("symbolic result into a concrete float array")


def _axes(axis, ndim):
    if axis is None:
        return tuple(range(ndim))
    if not isinstance(axis, tuple):
        axis = (axis,)
    return tuple(
        np.core.numeric.normalize_axis_index(operator.index(a), ndim)
        for a in axis
    )


def reduce_axis(f, a, axis, keepdims=False, ident=None, boolres=False,
                initial=None):
    a = to_obj(a)
    axes = _axes(axis, a.ndim)
    rest = [i for i in range(a.ndim) if i not in axes]
    shape = tuple(a.shape[i] for i in rest)
    t = a.transpose(rest + list(axes)).reshape(shape + (-1,)) if a.size \
        else np.empty(shape + (0,), dtype=object)
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(shape):
        items = [_scal(x) for x in t[i]]
        if isinstance(initial, (int, float)) and initial is not None:
            items = [_scal(initial)] + items
        if not items:
            if ident is None:
                raise ValueError(
                    "zero-size array to reduction operation which has no "
                    "identity"
                )
            out[i] = lift(ident)
        elif len(items) == 1:
            out[i] = s_tb(items[0]) if boolres else items[0]
        else:
            out[i] = functools.reduce(f, items)
    if keepdims:
        out = out.reshape(
            tuple(1 if i in axes else n for i, n in enumerate(a.shape))
        )
    if out.ndim == 0:
        return out[()]
    if boolres and all(isinstance(v, (bool, np.bool_)) for v in out.flat):
        return out.astype(bool)
    return SymArray(out, "b" if boolres else None)


def accumulate(f, a, axis):
    a = to_obj(a)
    ax = _axes(axis, a.ndim)[0]
    t = np.moveaxis(a, ax, 0)
    out = np.empty(t.shape, dtype=object)
    for j in range(t.shape[0]):
        if j == 0:
            out[0] = t[0]
        else:
            r = elementwise(f, 2, out[j - 1], t[j])
            out[j] = to_obj(r) if isinstance(r, np.ndarray) else r
    return SymArray(np.moveaxis(out, 0, ax))


# ----------------------------------------------------------------------
# numpy functions


def np_any(a, axis=None, out=None, keepdims=False, **k):
    return reduce_axis(_b(operator.or_), a, axis, bool(keepdims) is True
                       if isinstance(keepdims, bool) else False, False, True)


def np_all(a, axis=None, out=None, keepdims=False, **k):
    return reduce_axis(_b(operator.and_), a, axis, keepdims is True, True,
                       True)


def np_sum(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    a = asarr(a)
    if k.get("where", True) is not True:
        a = np_where(k["where"], a, 0)
    if isinstance(a, np.ndarray) and not isinstance(a, SymArray):
        return np.sum(a, axis=axis, keepdims=keepdims is True)
    if isinstance(a, SymArray) and a.kind == "b":
        a = force_bool(a)
        return np.sum(a, axis=axis, keepdims=keepdims is True)
    return reduce_axis(operator.add, a, axis, keepdims is True, 0)


def np_prod(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    return reduce_axis(operator.mul, a, axis, keepdims is True, 1)


def np_mean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    a = asarr(a)
    axes = _axes(axis, a.ndim)
    n = 1
    for i in axes:
        n *= a.shape[i]
    s = np_sum(a, axis=axis, keepdims=keepdims)
    if n == 0:
        return s * math.nan
    return s / n if not isinstance(s, np.ndarray) else s / float(n)


def np_max(a, axis=None, out=None, keepdims=False, **k):
    return reduce_axis(s_max, a, axis, keepdims is True)


def np_min(a, axis=None, out=None, keepdims=False, **k):
    return reduce_axis(s_min, a, axis, keepdims is True)


def np_ptp(a, axis=None, out=None, keepdims=False, **k):
    return np_max(a, axis, keepdims=keepdims) - np_min(
        a, axis, keepdims=keepdims)


def np_cumsum(a, axis=None, dtype=None, out=None):
    a = asarr(a)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    return accumulate(operator.add, a, axis)


def _lt(a, b):
    """strict order used for sorting; nan sorts last (forks)."""
    if _special(a) or _special(b):
        an, bn = s_isnan(a), s_isnan(b)
        if an:
            return False
        if bn:
            return True
    return bool(a < b)


def _sort_idx(items):
    """stable insertion sort, deciding comparisons as needed."""
    idx = []
    for i, x in enumerate(items):
        j = len(idx)
        while j > 0 and _lt(x, items[idx[j - 1]]):
            j -= 1
        idx.insert(j, i)
    return idx


def np_argsort(a, axis=-1, kind=None, order=None, **k):
    a = to_obj(a)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    ax = _axes(axis, a.ndim)[0]
    t = np.moveaxis(a, ax, -1)
    out = np.empty(t.shape, dtype=int)
    for i in np.ndindex(t.shape[:-1]):
        out[i] = _sort_idx([_scal(x) for x in t[i]])
    return np.moveaxis(out, -1, ax)


def np_sort(a, axis=-1, kind=None, order=None, **k):
    o = to_obj(a)
    idx = np_argsort(o, axis)
    if axis is None:
        o = o.reshape(-1)
        axis = 0
    return SymArray(np.take_along_axis(o, idx, axis))


def _arg(a, axis, better):
    a = to_obj(a)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    ax = _axes(axis, a.ndim)[0]
    t = np.moveaxis(a, ax, -1)
    out = np.empty(t.shape[:-1], dtype=int)
    for i in np.ndindex(t.shape[:-1]):
        best = 0
        items = [_scal(x) for x in t[i]]
        for j in range(1, len(items)):
            if bool(better(items[j], items[best])):
                best = j
        out[i] = best
    return out if out.ndim else out[()]


def np_argmax(a, axis=None, out=None, **k):
    return _arg(a, axis, operator.gt)


def np_argmin(a, axis=None, out=None, **k):
    return _arg(a, axis, operator.lt)


def np_searchsorted(a, v, side="left", sorter=None):
    a = to_obj(a)
    vv = to_obj(v)
    out = np.empty(vv.shape, dtype=int)
    for i in np.ndindex(vv.shape):
        x = _scal(vv[i])
        n = 0
        for y in a:
            if bool(y < x) if side == "left" else bool(y <= x):
                n += 1
            else:
                break
        out[i] = n
    return out if out.ndim else int(out[()])


def np_unique(a, return_index=False, return_inverse=False,
              return_counts=False, axis=None, **k):
    if axis is not None:
        raise Unsupported("unique axis")
    items = [_scal(x) for x in to_obj(a).reshape(-1)]
    order = _sort_idx(items)
    keep = []
    first = []
    inv = [0] * len(items)
    counts = []
    for i in order:
        if keep and bool(items[i] == keep[-1]):
            counts[-1] += 1
            inv[i] = len(keep) - 1
            continue
        keep.append(items[i])
        first.append(i)
        counts.append(1)
        inv[i] = len(keep) - 1
    u = SymArray(to_obj(keep))
    res = [u]
    if return_index:
        res.append(np.array(first, dtype=int))
    if return_inverse:
        res.append(np.array(inv, dtype=int))
    if return_counts:
        res.append(np.array(counts, dtype=int))
    return res[0] if len(res) == 1 else tuple(res)


def np_where(cond, *xy):
    if not xy:
        return np.nonzero(force_bool(cond))
    x, y = xy
    c, x, y = np.broadcast_arrays(to_obj(cond), to_obj(x), to_obj(y))
    out = np.empty(c.shape, dtype=object)
    for i in np.ndindex(c.shape):
        out[i] = x[i] if bool(c[i]) else y[i]
    return SymArray(out) if out.ndim else out[()]


def np_nonzero(a):
    return np.nonzero(force_bool(a))


def np_flatnonzero(a):
    return np.flatnonzero(force_bool(a))


def np_argwhere(a):
    return np.argwhere(force_bool(a))


def np_count_nonzero(a, axis=None, **k):
    return np.count_nonzero(force_bool(a), axis=axis, **k)


def np_clip(a, a_min=None, a_max=None, out=None, **k):
    r = asarr(a)
    if a_min is not None:
        r = elementwise(s_max, 2, r, a_min)
    if a_max is not None:
        r = elementwise(s_min, 2, r, a_max)
    return r


def np_gradient(f, *varargs, axis=None, edge_order=1):
    f = asarr(f)
    n = f.ndim
    if axis is None:
        axes = tuple(range(n))
    else:
        axes = _axes(axis, n)
    if len(varargs) == 0:
        dx = [1.0] * len(axes)
    elif len(varargs) == 1 and np.ndim(to_obj(varargs[0])) == 0:
        dx = [_scal(to_obj(varargs[0])[()])] * len(axes)
    elif len(varargs) == len(axes):
        dx = list(varargs)
    else:
        raise TypeError("invalid number of arguments")
    if edge_order != 1:
        raise Unsupported("gradient edge_order")
    outs = []
    for ax, d in zip(axes, dx):
        N = f.shape[ax]
        if N < 2:
            raise ValueError(
                "Shape of array too small to calculate a numerical gradient, "
                "at least (edge_order + 1) elements are required."
            )
        d = to_obj(d)
        if d.ndim == 1:
            if len(d) != N:
                raise ValueError(
                    "when 1d, distances must match the length of the "
                    "corresponding dimension"
                )
            h = [d[i + 1] - d[i] for i in range(N - 1)]
        elif d.ndim == 0:
            h = [_scal(d[()])] * (N - 1)
        else:
            raise ValueError("distances must be either scalars or 1d")
        t = np.moveaxis(f.view(np.ndarray), ax, 0)
        out = np.empty(t.shape, dtype=object)

        def row(i):
            return SymArray(t[i]) if t.ndim > 1 else t[i]

        def put(i, r):
            out[i] = to_obj(r) if isinstance(r, np.ndarray) else r

        put(0, (row(1) - row(0)) / h[0])
        put(N - 1, (row(N - 1) - row(N - 2)) / h[N - 2])
        for i in range(1, N - 1):
            d1, d2 = h[i - 1], h[i]
            if d.ndim == 0 or bool(d1 == d2):
                put(i, (row(i + 1) - row(i - 1)) / (d1 + d2))
                continue
            a = s_div(-d2, d1 * (d1 + d2))
            b = s_div(d2 - d1, d1 * d2)
            c = s_div(d1, d2 * (d1 + d2))
            put(i, a * row(i - 1) + b * row(i) + c * row(i + 1))
        outs.append(SymArray(np.moveaxis(out, 0, ax)))
    return outs[0] if len(outs) == 1 else outs


def np_dot(a, b, out=None):
    a, b = to_obj(a), to_obj(b)
    if a.ndim == 0 or b.ndim == 0:
        return elementwise(operator.mul, 2, a, b)
    if b.ndim == 1:
        return np_tensordot(a, b, axes=([a.ndim - 1], [0]))
    return np_tensordot(a, b, axes=([a.ndim - 1], [b.ndim - 2]))


def np_tensordot(a, b, axes=2):
    a, b = to_obj(a), to_obj(b)
    if isinstance(axes, int):
        aa = list(range(a.ndim - axes, a.ndim))
        bb = list(range(axes))
    else:
        aa, bb = axes
        aa = [aa] if np.ndim(aa) == 0 else list(aa)
        bb = [bb] if np.ndim(bb) == 0 else list(bb)
    aa = [x % a.ndim for x in aa]
    bb = [x % b.ndim for x in bb]
    if [a.shape[i] for i in aa] != [b.shape[i] for i in bb]:
        raise ValueError("shape-mismatch for sum")
    ra = [i for i in range(a.ndim) if i not in aa]
    rb = [i for i in range(b.ndim) if i not in bb]
    sa = tuple(a.shape[i] for i in ra)
    sb = tuple(b.shape[i] for i in rb)
    A = a.transpose(ra + aa).reshape(sa + (-1,))
    B = b.transpose(rb + bb).reshape(sb + (-1,))
    out = np.empty(sa + sb, dtype=object)
    for i in np.ndindex(sa):
        for j in np.ndindex(sb):
            s = None
            for x, y in zip(A[i], B[j]):
                t = _scal(x) * _scal(y)
                s = t if s is None else s + t
            out[i + j] = s if s is not None else lift(0)
    return SymArray(out) if out.ndim else out[()]


def np_matmul(a, b, out=None, **k):
    a, b = to_obj(a), to_obj(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: Input operand does not have enough "
                         "dimensions")
    if a.ndim <= 2 and b.ndim <= 2:
        return np_dot(a, b)
    a1, b1 = a.ndim == 1, b.ndim == 1
    if a1:
        a = a[None, :]
    if b1:
        b = b[:, None]
    if a.shape[-1] != b.shape[-2]:
        raise ValueError("matmul: mismatch in core dimension")
    lead = np.broadcast_shapes(a.shape[:-2], b.shape[:-2])
    A = np.broadcast_to(a, lead + a.shape[-2:])
    B = np.broadcast_to(b, lead + b.shape[-2:])
    out = np.empty(lead + (a.shape[-2], b.shape[-1]), dtype=object)
    for i in np.ndindex(lead):
        out[i] = to_obj(np_dot(A[i], B[i]))
    if a1:
        out = out[..., 0, :]
    if b1:
        out = out[..., 0]
    return SymArray(out)


def np_einsum(spec, *ops, **k):
    ops = [to_obj(o) for o in ops]
    if not isinstance(spec, str):
        raise Unsupported("einsum operands")
    lhs, _, rhs = spec.replace(" ", "").partition("->")
    terms = lhs.split(",")
    if not _:
        letters = "".join(terms).replace(".", "")
        rhs = "".join(sorted(c for c in set(letters)
                             if letters.count(c) == 1))
        if "..." in lhs:
            rhs = "..." + rhs
    # expand ellipsis
    nell = 0
    for t, o in zip(terms, ops):
        if "..." in t:
            nell = max(nell, o.ndim - len(t.replace("...", "")))
    ell = "".join(chr(0x3B1 + i) for i in range(nell))
    nt = []
    for t, o in zip(terms, ops):
        if "..." in t:
            n = o.ndim - len(t.replace("...", ""))
            t = t.replace("...", ell[nell - n:] if n else "")
        nt.append(t)
    rhs = rhs.replace("...", ell)
    sizes = {}
    for t, o in zip(nt, ops):
        for c, n in zip(t, o.shape):
            if n != 1 or c not in sizes:
                sizes[c] = n
    sums = [c for c in sizes if c not in rhs]
    shape = tuple(sizes[c] for c in rhs)
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(shape):
        env = dict(zip(rhs, i))
        s = None
        for j in itertools.product(*[range(sizes[c]) for c in sums]):
            env.update(zip(sums, j))
            t = None
            for tt, o in zip(nt, ops):
                x = _scal(o[tuple(env[c] if o.shape[n] != 1 else 0
                                  for n, c in enumerate(tt))])
                t = x if t is None else t * x
            s = t if s is None else s + t
        out[i] = s if s is not None else lift(0)
    return SymArray(out) if out.ndim else out[()]


def np_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    d = elementwise(s_abs, 1, asarr(a) - asarr(b))
    bound = asarr(elementwise(s_abs, 1, b)) * rtol + atol
    return elementwise(operator.le, 2, d, bound, boolres=True)


def np_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return bool(np_all(np_isclose(a, b, rtol, atol, equal_nan)))


def np_isin(element, test_elements, assume_unique=False, invert=False, **k):
    e, t = to_obj(element), [_scal(x) for x in
                             to_obj(test_elements).reshape(-1)]
    out = np.empty(e.shape, dtype=bool)
    for i in np.ndindex(e.shape):
        x = _scal(e[i])
        out[i] = any(x is y for y in t) or any(bool(x == y) for y in t)
    return ~out if invert else out


def np_array_equal(a, b, equal_nan=False):
    a, b = asarr(a), asarr(b)
    if a.shape != b.shape:
        return False
    return bool(np_all(a == b)) if a.size else True


def np_interp(x, xp, fp, left=None, right=None, period=None):
    from .sshim import _interp_points

    xo, xpo, fpo = to_obj(x), to_obj(xp), to_obj(fp)
    out = np.empty(xo.shape, dtype=object)
    for i in np.ndindex(xo.shape):
        v = _scal(xo[i])
        if bool(v < xpo[0]):
            out[i] = fpo[0] if left is None else lift(left)
        elif bool(v > xpo[-1]):
            out[i] = fpo[-1] if right is None else lift(right)
        else:
            out[i] = _interp_points(v, list(xpo), list(fpo))
    return SymArray(out) if out.ndim else out[()]


def np_nan_to_num(x, *a, **k):
    return elementwise(lambda v: lift(0) if s_isnan(v) else v, 1, x)


def np_real(x):
    return x if isinstance(x, (SymArray, SymReal)) else np.real(x)


def np_median(a, axis=None, **k):
    s = np_sort(asarr(a), -1 if axis is None else axis)
    if axis is None:
        s = np_sort(to_obj(a).reshape(-1), 0)
        axis = 0
    n = s.shape[axis]
    t = np.moveaxis(s.view(np.ndarray), axis, 0)
    r = t[n // 2] if n % 2 else (t[n // 2 - 1] + t[n // 2]) / 2
    return SymArray(r) if isinstance(r, np.ndarray) else r


def np_cross(a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
    if axis is not None:
        axisa = axisb = axisc = axis
    a = np.moveaxis(to_obj(a), axisa, -1)
    b = np.moveaxis(to_obj(b), axisb, -1)
    if a.shape[-1] not in (2, 3) or b.shape[-1] not in (2, 3):
        raise ValueError(
            "incompatible dimensions for cross product\n"
            "(dimension must be 2 or 3)"
        )
    if a.shape[-1] == 2 or b.shape[-1] == 2:
        raise Unsupported("2-d cross")
    shape = np.broadcast_shapes(a.shape[:-1], b.shape[:-1])
    # numpy normalises axisc against the result
    A = np.broadcast_to(a, shape + (3,))
    B = np.broadcast_to(b, shape + (3,))
    out = np.empty(shape + (3,), dtype=object)
    for i in np.ndindex(shape):
        x, y = [_scal(v) for v in A[i]], [_scal(v) for v in B[i]]
        out[i + (0,)] = x[1] * y[2] - x[2] * y[1]
        out[i + (1,)] = x[2] * y[0] - x[0] * y[2]
        out[i + (2,)] = x[0] * y[1] - x[1] * y[0]
    return SymArray(np.moveaxis(out, -1, axisc))


def asarr(x):
    """np.asarray for shim purposes."""
    if isinstance(x, SymArray):
        return x
    return shim_asarray(x)


# -- creation ------------------------------------------------------------


def shim_asarray(x, dtype=None, copy=False, **k):
    from .qshim import SymQuat, is_qdtype

    if dtype is not None and is_qdtype(dtype):
        dtype = None
    if isinstance(x, SymArray):
        r = x
    elif isinstance(x, (SymReal, SymBool, SymQuat)):
        r = SymArray(to_obj(x))
    elif hasattr(x, "dims") and hasattr(x, "coords"):
        r = shim_asarray(x.data)
    elif isinstance(x, np.ndarray):
        r = post(x)
        if r is x and x.dtype == object and x.size == 0:
            r = SymArray(x)
    elif isinstance(x, (list, tuple)) and (
        has_sym(x) or any(isinstance(e, SymArray) for e in x)
        or any(is_objarr(e) for e in x)
        or (len(x) and isinstance(x[0], (list, tuple)) and any(
            isinstance(e, (SymArray, np.ndarray))
            for y in x if isinstance(y, (list, tuple)) for e in y))
    ):
        r = SymArray(to_obj(x))
    else:
        if hasattr(x, "__array__") and not isinstance(x, (np.generic,)):
            x = x.__array__()
            if isinstance(x, np.ndarray) and x.dtype == object:
                return shim_asarray(x, dtype, copy)
        r = post(np.array(x))
    if isinstance(r, np.ndarray) and not isinstance(r, SymArray):
        if dtype is not None:
            if np.dtype(dtype) == np.dtype(float):
                r = SymArray(to_obj(r.astype(float)))
            else:
                r = r.astype(dtype)
    elif dtype is not None and isinstance(r, SymArray):
        if dtype in (object,) or np.dtype(dtype) == np.dtype(float) or \
                np.issubdtype(np.dtype(dtype), np.floating):
            if r.isint and dtype is not object:
                r = SymArray(to_obj(r).copy())
        else:
            r = cast(r, dtype)
    if copy and r is x or (copy and isinstance(r, np.ndarray)):
        r = r.copy()
    return r


def shim_array(x, dtype=None, copy=True, ndmin=0, **k):
    r = shim_asarray(x, dtype, copy=bool(copy))
    while isinstance(r, np.ndarray) and r.ndim < ndmin:
        r = r[None]
    return r


def _floatish(dtype):
    from .qshim import is_qdtype

    if dtype is None or dtype is float:
        return True
    if is_qdtype(dtype):
        return True
    try:
        return np.issubdtype(np.dtype(dtype), np.floating) or np.dtype(
            dtype) == object
    except TypeError:
        return False


def _filled(shape, val, dtype=None):
    if not _floatish(dtype):
        return np.full(shape, val, dtype=dtype)
    out = np.empty(shape, dtype=object)
    v = lift(val)
    out[...] = v
    return SymArray(out)


def np_zeros(shape, dtype=None, **k):
    return _filled(shape, 0, dtype)


def np_ones(shape, dtype=None, **k):
    return _filled(shape, 1, dtype)


def np_empty(shape, dtype=None, **k):
    return _filled(shape, 0, dtype)


def np_full(shape, fill_value, dtype=None, **k):
    if isinstance(fill_value, (list, tuple, np.ndarray)):
        out = np.empty(shape, dtype=object)
        out[...] = to_obj(fill_value)
        return SymArray(out)
    if dtype is None and isinstance(fill_value, (bool, int)):
        return np.full(shape, fill_value)
    return _filled(shape, fill_value, dtype)


def _like(val):
    def f(a, dtype=None, order="K", subok=True, shape=None, **k):
        a = asarr(a)
        if isinstance(a, SymArray) or dtype is not None:
            if isinstance(a, SymArray) and dtype is None and a.kind == "b":
                return np.full(shape or a.shape, bool(val))
            if isinstance(a, SymArray) and dtype is None and a.isint:
                return as_int(_filled(a.shape if shape is None else shape,
                                      val, float))
            return _filled(a.shape if shape is None else shape, val, dtype)
        return np.full(a.shape if shape is None else shape, val,
                       dtype=a.dtype)

    return f


def np_full_like(a, fill_value, dtype=None, **k):
    a = asarr(a)
    if dtype is None and isinstance(a, SymArray) and a.isint:
        return as_int(_filled(a.shape, int(fill_value), float))
    return _filled(a.shape, fill_value, dtype)


def np_copy(a, order="K", subok=False):
    return shim_asarray(a, copy=True)


def np_ndim(a):
    if has_sym(a) or isinstance(a, np.ndarray):
        return to_obj(a).ndim
    return np.ndim(a)


def np_shape(a):
    if has_sym(a) or isinstance(a, np.ndarray):
        return to_obj(a).shape
    return np.shape(a)


def np_size(a, axis=None):
    o = to_obj(a)
    return o.size if axis is None else o.shape[axis]


def np_iscomplexobj(x):
    return False if isinstance(x, (SymArray, SymReal)) else np.iscomplexobj(x)


def np_nanx(f, empty=None):
    def g(a, axis=None, keepdims=False, **k):
        a = to_obj(a)
        axes = _axes(axis, a.ndim)
        rest = [i for i in range(a.ndim) if i not in axes]
        shape = tuple(a.shape[i] for i in rest)
        t = a.transpose(rest + list(axes)).reshape(shape + (-1,))
        out = np.empty(shape, dtype=object)
        for i in np.ndindex(shape):
            items = [_scal(x) for x in t[i] if not s_isnan(x)]
            out[i] = f(items) if items else math.nan
        return SymArray(out) if out.ndim else out[()]

    return g


def _apply_struct(func):
    """Structural function: run on plain object arrays."""

    def f(*args, **kwargs):
        ints = all_int((args, tuple(kwargs.values())))
        args = tuple(_structarg(a) for a in args)
        kwargs = {k: _structarg(v) for k, v in kwargs.items()}
        return as_int(post(func(*args, **kwargs)), ints)

    return f


def _structarg(a):
    if isinstance(a, SymArray):
        return a.view(np.ndarray)
    if has_sym(a) and not isinstance(a, (list, tuple)):
        return to_obj(a)
    if isinstance(a, (list, tuple)):
        if any(isinstance(x, (SymArray, list, tuple)) for x in a) and any(
            isinstance(x, SymArray) or has_sym(x) for x in a
        ):
            return type(a)(_structarg(x) for x in a)
        if has_sym(a):
            return to_obj(a)
    return a


def _seq_struct(func):
    """Function of a sequence of arrays (stack, concatenate...)."""

    def f(arrays, *args, **kwargs):
        ints = all_int(arrays)
        if isinstance(arrays, SymArray):
            arrays = list(arrays)
        arrays = [to_obj(a) if _any_symbolic(arrays) else a for a in arrays]
        return as_int(post(func(arrays, *plain(args), **plain(kwargs))),
                      ints)

    return f


def _any_symbolic(seq):
    return any(
        isinstance(a, SymArray) or has_sym(a) or is_objarr(a)
        or (isinstance(a, np.ndarray) and np.issubdtype(
            a.dtype, np.floating))
        or isinstance(a, float)
        for a in seq
    )


# -- linalg ---------------------------------------------------------------


def la_norm(x, ord=None, axis=None, keepdims=False):
    x = asarr(x)
    if not isinstance(x, SymArray):
        return post(np.linalg.norm(x, ord, axis, keepdims))
    if ord not in (None, 2, "fro"):
        raise Unsupported("norm ord")
    if axis is None and ord == 2 and x.ndim > 1:
        raise Unsupported("matrix 2-norm")
    sq = elementwise(lambda v: v * v, 1, x)
    s = reduce_axis(operator.add, sq, axis, keepdims is True, 0)
    return elementwise(s_sqrt, 1, s)


def la_det(a):
    a = to_obj(a)
    n = a.shape[-1]
    lead = a.shape[:-2]
    out = np.empty(lead, dtype=object)
    for i in np.ndindex(lead):
        out[i] = _det([[_scal(v) for v in r] for r in a[i]])
    return SymArray(out) if lead else out[()]


def _det(m):
    if len(m) == 1:
        return m[0][0]
    s = None
    for j in range(len(m)):
        minor = [r[:j] + r[j + 1:] for r in m[1:]]
        t = m[0][j] * _det(minor)
        if j % 2:
            t = -t
        s = t if s is None else s + t
    return s


def la_inv(a):
    a = to_obj(a)
    if a.ndim != 2:
        raise Unsupported("batched inv")
    m = [[_scal(v) for v in r] for r in a]
    n = len(m)
    d = _det(m)
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            minor = [r[:j] + r[j + 1:] for k, r in enumerate(m) if k != i]
            c = _det(minor) if n > 1 else lift(1)
            out[j, i] = s_div(c if (i + j) % 2 == 0 else -c, d)
    return SymArray(out)


def _stub(name):
    def f(*a, **k):
        from . import stubs

        return getattr(stubs, name)(*a, **k)

    return f


class Shim:
    """Attribute-compatible numpy namespace."""

    def __init__(self, real, table, name):
        self.__dict__["_real"] = real
        self.__dict__["_table"] = table
        self.__dict__["__name__"] = name

    def __getattr__(self, name):
        t = self._table
        if name in t:
            return t[name]
        v = getattr(self._real, name)
        if isinstance(v, np.ufunc):
            r = _ufunc_wrap(v)
        elif isinstance(v, type) or not callable(v):
            r = v
        else:
            r = _generic_wrap(v)
        t[name] = r
        return r


class _ufunc_wrap:
    """Callable ufunc look-alike accepting lists of symbolic scalars."""

    def __init__(self, u):
        self.u = u
        self.__name__ = u.__name__

    def __call__(self, *args, **kw):
        n = self.u.nin
        ins, outs = args[:n], args[n:]
        out = kw.pop("out", None)
        if outs:
            out = outs[0]
        if out is not None and not isinstance(out, tuple):
            out = (out,)
        if any(needs_sym(a) for a in ins):
            return sym_ufunc(self.u, "__call__", ins, out, kw)
        if out is not None:
            kw["out"] = out
        return post(self.u(*ins, **kw))

    def reduce(self, a, axis=0, **kw):
        if needs_sym(a):
            kw["axis"] = axis
            return sym_ufunc(self.u, "reduce", (a,), None, kw)
        return post(self.u.reduce(a, axis=axis, **kw))

    def accumulate(self, a, axis=0, **kw):
        if needs_sym(a):
            return sym_ufunc(self.u, "accumulate", (a,), None,
                             {"axis": axis})
        return post(self.u.accumulate(a, axis=axis, **kw))

    def outer(self, a, b, **kw):
        if needs_sym(a) or needs_sym(b):
            return sym_ufunc(self.u, "outer", (a, b), None, kw)
        return post(self.u.outer(a, b, **kw))

    def __getattr__(self, n):
        return getattr(self.u, n)


def needs_sym(a):
    if isinstance(a, SymArray) or has_sym(a) or is_objarr(a):
        return True
    if isinstance(a, (list, tuple)):
        return any(needs_sym(x) for x in a)
    if hasattr(a, "dims") and hasattr(a, "coords"):
        d = a.data
        return isinstance(d, SymArray) or is_objarr(d)
    return False


def _generic_wrap(func):
    h = None
    try:
        h = OVERRIDES.get(func)
    except TypeError:
        pass
    if h is not None:
        def f(*args, **kwargs):
            if any(needs_sym(a) for a in args) or any(
                needs_sym(v) for v in kwargs.values()
            ):
                return h(*args, **kwargs)
            return post(func(*args, **kwargs))
    else:
        struct = _apply_struct(func)

        def f(*args, **kwargs):
            try:
                return struct(*args, **kwargs)
            except (TypeError, AttributeError) as e:
                if "Sym" in str(e):
                    raise Unsupported(f"{func.__name__}: {e}") from e
                raise

    f.__name__ = getattr(func, "__name__", "f")
    return f


OVERRIDES = {
    np.any: np_any,
    np.all: np_all,
    np.sum: np_sum,
    np.prod: np_prod,
    np.mean: np_mean,
    np.average: lambda a, axis=None, weights=None, **k: _avg(
        a, axis, weights),
    np.max: np_max,
    np.amax: np_max,
    np.min: np_min,
    np.amin: np_min,
    np.ptp: np_ptp,
    np.cumsum: np_cumsum,
    np.argsort: np_argsort,
    np.sort: np_sort,
    np.argmax: np_argmax,
    np.argmin: np_argmin,
    np.searchsorted: np_searchsorted,
    np.unique: np_unique,
    np.where: np_where,
    np.nonzero: np_nonzero,
    np.flatnonzero: np_flatnonzero,
    np.argwhere: np_argwhere,
    np.count_nonzero: np_count_nonzero,
    np.clip: np_clip,
    np.gradient: np_gradient,
    np.dot: np_dot,
    np.tensordot: np_tensordot,
    np.inner: lambda a, b: np_tensordot(a, b, axes=(-1, -1)),
    np.outer: lambda a, b, out=None: elementwise(
        operator.mul, 2, to_obj(a).reshape(-1)[:, None],
        to_obj(b).reshape(-1)[None]),
    np.einsum: np_einsum,
    np.isclose: np_isclose,
    np.allclose: np_allclose,
    np.array_equal: np_array_equal,
    np.isin: np_isin,
    np.round: np_round,
    np.around: np_round,
    np.digitize: np_digitize,
    np.linalg.solve: la_solve,
    np.angle: lambda z, deg=False: elementwise(
        s_arctan2, 2, asarr(z) * 0, z),
    np.interp: np_interp,
    np.nan_to_num: np_nan_to_num,
    np.real: np_real,
    np.median: np_median,
    np.cross: np_cross,
    np.copy: np_copy,
    np.ndim: np_ndim,
    np.shape: np_shape,
    np.size: np_size,
    np.iscomplexobj: np_iscomplexobj,
    np.zeros_like: _like(0),
    np.ones_like: _like(1),
    np.empty_like: _like(0),
    np.full_like: np_full_like,
    np.linalg.norm: la_norm,
    np.linalg.det: la_det,
    np.linalg.inv: la_inv,
    np.linalg.svd: _stub("svd"),
    np.linalg.eig: _stub("eig"),
    np.linalg.eigh: _stub("eigh"),
    np.nanmean: np_nanx(lambda it: functools.reduce(operator.add, it)
                        / len(it)),
    np.nanmax: np_nanx(lambda it: functools.reduce(s_max, it)),
    np.nanmin: np_nanx(lambda it: functools.reduce(s_min, it)),
    np.nansum: lambda a, axis=None, **k: np_sum(
        np_nan_to_num(a), axis=axis),
    np.concatenate: _seq_struct(np.concatenate),
    np.stack: _seq_struct(np.stack),
    np.hstack: _seq_struct(np.hstack),
    np.vstack: _seq_struct(np.vstack),
    np.dstack: _seq_struct(np.dstack),
    np.column_stack: _seq_struct(np.column_stack),
    np.broadcast_arrays: lambda *a, **k: [
        post(x) for x in np.broadcast_arrays(*[to_obj(y) for y in a])],
    np.append: lambda a, v, axis=None: post(
        np.append(to_obj(a), to_obj(v), axis=axis)),
    np.insert: lambda a, i, v, axis=None: post(
        np.insert(to_obj(a), i, to_obj(v), axis=axis)),
}


def _avg(a, axis, weights):
    if weights is None:
        return np_mean(a, axis)
    w = asarr(weights)
    a = asarr(a)
    if w.shape != a.shape:
        sh = [1] * a.ndim
        sh[axis] = -1
        w = w.reshape(sh)
    return np_sum(a * w, axis) / np_sum(w * np_ones(a.shape), axis)


def np_diff(a, n=1, axis=-1, **k):
    a = asarr(a)
    if not isinstance(a, SymArray):
        return np.diff(a, n=n, axis=axis, **k)
    o = to_obj(a)
    for _ in range(n):
        sl1 = [slice(None)] * o.ndim
        sl2 = [slice(None)] * o.ndim
        sl1[axis] = slice(1, None)
        sl2[axis] = slice(None, -1)
        r = elementwise(operator.sub, 2, o[tuple(sl1)], o[tuple(sl2)])
        o = to_obj(r)
    return SymArray(o)


OVERRIDES[np.diff] = np_diff
if hasattr(np, "in1d"):
    OVERRIDES[np.in1d] = np_isin


def np_issubdtype(a, b):
    from .qshim import is_qdtype

    if is_qdtype(a) or is_qdtype(b):
        return is_qdtype(a) and is_qdtype(b)
    return np.issubdtype(a, b)


CREATE = {
    "asarray": shim_asarray,
    "asanyarray": shim_asarray,
    "ascontiguousarray": shim_asarray,
    "asfarray": lambda x, dtype=float: shim_asarray(x, float),
    "array": shim_array,
    "zeros": np_zeros,
    "ones": np_ones,
    "empty": np_empty,
    "full": np_full,
    "copy": np_copy,
    "issubdtype": np_issubdtype,
    "atleast_1d": lambda x: asarr(x) if asarr(x).ndim else asarr(x)[None],
    "interp": np_interp,
    "isscalar": lambda x: isinstance(x, E.SymReal) or np.isscalar(x),
    "float64": None,
}
del CREATE["float64"]

_linalg = Shim(np.linalg, {}, "numpy.linalg")
NP = Shim(np, dict(CREATE, linalg=_linalg), "numpy")
