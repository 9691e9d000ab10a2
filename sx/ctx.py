"""Execution contexts of a harness: symbolic, concrete, shim-on-constants.

A harness is one Python function of a context.  Run symbolically it yields
solver obligations about the repository code; run concretely it executes the
real code with the real libraries on given input values.
"""
import gc
import math
import random
import traceback
import warnings
import zlib
from fractions import Fraction

import numpy as np

from . import engine as E
from . import loader, nshim
from .engine import (
    AssumeFailed,
    PathInfeasible,
    PathLimit,
    SymBool,
    SymReal,
    Unsupported,
    mkbool,
)
from .nshim import SymArray, to_obj

TOL = 1e-6


class Fail(Exception):
    pass


class CheckFailed(BaseException):
    """Internal: a concrete check failed (collected, not raised)."""


class Base:
    """Input declaration helpers common to all contexts."""

    extra = None
    whole = False

    def reals(self, name, n):
        return [self.real(f"{name}{i}") for i in range(n)]

    def ints(self, name, n):
        return [self.int(f"{name}{i}") for i in range(n)]

    def vec3(self, name):
        return [self.real(name + c) for c in "xyz"]

    def mat(self, name, n, m):
        return [self.reals(f"{name}_{i}_", m) for i in range(n)]

    def block(self, name, shape):
        """Nested list of fresh reals."""
        if not shape:
            return self.real(name)
        return [self.block(f"{name}_{i}", shape[1:]) for i in range(shape[0])]

    def units(self, name, n):
        return [self.unit(f"{name}{i}") for i in range(n)]

    def times(self, name, n, strict=True):
        t = [self.real(f"{name}{i}") for i in range(n)]
        for a, b in zip(t, t[1:]):
            self.assume(a < b if strict else a <= b)
        return t

    def finish(self):
        """Nothing is examined any more; what remains is destroyed."""
        if self.sym:
            self.eng.quiet = True

    def name_differs(self, a, b):
        """Truth value of two symbolic names being different."""
        if self.sym and isinstance(a, E.SymName):
            return a.code != b.code
        return a != b

    # -- exceptions ------------------------------------------------------
    def outcome(self, fn, *a, **k):
        """('ok', value) or ('err', exception)."""
        try:
            return "ok", fn(*a, **k)
        except Unsupported:
            raise
        except Exception as e:
            return "err", e

    def raises(self, name, exc, fn, *a, **k):
        kind, v = self.outcome(fn, *a, **k)
        if kind == "ok":
            self.check(name + ": raises", False)
            return None
        if not isinstance(v, exc):
            self.check(
                f"{name}: raises {exc} (got {type(v).__name__})", False)
        else:
            self.check(name + ": raises", True)
        return v

    def same(self, name, a, b):
        """Concrete (non-numeric) equality."""
        ok = a == b
        self.check(f"{name}" + ("" if ok else f": {a!r} != {b!r}"[:200]), ok)
        return ok

    def shape(self, name, a, shp):
        s = tuple(np.shape(to_obj(a)) if self.sym else np.shape(a))
        self.check(name + " shape", s == tuple(shp))
        return s == tuple(shp)

    def nested(self, a):
        """array -> nested lists of scalars"""
        if self.sym:
            a = to_obj(a)
        else:
            a = np.asarray(a)
            if a.dtype.kind not in "fiubO":
                import quaternion as Q

                a = Q.as_float_array(a)
        return a.tolist()

    def all_eq(self, a, b):
        r = True
        for x, y in zip(flat(a), flat(b)):
            r = self.And(r, x == y)
        return r


def whole_times(t):
    """Whole numbers in the same order."""
    out = []
    for v in t:
        v = round(v)
        out.append(v if not out or v > out[-1] else out[-1] + 1)
    return out


def flat(x):
    if isinstance(x, (list, tuple)):
        out = []
        for e in x:
            out.extend(flat(e))
        return out
    if isinstance(x, np.ndarray) and not isinstance(x, SymArray):
        if x.dtype != object:
            return [float(v) for v in x.reshape(-1)]
        return list(x.reshape(-1))
    if isinstance(x, SymArray):
        return list(to_obj(x).reshape(-1))
    from .qshim import SymQuat

    if isinstance(x, SymQuat):
        return list(x.c)
    return [x]


def shape_of(x):
    if isinstance(x, (list, tuple)):
        return (len(x),) + (shape_of(x[0]) if x else ())
    if isinstance(x, SymArray):
        return x.shape
    if isinstance(x, np.ndarray):
        return x.shape
    if hasattr(x, "shape"):
        return tuple(x.shape)
    return ()


_table = None


def world(sym, table_extra=None, block=()):
    global _table
    if sym:
        loader.patch_xarray()
        if _table is None:
            _table = loader.sym_table()
        t = dict(_table)
    else:
        t = {}
    if table_extra:
        t.update(table_extra)
    return loader.World(t, block)


class SymCtx(Base):
    sym = True

    def __init__(self, eng, table=None, params=None, block=()):
        self.eng = eng
        self.np = nshim.NP
        self.table = table
        self.block_mods = block
        self.params = params or {}
        self._w = None
        self.observed = []

    @property
    def w(self):
        if self._w is None:
            t = self.table(self) if callable(self.table) else self.table
            self._w = world(True, t, self.block_mods)
        return self._w

    @property
    def rbm(self):
        return self.w.pkg

    def mod(self, name):
        return self.w.load("rigid_body_motion." + name)

    # -- inputs
    def real(self, name):
        if self.whole:
            return self.eng.integer(name)
        return self.eng.real(name)

    def int(self, name):
        return self.eng.integer(name)

    def int_array(self, x):
        """Array of integer type."""
        a = SymArray(to_obj(x).copy())
        a._k = "i"
        return a

    def unit(self, name):
        return self.eng.unit_group([name + c for c in "wxyz"])

    def unitn(self, name, n):
        return self.eng.unit_group([f"{name}_{i}" for i in range(n)])

    def angle(self, name, unit=1, principal=False):
        """angle variable; ``unit``: smallest multiple the code uses."""
        v = self.eng.newvar(name)
        self.eng.touch(v)
        self.eng.set_unit(v.id, unit)
        if principal == "full":
            self.eng.principal = tuple(self.eng.principal) + (v.id,)
        elif principal == "half":
            self.eng.principal_pos = tuple(self.eng.principal_pos) + (v.id,)
        return self.eng.sym(v)

    def cos(self, a):
        return self.eng.cos(a)

    def sin(self, a):
        return self.eng.sin(a)

    def sqrt(self, x):
        return self.eng.sqrt(SymReal.lift(x))

    def exact(self, xs):
        """Constants that calculate without rounding."""
        return [SymReal.lift(float(x)) for x in xs]

    def choose(self, name, options):
        return self.eng.choose(name, options)

    def name(self, text):
        """Symbolic string: which names coincide is up to the solver."""
        return E.SymName(text, self.eng.real("name:" + text))

    def array(self, x):
        a = SymArray(to_obj(x).copy())
        if self.whole and a.size and all(
            isinstance(v, SymReal) and self.eng.is_whole(v)
            for v in to_obj(a).flat
        ):
            a._k = "i"
        return a

    def quat(self, x):
        """Quaternion-typed array of nested components."""
        from . import qshim

        a = to_obj(x)
        out = np.empty(a.shape[:-1], dtype=object)
        for i in np.ndindex(out.shape):
            out[i] = qshim.SymQuat(*a[i])
        return SymArray(out, "q")

    def comp(self, q):
        """Components of a quaternion-typed result, nested lists."""
        from . import qshim

        return self.nested(qshim.as_float_array(q))

    def derivative(self, rows, t):
        """Derivative of nested rows with respect to the times."""
        from . import stubs

        return self.nested(stubs.derivative(
            self.array(rows), self.array(t), axis=0))

    def rotvec(self, q):
        """Rotation vector of one quaternion."""
        from . import qshim, stubs

        return list(stubs.rotation_vector(qshim.SymQuat(*[
            SymReal.lift(v) for v in q])))

    def is_quat(self, q):
        from . import qshim

        return isinstance(q, qshim.SymQuat) or getattr(q, "kind", "") == "q"

    def assume(self, c):
        if isinstance(c, SymBool):
            f = c.f
            if self.eng.prules:
                f = self.eng._simplify(f)
            if self.eng.feasible(f) is False:
                raise PathInfeasible
            self.eng.assume_f(f)
        elif not c:
            raise PathInfeasible

    def And(self, *cs):
        r = True
        for c in cs:
            if isinstance(c, SymBool):
                r = c if r is True else (r & c)
            elif not c:
                return False
        return r

    def Or(self, *cs):
        r = False
        for c in cs:
            if isinstance(c, SymBool):
                r = c if r is False else (r | c)
            elif c:
                return True
        return r

    def Not(self, c):
        return ~c if isinstance(c, SymBool) else not c

    def implies(self, a, b):
        return self.Or(self.Not(a), b)

    # -- obligations
    def check(self, name, c):
        if isinstance(c, SymBool):
            self.eng.oblige(name, c.f)
        else:
            self.eng.oblige(name, bool(c))

    def eq(self, name, a, b, tol=None):
        sa, sb = shape_of(a), shape_of(b)
        if sa != sb:
            self.eng.oblige(f"{name} (shape {sa} vs {sb})", False)
            return
        fa, fb = flat(a), flat(b)
        self.observed.append((name, fa))
        fs = []
        for x, y in zip(fa, fb):
            fs.append(scalar_eq(x, y))
        self.eng.oblige(name, E.f_and(*fs))

    def close(self, name, a, b, tol=None):
        self.eq(name, a, b)

    def soft(self):
        """Keep minima and maxima as unknowns instead of forking."""
        self.eng.notes["soft"] = {}

    def decide(self, c):
        """Force a truth value (forks)."""
        return bool(c)


def scalar_eq(x, y):
    for v in (x, y):
        if isinstance(v, (bool, np.bool_, SymBool)):
            r = (x == y)
            return r.f if isinstance(r, SymBool) else bool(r)
    xn = isinstance(x, float) and x != x
    yn = isinstance(y, float) and y != y
    if xn or yn:
        return xn and yn
    r = E._cmp("==", x if isinstance(x, SymReal) else _num(x),
               y if isinstance(y, SymReal) else _num(y))
    if r is NotImplemented:
        return False
    return r.f if isinstance(r, SymBool) else bool(r)


def _num(x):
    if isinstance(x, (float, np.floating)) and not math.isfinite(x):
        return float(x)
    return SymReal.lift(x)


class ConstCtx(SymCtx):
    """Shim executed on constants (validation of the encoding)."""

    def __init__(self, eng, values, choices, rng, table=None, params=None,
                 block=()):
        super().__init__(eng, table, params, block)
        self.values = values
        self.forced = choices
        self.rng = rng

    def real(self, name):
        v = float(self.values(name))
        return SymReal.lift(round(v) if self.whole else v)

    def int(self, name):
        return SymReal.lift(int(round(float(self.values(name)))))

    def unit(self, name):
        return [SymReal.lift(v) for v in self.values.unit(name, 4)]

    def unitn(self, name, n):
        return [SymReal.lift(v) for v in self.values.unit(name, n)]

    def angle(self, name, unit=1, principal=False):
        return SymReal.lift(float(self.values(name)))

    def choose(self, name, options):
        return list(options)[self.forced(name, len(list(options)))]

    def name(self, text):
        return text

    def assume(self, c):
        if not c:
            raise AssumeFailed

    def times(self, name, n, strict=True):
        t = self.values.times(name, n)
        if self.whole:
            t = whole_times(t)
        return [SymReal.lift(v) for v in t]

    def check(self, name, c):
        pass

    def eq(self, name, a, b, tol=None):
        sa, sb = shape_of(a), shape_of(b)
        if sa == sb:
            self.observed.append((name, flat(a)))


class ConcCtx(Base):
    """Real code, real libraries, given input values."""

    sym = False

    def __init__(self, values, choices, table=None, params=None, block=()):
        self.values = values
        self.forced = choices
        self.np = np
        self.table = table
        self.block_mods = block
        self.params = params or {}
        self._w = None
        self.failed = []
        self.observed = []

    @property
    def w(self):
        if self._w is None:
            t = self.table(self) if callable(self.table) else self.table
            self._w = world(False, t, self.block_mods)
        return self._w

    @property
    def rbm(self):
        return self.w.pkg

    def mod(self, name):
        return self.w.load("rigid_body_motion." + name)

    def real(self, name):
        v = float(self.values(name))
        return round(v) if self.whole else v

    def int(self, name):
        return int(round(float(self.values(name))))

    def int_array(self, x):
        return np.array(x, dtype=np.int64)

    def unit(self, name):
        return self.values.unit(name, 4)

    def unitn(self, name, n):
        return self.values.unit(name, n)

    def angle(self, name, unit=1, principal=False):
        return float(self.values(name))

    def times(self, name, n, strict=True):
        t = self.values.times(name, n)
        if self.whole:
            t = whole_times(t)
        for a, b in zip(t, t[1:]):
            self.assume(a < b if strict else a <= b)
        return t

    cos = staticmethod(math.cos)
    sin = staticmethod(math.sin)

    def sqrt(self, x):
        return math.sqrt(x)

    def exact(self, xs):
        return [float(x) for x in xs]

    def choose(self, name, options):
        options = list(options)
        return options[self.forced(name, len(options))]

    def name(self, text):
        return "name_%r" % self.values("name:" + text)

    def array(self, x):
        a = np.array(x, dtype=float)
        if self.whole and a.size and (a == np.round(a)).all():
            a = a.astype(np.int64)
        return a

    def quat(self, x):
        import quaternion as Q

        return np.asarray(Q.as_quat_array(np.array(x, dtype=float)))

    def comp(self, q):
        import quaternion as Q

        return Q.as_float_array(q).tolist()

    def derivative(self, rows, t):
        import quaternion as Q

        return Q.derivative(np.array(rows, dtype=float),
                            np.array(t, dtype=float), axis=0).tolist()

    def rotvec(self, q):
        import quaternion as Q

        return Q.as_rotation_vector(np.quaternion(*q)).tolist()

    def is_quat(self, q):
        import quaternion as Q

        return isinstance(q, Q.quaternion) or getattr(
            q, "dtype", None) == Q.quaternion

    def assume(self, c):
        if not c:
            raise AssumeFailed

    def And(self, *cs):
        return all(bool(c) for c in cs)

    def Or(self, *cs):
        return any(bool(c) for c in cs)

    def Not(self, c):
        return not c

    def implies(self, a, b):
        return (not a) or bool(b)

    def decide(self, c):
        return bool(c)

    def check(self, name, c):
        if not bool(c):
            self.failed.append(name)

    def eq(self, name, a, b, tol=None):
        sa, sb = shape_of(a), shape_of(b)
        if sa != sb:
            self.failed.append(f"{name} (shape {sa} vs {sb})")
            return
        fa = [float(v) for v in flat(a)]
        fb = [float(v) for v in flat(b)]
        self.observed.append((name, fa))
        tol = tol or TOL
        scale = max([1.0] + [abs(v) for v in fa + fb if math.isfinite(v)])
        for x, y in zip(fa, fb):
            if x != x and y != y:
                continue
            if x == y:
                continue
            if not abs(x - y) <= tol * scale:
                self.failed.append(f"{name}: got {x!r}, expected {y!r}")
                return

    close = eq


class Values:
    """Named input values: given ones, else pseudo-random by name."""

    def __init__(self, given=None, seed=0):
        self.given = given or {}
        self.seed = seed
        self.used = {}

    def rng(self, name):
        return random.Random(zlib.crc32(name.encode()) * 7919 + self.seed)

    def __call__(self, name):
        v = self.given.get(name)
        if v is None:
            r = self.rng(name)
            v = round(r.uniform(-3, 3), 3)
        self.used[name] = v
        return v

    def unit(self, name, n):
        names = [name + c for c in "wxyz"] if n == 4 else [
            f"{name}_{i}" for i in range(n)]
        if all(x in self.given for x in names):
            v = [float(self.given[x]) for x in names]
        else:
            # wxyz names of an n==4 unitn group
            alt = [f"{name}_{i}" for i in range(n)]
            if all(x in self.given for x in alt):
                v = [float(self.given[x]) for x in alt]
            else:
                r = self.rng(name)
                v = [r.gauss(0, 1) for _ in range(n)]
        self.used.update(zip(names, v))
        s = math.sqrt(sum(x * x for x in v))
        return [x / s for x in v] if s else v

    def times(self, name, n):
        names = [f"{name}{i}" for i in range(n)]
        if any(x in self.given for x in names):
            t = [float(self(x)) for x in names]
        else:
            r = self.rng(name)
            t = [r.choice((0.0, 0.5, 1.0))]
            for _ in range(n - 1):
                t.append(t[-1] + r.choice((0.5, 1.0, 1.5)))
        self.used.update(zip(names, t))
        return t


class Choices:
    def __init__(self, given=None, rng=None):
        self.given = given or {}
        self.rng = rng

    def __call__(self, name, n):
        if name not in self.given:
            self.given[name] = self.rng.randrange(n) if self.rng else 0
        return min(self.given[name], n - 1)


# ----------------------------------------------------------------------


def run_concrete(case, values, choices, seed=0):
    """Execute the harness on the real code.

    Returns (status, messages): 'fail' | 'ok' | 'assume' | 'error'.
    """
    ctx = ConcCtx(Values(values, seed), Choices(dict(choices)),
                  case.table, case.params, case.block)
    prev, E.CURRENT = E.CURRENT, None
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                try:
                    case.fn(ctx, **case.params)
                except AssumeFailed:
                    return "assume", [], ctx
                except Unsupported as e:
                    return "error", [str(e)], ctx
                except Exception as e:
                    tb = traceback.extract_tb(e.__traceback__)
                    where = [f"{f.filename}:{f.lineno}" for f in tb][-3:]
                    return "fail", [
                        f"unexpected {type(e).__name__}: {e} at {where}"
                    ], ctx
    finally:
        E.CURRENT = prev
    if ctx.failed:
        return "fail", ctx.failed[:5], ctx
    return "ok", [], ctx
