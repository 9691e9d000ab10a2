"""Symbolic stand-in for the numpy-quaternion package."""
import math
import operator
from fractions import Fraction

import numpy as np

from . import engine as E
from . import poly as P
from .engine import SymReal, Unsupported, engine, is_number
from . import nshim as N
from .nshim import SymArray, elementwise, lift, to_obj


class SymQuat:
    __slots__ = ("c",)

    def __init__(self, w=0, x=0, y=0, z=0):
        self.c = tuple(lift(v) for v in (w, x, y, z))

    w = property(lambda s: s.c[0])
    x = property(lambda s: s.c[1])
    y = property(lambda s: s.c[2])
    z = property(lambda s: s.c[3])
    real = property(lambda s: s.c[0])
    imag = property(lambda s: SymArray(to_obj(list(s.c[1:]))))
    vec = imag
    scalar = real
    components = property(lambda s: SymArray(to_obj(list(s.c))))
    ndim = 0
    shape = ()
    size = 1

    @property
    def dtype(self):
        return QDTYPE

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def item(self):
        return self

    def conjugate(self):
        w, x, y, z = self.c
        return SymQuat(w, -x, -y, -z)

    conj = conjugate

    def __invert__(self):
        return self.conjugate()

    def norm(self):  # squared, as in numpy-quaternion
        return sum((v * v for v in self.c[1:]), self.c[0] * self.c[0])

    def abs(self):
        return engine().sqrt(self.norm())

    __abs__ = abs

    def normalized(self):
        return self / self.abs()

    def inverse(self):
        n = self.norm()
        if isinstance(n, SymReal):
            n = engine().reduce_real(n)
        return SymQuat(*[N.s_div(v, n) for v in self.conjugate().c])

    reciprocal = inverse

    def sqrt(self):
        raise Unsupported("quaternion sqrt")

    def __neg__(self):
        return SymQuat(*[-v for v in self.c])

    def __pos__(self):
        return self

    def __add__(self, o):
        if isinstance(o, SymQuat):
            return SymQuat(*[a + b for a, b in zip(self.c, o.c)])
        if isinstance(o, SymReal) or is_number(o):
            return SymQuat(self.c[0] + o, *self.c[1:])
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        r = self.__add__(-o) if not isinstance(o, np.ndarray) else \
            NotImplemented
        return r

    def __rsub__(self, o):
        return (-self).__add__(o)

    def __mul__(self, o):
        if isinstance(o, SymQuat):
            a, b, c, d = self.c
            e, f, g, h = o.c
            return SymQuat(
                a * e - b * f - c * g - d * h,
                a * f + b * e + c * h - d * g,
                a * g - b * h + c * e + d * f,
                a * h + b * g - c * f + d * e,
            )
        if isinstance(o, SymReal) or is_number(o):
            return SymQuat(*[v * o for v in self.c])
        return NotImplemented

    def __rmul__(self, o):
        if isinstance(o, SymReal) or is_number(o):
            return SymQuat(*[v * o for v in self.c])
        return NotImplemented

    def __truediv__(self, o):
        if isinstance(o, SymQuat):
            return self * o.inverse()
        if isinstance(o, SymReal) or is_number(o):
            return SymQuat(*[N.s_div(v, lift(o)) for v in self.c])
        return NotImplemented

    def __rtruediv__(self, o):
        if isinstance(o, SymReal) or is_number(o):
            return self.inverse() * o
        return NotImplemented

    def __eq__(self, o):
        if isinstance(o, SymQuat):
            r = True
            for a, b in zip(self.c, o.c):
                t = a == b
                r = t if r is True else (r & t)
            return r
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        return 17

    def __repr__(self):
        return f"quaternion{self.c}"

    def __pow__(self, n):
        if n == -1:
            return self.inverse()
        if is_number(n) and float(n) == int(n) and n >= 0:
            r = SymQuat(1, 0, 0, 0)
            for _ in range(int(n)):
                r = r * self
            return r
        raise Unsupported("quaternion power")


class _QType:
    """Plays both the role of the quaternion class and of its dtype."""

    name = "quaternion"
    type = None
    kind = "V"
    itemsize = 32

    def __call__(self, *a):
        if len(a) == 4:
            return SymQuat(*a)
        if len(a) == 1:
            if isinstance(a[0], SymQuat):
                return a[0]
            return SymQuat(a[0], 0, 0, 0)
        if len(a) == 3:
            return SymQuat(0, *a)
        raise TypeError("quaternion expects 1, 3 or 4 arguments")

    def __instancecheck__(self, o):
        return isinstance(o, SymQuat)

    def __eq__(self, o):
        return self is o or o is SymQuat

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        return 3

    def __repr__(self):
        return "dtype(quaternion)"


QDTYPE = _QType()
_QType.type = QDTYPE


def is_qdtype(d):
    return isinstance(d, _QType)


quaternion = QDTYPE


def as_float_array(a):
    if isinstance(a, SymQuat):
        return SymArray(to_obj(list(a.c)))
    a = to_obj(a)
    out = np.empty(a.shape + (4,), dtype=object)
    for i in np.ndindex(a.shape):
        q = a[i]
        if not isinstance(q, SymQuat):
            raise TypeError("as_float_array of a non-quaternion array")
        for j in range(4):
            out[i + (j,)] = q.c[j]
    return SymArray(out, "f")


def as_quat_array(a):
    a = N.asarr(a)
    if isinstance(a, SymArray) and a.kind == "q" and a.size:
        raise TypeError("Can't cast quaternion array to float")
    a = to_obj(a)
    if a.ndim == 0:
        raise ValueError("Failed to view input data as quaternions")
    if a.shape == (4,):
        return SymQuat(*a)
    n = a.shape[-1]
    if n % 4:
        raise ValueError(
            "Failed to view input data as a series of quaternions. Please "
            "ensure that the last dimension has size divisible by 4."
        )
    lead = a.shape[:-1] + ((n // 4,) if n != 4 else ())
    if n == 4:
        out = np.empty(a.shape[:-1], dtype=object)
        for i in np.ndindex(out.shape):
            out[i] = SymQuat(*a[i])
    else:
        b = a.reshape(a.shape[:-1] + (n // 4, 4))
        out = np.empty(b.shape[:-1], dtype=object)
        for i in np.ndindex(out.shape):
            out[i] = SymQuat(*b[i])
    return SymArray(out, "q")


from_float_array = as_quat_array


def _qobj(q):
    if isinstance(q, SymQuat):
        a = np.empty((), dtype=object)
        a[()] = q
        return a
    return to_obj(q)


def from_vector_part(v, vector_axis=-1):
    v = np.moveaxis(to_obj(N.asarr(v)), vector_axis, -1)
    out = np.empty(v.shape[:-1], dtype=object)
    for i in np.ndindex(out.shape):
        out[i] = SymQuat(0, *v[i])
    return SymArray(out, "q") if out.ndim else out[()]


def as_vector_part(q):
    return as_float_array(q)[..., 1:]


def rotmat(q):
    """3x3 rows of the rotation of any non-zero quaternion."""
    w, x, y, z = q.c
    n = q.norm()
    if isinstance(n, SymReal):
        n = engine().reduce_real(n)
    d = lambda v: N.s_div(v, n)
    return [
        [1 - d(2 * (y * y + z * z)), d(2 * (x * y - z * w)),
         d(2 * (x * z + y * w))],
        [d(2 * (x * y + z * w)), 1 - d(2 * (x * x + z * z)),
         d(2 * (y * z - x * w))],
        [d(2 * (x * z - y * w)), d(2 * (y * z + x * w)),
         1 - d(2 * (x * x + y * y))],
    ]


def as_rotation_matrix(q):
    q = _qobj(q)
    out = np.empty(q.shape + (3, 3), dtype=object)
    for i in np.ndindex(q.shape):
        m = rotmat(q[i])
        for r in range(3):
            for c in range(3):
                out[i + (r, c)] = lift(m[r][c])
    return SymArray(out)


def rotate_vectors(R, v, axis=-1):
    v = N.asarr(v)
    if v.ndim < 1 or 3 not in v.shape:
        raise ValueError(
            "Input `v` does not have at least one dimension of length 3")
    if v.shape[axis] != 3:
        raise ValueError(
            f"Input `v` axis {axis} has length {v.shape[axis]}, not 3.")
    m = as_rotation_matrix(R)
    td = m.ndim - 2
    fa = td + (axis % v.ndim)
    r = N.np_tensordot(m, v, axes=(-1, axis))
    return SymArray(np.moveaxis(to_obj(r), td, fa))


def qexp(q):
    """exp of a quaternion with zero scalar part."""
    w = q.c[0]
    if not (isinstance(w, SymReal) and w.is_const()
            and w.const_value() == 0):
        raise Unsupported("exp of a quaternion with a scalar part")
    if any(isinstance(v, float) for v in q.c):
        # the library takes a norm that compares with nothing for zero
        if any(isinstance(v, float) and v != v for v in q.c[1:]):
            return SymQuat(1, 0, 0, 0)
        return SymQuat(math.nan, math.nan, math.nan, math.nan)
    vec = q.c[1:]
    nz = [i for i, v in enumerate(vec)
          if not (v.is_const() and v.const_value() == 0)]
    eng = engine()
    if not nz:
        return SymQuat(1, 0, 0, 0)
    if len(nz) == 1:
        c, s = eng._trig(vec[nz[0]])
        out = [c, 0, 0, 0]
        out[nz[0] + 1] = s
        return SymQuat(*out)
    n2 = vec[0] * vec[0] + vec[1] * vec[1] + vec[2] * vec[2]
    if n2 == 0:
        return SymQuat(1, 0, 0, 0)
    n = eng.sqrt(n2)
    if eng.numeric_atoms:
        c, s = eng._trig(n)
    else:
        c, s = eng._trig(SymReal(eng.reduce(n.num), n.den)) if not n.den \
            else (_ for _ in ()).throw(Unsupported("exp denominators"))
    return SymQuat(c, *[N.s_div(v, n) * s for v in vec])


def qlog(q):
    from . import stubs

    return stubs.qlog(q)


def from_rotation_vector(rot):
    rot = to_obj(N.asarr(rot))
    out = np.empty(rot.shape[:-1], dtype=object)
    for i in np.ndindex(out.shape):
        out[i] = qexp(SymQuat(0, *[N._scal(v) * Fraction(1, 2)
                                   for v in rot[i]]))
    return SymArray(out, "q") if out.ndim else out[()]


def as_rotation_vector(q):
    from . import stubs

    q = _qobj(q)
    out = np.empty(q.shape + (3,), dtype=object)
    for i in np.ndindex(q.shape):
        rv = stubs.rotation_vector(q[i])
        for j in range(3):
            out[i + (j,)] = rv[j]
    return SymArray(out)


def from_rotation_matrix(rot, nonorthogonal=True):
    from . import stubs

    rot = to_obj(N.asarr(rot))
    lead = rot.shape[:-2]
    out = np.empty(lead, dtype=object)
    for i in np.ndindex(lead):
        out[i] = stubs.matrix_to_quat(
            [[N._scal(v) for v in r] for r in rot[i]])
    return SymArray(out, "q") if lead else out[()]


def squad(R_in, t_in, t_out, unflip_input_rotors=False):
    from . import stubs

    return stubs.squad(R_in, t_in, t_out)


def derivative(f, t, derivative_order=1, axis=0):
    from . import stubs

    return stubs.derivative(f, t, axis)


class _Mod:
    pass


def build():
    from .nshim import Shim
    import quaternion as real

    names = dict(
        quaternion=QDTYPE, as_float_array=as_float_array,
        as_quat_array=as_quat_array, from_float_array=from_float_array,
        from_vector_part=from_vector_part, as_vector_part=as_vector_part,
        as_rotation_matrix=as_rotation_matrix, rotate_vectors=rotate_vectors,
        from_rotation_vector=from_rotation_vector,
        as_rotation_vector=as_rotation_vector,
        from_rotation_matrix=from_rotation_matrix, squad=squad,
        derivative=derivative,
        one=SymQuat(1, 0, 0, 0), zero=SymQuat(0, 0, 0, 0),
        x=SymQuat(0, 1, 0, 0), y=SymQuat(0, 0, 1, 0),
        z=SymQuat(0, 0, 0, 1),
    )
    return Shim(real, names, "quaternion")
