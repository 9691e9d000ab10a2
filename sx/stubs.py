"""Contracts of numerical library routines the repository calls.

Every routine here is replaced by the weakest description the checked
properties are allowed to rely on; what each one assumes is listed in
CONTRACTS (and copied into the evidence).  With ``numeric_atoms`` set the
real library is called instead (shim validation on concrete data).
"""
import itertools
import math
from fractions import Fraction

import numpy as np

from . import engine as E
from . import nshim as N
from . import poly as P
from .engine import SymReal, Unsupported, engine
from .nshim import SymArray, lift, to_obj

CONTRACTS = {
    "quaternion.squad": "returns the knot exactly at a knot time; elsewhere "
    "an arbitrary (unit, if the knots are unit) quaternion that depends only "
    "on knots, knot times and the query time; elementwise over trailing axes; "
    "empty input -> empty result; fewer than two knots -> IndexError",
    "quaternion.derivative": "an arbitrary linear operator along the axis, "
    "determined by the sampling intervals, that maps constants to zero",
    "numpy.linalg.svd": "H = U diag(S) Vt, U and Vt orthogonal, S sorted and "
    "non-negative",
    "numpy.linalg.eig/eigh": "A = V diag(l) V^T with orthonormal V, in any "
    "order (eig) or ascending (eigh), any sign",
    "quaternion.from_rotation_matrix": "unit quaternion whose rotation is the "
    "given matrix when that is a proper rotation, any unit quaternion "
    "otherwise",
    "quaternion.as_rotation_vector": "an arbitrary function of the quaternion",
}


def _rk(x):
    """Canonical key of a scalar."""
    if isinstance(x, SymReal):
        x = engine().reduce_real(x)
        return x.key()
    return repr(x)


def _const(x):
    return isinstance(x, SymReal) and x.is_const() or not isinstance(
        x, SymReal)


def _all_const(a):
    return all(_const(v) for v in to_obj(a).flat)


def _free_unit(key, n=4):
    eng = engine()
    names = ["@" + repr(key) + f"[{i}]" for i in range(n)]
    return eng.unit_group(names, kind="free")


def _free(key, n):
    eng = engine()
    return [eng.sym(eng.newvar("@" + repr(key) + f"[{i}]", "free"))
            for i in range(n)]


def _nconst(a):
    """float ndarray of constants"""
    a = to_obj(a)
    out = np.empty(a.shape)
    for i in np.ndindex(a.shape):
        out[i] = float(a[i])
    return out


def _norm2(q):
    n = q.norm()
    return engine().reduce_real(n) if isinstance(n, SymReal) else n


# -- squad -------------------------------------------------------------
def squad(R_in, t_in, t_out):
    from .qshim import SymQuat, as_quat_array

    eng = engine()
    R = to_obj(R_in)
    if isinstance(R_in, SymArray) and R_in.size and R_in.kind != "q":
        raise TypeError("squad needs quaternions")
    ti = [N._scal(v) for v in to_obj(t_in)]
    to = [N._scal(v) for v in to_obj(t_out)]
    if R.size == 0 or len(to) == 0:
        return SymArray(np.empty((0,), dtype=object), "q")
    if len(ti) != R.shape[0]:
        raise ValueError("operands could not be broadcast together")
    if len(ti) < 2:
        raise IndexError("index -2 is out of bounds for axis 0")
    if eng.numeric_atoms:
        import quaternion as Q

        f = _nconst(N.asarr(_comp(R)))
        r = Q.as_float_array(Q.squad(Q.as_quat_array(f), _nconst(to_obj(ti)),
                                     _nconst(to_obj(to))))
        return as_quat_array(SymArray(to_obj(r)))
    out = np.empty((len(to),) + R.shape[1:], dtype=object)
    tk = tuple(_rk(t) for t in ti)
    for k, t in enumerate(to):
        hit = None
        for i in range(len(ti)):
            if bool(t == ti[i]):
                hit = i
                # repeated knot times: the library evaluates after the last
        n = len(ti)
        seg = hit
        if seg is None:
            # every knot but the last begins a segment
            seg = sum(1 for x in ti[1:-1] if bool(x < t))
        used = range(max(seg - 1, 0), min(seg + 3, n))
        for idx in np.ndindex(R.shape[1:]):
            qs = [R[(i,) + idx] for i in range(n)]
            if any(N.s_isnan(qs[i]) for i in used):
                # a missing knot spreads over the segments that use it
                out[(k,) + idx] = SymQuat(*([math.nan] * 4))
                continue
            if hit is not None:
                out[(k,) + idx] = qs[hit]
                continue
            key = ("squad", tuple(tuple(_rk(c) for c in q.c) for q in qs),
                   tk, _rk(t))
            key = ("squad", hash(key))
            if len({tuple(_rk(c) for c in q.c) for q in qs}) == 1:
                # a constant series stays constant
                out[(k,) + idx] = qs[0]
                continue
            unit = all(_is_one(_norm2(q)) for q in qs)
            c = _free_unit(key) if unit else _free(key, 4)
            out[(k,) + idx] = SymQuat(*c)
    return SymArray(out, "q")


def _is_one(x):
    return isinstance(x, SymReal) and x.is_const() and x.const_value() == 1


def _comp(R):
    out = np.empty(R.shape + (4,), dtype=object)
    for i in np.ndindex(R.shape):
        for j in range(4):
            out[i + (j,)] = R[i].c[j]
    return out


# -- derivative ----------------------------------------------------------
def derivative(f, t, axis=0):
    eng = engine()
    f = N.asarr(f)
    t = N.asarr(t)
    n = t.shape[0]
    if f.shape[axis] != n:
        raise ValueError("x and y must have the same length")
    if n < 4:
        raise ValueError("derivative needs at least four samples")
    if eng.numeric_atoms:
        import quaternion as Q

        D = Q.derivative(np.eye(n), _nconst(t), axis=0)
        D = to_obj(D)
    else:
        # only differences between the times matter
        o = [lift(v) for v in to_obj(t)]
        tk = hash(tuple(_rk(v - o[0]) for v in o))
        D = np.empty((n, n), dtype=object)
        for i in range(n):
            s = None
            for j in range(1, n):
                D[i, j] = _free(("D", tk, i, j), 1)[0]
                s = D[i, j] if s is None else s + D[i, j]
            D[i, 0] = -s
    r = N.np_tensordot(D, f, axes=(1, axis))
    return SymArray(np.moveaxis(to_obj(r), 0, axis))


# -- rotation vector -------------------------------------------------------
def rotation_vector(q):
    eng = engine()
    c = q.c
    if any(isinstance(v, float) for v in c):
        return [math.nan] * 3
    if eng.numeric_atoms or all(_const(v) for v in c):
        import quaternion as Q

        r = Q.as_rotation_vector(np.quaternion(*[float(v) for v in c]))
        return [lift(v) for v in r]
    return _free(("rotvec", hash(tuple(_rk(v) for v in c))), 3)


def qlog(q):
    from .qshim import SymQuat

    eng = engine()
    c = q.c
    if eng.numeric_atoms or all(_const(v) for v in c):
        r = np.log(np.quaternion(*[float(v) for v in c]))
        return SymQuat(r.w, r.x, r.y, r.z)
    return SymQuat(*_free(("qlog", hash(tuple(_rk(v) for v in c))), 4))


# -- matrices ----------------------------------------------------------
def _mat(a):
    a = to_obj(a)
    if a.ndim != 2:
        raise Unsupported("batched matrix decomposition")
    return [[N._scal(v) for v in r] for r in a]


def mmul(A, B):
    return [[_sum(A[i][k] * B[k][j] for k in range(len(B)))
             for j in range(len(B[0]))] for i in range(len(A))]


def _sum(it):
    s = None
    for v in it:
        s = v if s is None else s + v
    return s


def tr(A):
    return [list(r) for r in zip(*A)]


def _same(A, B):
    eng = engine()
    for ra, rb in zip(A, B):
        for a, b in zip(ra, rb):
            d = a - b
            if not isinstance(d, SymReal):
                return d == 0
            d = eng.reduce_real(d)
            if not (d.is_const() and d.const_value() == 0):
                return False
    return True


def rotm(q):
    """Matrix (polynomial form) of a unit quaternion given as a list."""
    w, x, y, z = q
    return [
        [1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
        [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
        [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)],
    ]


def diag(v):
    n = len(v)
    return [[v[i] if i == j else lift(0) for j in range(n)]
            for i in range(n)]


def _arr(m):
    return SymArray(to_obj(m))


def _mkey(M):
    """The routines are functions: equal matrices, equal answers."""
    return hash(tuple(_rk(v) for r in M for v in r))


def svd(a, full_matrices=True, compute_uv=True, **k):
    """Contract of the singular value decomposition (3x3)."""
    eng = engine()
    H = _mat(a)
    if not compute_uv:
        raise Unsupported("svd without vectors")
    if eng.numeric_atoms or _all_const(a):
        U, S, Vt = np.linalg.svd(_nconst(a))
        return _arr(U), _arr(S), _arr(Vt)
    if len(H) != 3 or len(H[0]) != 3:
        raise Unsupported("svd of a non 3x3 matrix")
    # a decomposition the harness knows to hold?
    for U, S, V in eng.notes.get("svd_known", ()):
        for (A, B) in ((U, V), (V, U)):
            for scale in (1,) + tuple(eng.notes.get("svd_scales", ())):
                sc = [s * scale for s in S]
                if _same(H, mmul(mmul(A, diag(sc)), tr(B))):
                    # the solver confirms U S V^T = H; singular vectors are
                    # determined up to a common sign per distinct value,
                    # for a value of zero up to independent signs
                    kh = _mkey(H)
                    if eng.notes.get("svd_nosign"):
                        return _arr(A), _arr(sc), _arr(tr(B))
                    sg = [eng.choose(f"svdsign{i} {kh}", (1, -1))
                          for i in range(3)]
                    sv = [-g if bool(sc[i] == 0) and eng.choose(
                        f"svdzero{i} {kh}", (False, True)) else g
                        for i, g in enumerate(sg)]
                    A2 = [[A[i][j] * sg[j] for j in range(3)]
                          for i in range(3)]
                    B2 = [[B[i][j] * sv[j] for j in range(3)]
                          for i in range(3)]
                    return _arr(A2), _arr(sc), _arr(tr(B2))
    key = ("svd", _mkey(H))
    qu, qv = _free_unit(key + ("u",)), _free_unit(key + ("v",))
    su = eng.choose(f"svddet_u {key}", (1, -1))
    sv = eng.choose(f"svddet_v {key}", (1, -1))
    S = _free(key + ("s",), 3)
    U = [[v * su for v in r] for r in rotm(qu)]
    V = [[v * sv for v in r] for r in rotm(qv)]
    for g in (S[0] >= S[1], S[1] >= S[2], S[2] >= 0):
        _assume(g)
    M = mmul(mmul(U, diag(S)), tr(V))
    for i in range(3):
        for j in range(3):
            _assume(H[i][j] == M[i][j])
    return _arr(U), _arr(S), _arr(tr(V))


def _assume(b):
    if b is True:
        return
    if b is False:
        raise E.PathInfeasible
    engine().assume_f(b.f)


def eig(a, **k):
    return _eig(a, False)


def eigh(a, **k):
    return _eig(a, True)


def _eig(a, sorted_):
    eng = engine()
    if to_obj(a).ndim > 2:
        o = to_obj(a)
        lead = o.shape[:-2]
        ls = np.empty(lead + o.shape[-1:], dtype=object)
        vs = np.empty(o.shape, dtype=object)
        for i in np.ndindex(lead):
            l, v = _eig(SymArray(o[i]), sorted_)
            ls[i] = to_obj(l)
            vs[i] = to_obj(v)
        return SymArray(ls), SymArray(vs)
    A = _mat(a)
    n = len(A)
    if eng.numeric_atoms or _all_const(a):
        l, v = (np.linalg.eigh if sorted_ else np.linalg.eig)(_nconst(a))
        return _arr(np.real(l)), _arr(np.real(v))
    for V, l in eng.notes.get("eig_known", ()):
        if _same(A, mmul(mmul(V, diag(l)), tr(V))):
            if sorted_:
                p = N._sort_idx(l)
            else:
                p = eng.choose(f"eigperm {_mkey(A)}",
                               eng.notes.get("eig_perms") or
                               list(itertools.permutations(range(n))))
            if eng.notes.get("eig_nosign"):
                sg = [eng.choose(f"eigsign {_mkey(A)}", (1, -1))] * n
            else:
                sg = [eng.choose(f"eigsign{i} {_mkey(A)}", (1, -1))
                      for i in range(n)]
            V2 = [[V[i][p[j]] * sg[j] for j in range(n)] for i in range(n)]
            return _arr([l[j] for j in p]), _arr(V2)
    key = ("eig", sorted_, _mkey(A))
    l = _free(key + ("l",), n)
    V = _free(key + ("v",), n * n)
    V = [V[i * n:(i + 1) * n] for i in range(n)]
    if sorted_:
        for i in range(n - 1):
            _assume(l[i] <= l[i + 1])
    return _arr(l), _arr(V)


def matrix_to_quat(M):
    from .qshim import SymQuat

    eng = engine()
    flat = [v for r in M for v in r]
    if eng.numeric_atoms or all(_const(v) for v in flat):
        import quaternion as Q

        if any(isinstance(v, float) for v in flat):
            return SymQuat(*[math.nan] * 4)
        q = Q.from_rotation_matrix(np.array([[float(v) for v in r]
                                             for r in M]))
        return SymQuat(q.w, q.x, q.y, q.z)
    # the quaternion of a matrix the harness built from a quaternion
    for q in eng.notes.get("rot_known", ()):
        if _same(M, rotm(q)):
            s = 1 if eng.notes.get("svd_nosign") else \
                eng.choose(f"quatsign {_mkey(M)}", (1, -1))
            return SymQuat(*[v * s for v in q])
    key = ("m2q", hash(tuple(_rk(v) for v in flat)))
    q = _free_unit(key)
    I = diag([lift(1)] * 3)
    proper = _same(mmul(M, tr(M)), I) and _is_one(
        eng.reduce_real(N._det([list(r) for r in M])))
    if proper:
        eng.add_rotation_rules(q, M)
    else:
        # the matrix may still be a rotation on this path: the solver is
        # told only what holds then
        pass
    return SymQuat(*q)
