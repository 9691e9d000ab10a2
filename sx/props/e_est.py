"""E: shortest arc, best fits, iterative closest point."""
import itertools

import numpy as _np

from sx import oracle as O
from sx.props.q_quat import layouts, moved, oarr
from sx.runner import case


def three(rows):
    return [[r[i] for r in rows] for i in range(len(rows[0]))]


def xr():
    import xarray
    return xarray


# ---------------------------------------------------------------- E01
def pair(ctx, i=""):
    a, b = ctx.vec3("a" + i), ctx.vec3("b" + i)
    ctx.assume(O.norm2(a) > 0)
    ctx.assume(O.norm2(b) > 0)
    # not opposite: not (parallel and pointing away)
    ctx.assume(ctx.Or(O.dot(a, b) > 0, O.norm2(O.cross(a, b)) > 0))
    return a, b


@case("E01", bounds="all pairs of non-zero, not opposite vectors")
def arc_maps(ctx):
    r = ctx.rbm
    a, b = pair(ctx)
    q = ctx.nested(r.shortest_arc_rotation(ctx.array(a), ctx.array(b)))
    ctx.eq("unit", O.norm2(q), 1)
    # rot(q, a) / |a| = b / |b|, times |a| |a| |b|
    s = ctx.sqrt(O.norm2(a) * O.norm2(b))
    ctx.eq("maps direction", O.scale(s, O.rot(q, a)),
           O.scale(O.norm2(a), b))
    ctx.eq("axis perpendicular", [O.dot(q[1:], a), O.dot(q[1:], b)], [0, 0])
    ctx.check("at most half a turn", q[0] >= 0)


@case("E01", params=[dict(at=k) for k in ("axes", "plane", "wide")],
      bounds="vectors of any lengths at any angle in a coordinate plane: "
             "half the angle about the normal")
def arc_plane(ctx, at):
    r = ctx.rbm
    k, l = ctx.real("k"), ctx.real("l")
    ctx.assume(k > 0)
    ctx.assume(l > 0)
    i = ctx.choose("plane", [0, 1, 2])
    j = (i + 1) % 3
    if at == "axes":
        n, c, s = 1, 0, ctx.choose("turn", [1, -1])
    elif at == "wide":
        n, c, s = 25, -24, 7
    else:
        n = 1
        c, s = ctx.unitn("cs", 2)
        ctx.assume(c > -1)
    a, b = [0 * k] * 3, [0 * l] * 3
    a[i] = k
    b[i], b[j] = l * c, l * s
    q = ctx.nested(r.shortest_arc_rotation(ctx.array(a), ctx.array(b)))
    # (cos, sin) of the half angle, up to a positive factor
    e = [n + c, 0, 0, 0]
    e[1 + (j + 1) % 3] = s
    ctx.eq("unit", O.norm2(q), 1)
    ctx.eq("half angle", [q[0] * y for y in e[1:]],
           [e[0] * y for y in q[1:]])
    ctx.check("at most half a turn", q[0] >= 0)


@case("E01", bounds="parallel vectors, swapped vectors, rescaled vectors")
def arc_relations(ctx):
    r = ctx.rbm
    what = ctx.choose("what", ["parallel", "swap", "scale"])
    f = r.shortest_arc_rotation
    k = ctx.real("k")
    ctx.assume(k > 0)
    a, b = pair(ctx)
    if what == "parallel":
        q = ctx.nested(f(ctx.array(a), ctx.array(O.scale(k, a))))
        ctx.eq("identity", q, [1, 0, 0, 0])
    elif what == "swap":
        q = ctx.nested(f(ctx.array(a), ctx.array(b)))
        p = ctx.nested(f(ctx.array(b), ctx.array(a)))
        ctx.eq("inverse", p, O.qconj(q))
    else:
        q = ctx.nested(f(ctx.array(a), ctx.array(b)))
        p = ctx.nested(f(ctx.array(O.scale(k, a)), ctx.array(b)))
        # parallel; both are unit with w >= 0 by arc_maps
        for i, j in itertools.combinations(range(4), 2):
            ctx.eq(f"same {i}{j}", p[i] * q[j], p[j] * q[i])


@case("E01", bounds="one or two vectors given as nested lists or tuples, "
      "either or both")
def arc_sequences(ctx):
    r = ctx.rbm
    a, b = pair(ctx)
    form = ctx.choose("form", [list, tuple])
    many = ctx.choose("many", [False, True])
    which = ctx.choose("which", ["first", "second", "both"])

    def f(x, k):
        x = [x, x] if many else x
        if which not in (k, "both"):
            return ctx.array(x)
        return form(form(y) for y in x) if many else form(x)

    q = ctx.nested(r.shortest_arc_rotation(ctx.array(a), ctx.array(b)))
    ctx.eq("as arrays", r.shortest_arc_rotation(f(a, "first"),
                                                f(b, "second")),
           [q, q] if many else q)


SH = [(1,), (2,), (3,), (4,), (2, 3), (3, 2), (3, 3)]


def labelled_dims(nd, ax, spatial="cartesian_axis"):
    others = ["time", "marker", "set"]
    d = [others.pop(0) for _ in range(nd - 1)]
    d.insert(ax % nd, spatial)
    return tuple(d)


@case("E01", params=[dict(shape=s) for s in SH],
      bounds="arrays of 1-3 dimensions, components on any axis, plain or "
             "labelled (with and without coordinates), by axis or dimension, "
             "the second also with its dimensions in reverse order")
def arc_layout(ctx, shape):
    r = ctx.rbm
    n = int(_np.prod(shape))
    ps = [pair(ctx, f"{i}_") for i in range(n)]
    A = oarr([p[0] for p in ps], shape)
    B = oarr([p[1] for p in ps], shape)
    ax = layouts(ctx, A.ndim, "axis")
    x, y = ctx.array(moved(A, ax)), ctx.array(moved(B, ax))
    f = r.shortest_arc_rotation
    ref = [ctx.nested(f(ctx.array(a), ctx.array(b))) for a, b in ps]
    e = moved(oarr(ref, shape), ax)
    form = ctx.choose("form", ["plain", "labelled", "both", "turned"])
    if form == "plain":
        kw = {} if ax == -1 and ctx.choose("omit", [True, False]) else \
            dict(axis=ax)
        out = f(x, y, **kw)
        ctx.eq("vector by vector", out, e)
        return
    dims = labelled_dims(A.ndim, ax)
    coords = {}
    if ctx.choose("coords", [True, False]):
        coords = {d: _np.arange(float(s)) for d, s in
                  zip(dims, _np.shape(moved(A, ax)))
                  if d != "cartesian_axis"}
        coords["cartesian_axis"] = ["x", "y", "z"]
    da = xr().DataArray(x, coords, dims, name="v", attrs={"k": 1})
    if form in ("both", "turned"):
        y = xr().DataArray(y, coords, dims)
    if form == "turned":
        y = y.transpose(*dims[::-1])
    if ctx.choose("by", ["dim", "axis"]) == "dim":
        out = f(da, y, dim="cartesian_axis")
    else:
        out = f(da, y, axis=ax)
    ctx.same("dims", out.dims, tuple(
        "quaternion_axis" if d == "cartesian_axis" else d for d in dims))
    ctx.same("name", out.name, "v")
    ctx.same("labels", list(out.coords["quaternion_axis"].values),
             ["w", "x", "y", "z"])
    for c in coords:
        if c != "cartesian_axis":
            ctx.same("coord " + c, list(out.coords[c].values),
                     list(coords[c]))
    ctx.eq("vector by vector", out.data, e)


# ---------------------------------------------------------------- E02
def frame(ctx, q):
    """Columns of the rotation matrix of q, as rows."""
    return three(O.rotm(q))


def svd_known(ctx, qu, qv, s, det, scales=()):
    """Tell the decomposition U diag(s) V^T; V is a reflection if det<0."""
    if ctx.sym:
        eng = ctx.eng
        U = O.rotm(qu)
        V = [[v if j < 2 else det * v for j, v in enumerate(r)]
             for r in O.rotm(qv)]
        eng.notes.setdefault("svd_known", []).append((U, list(s), V))
        eng.notes["svd_scales"] = tuple(scales)
        eng.notes.setdefault("rot_known", []).append(
            O.qmul(qv, O.qconj(qu)))


def spectrum(ctx, name="s", low=">="):
    """Descending singular values, the middle one positive."""
    s = ctx.reals(name, 3)
    ctx.assume(s[0] >= s[1])
    ctx.assume(s[1] > s[2] if low == ">" else s[1] >= s[2])
    ctx.assume(s[1] > 0)
    ctx.assume(s[2] >= 0)
    return s


def dirs(ctx, which):
    """The two directions of the decomposition."""
    h = 0.5
    if which == "free":
        return ctx.unit("p"), ctx.unit("q")
    if which == "first":
        return ctx.unit("p"), ctx.exact([h, -h, h, h])
    return ctx.exact([h, h, -h, h]), ctx.unit("q")


def sumsq(rows):
    t = 0
    for r in rows:
        t = t + O.norm2(r)
    return t


def residual(q, v1, v2):
    return sumsq([O.sub(b, O.rot(q, a)) for a, b in zip(v1, v2)])


LENGTHS = {"equal": (1, 1, 1), "down": (4, 2, 0.5), "up": (0.25, 2, 8),
           "flipped": (-2, 1, -4)}


@case("E02", params=[dict(which=w, det=d, lengths=k)
                     for w in ("first", "second") for d in (1, -1)
                     for k in LENGTHS]
      + [dict(which="free", det=d, lengths="up", _tier="thorough")
         for d in (1, -1)],
      bounds="three vectors (of different lengths in each set) whose "
             "correlation has any singular values (smallest possibly zero) "
             "and any left or right singular directions, with either sign "
             "of the determinant")
def rotation_optimal(ctx, which, det, lengths):
    r = ctx.rbm
    qu, qv = dirs(ctx, which)
    s = spectrum(ctx)
    svd_known(ctx, qu, qv, s, det)
    # the length of a pair may be in either vector
    k = ctx.exact(list(LENGTHS[lengths]))
    v1 = [O.scale(x, y) for x, y in zip(k, frame(ctx, qu))]
    f = frame(ctx, qv)
    v2 = [O.scale(x / y, z) for x, y, z in zip(
        [s[0], s[1], det * s[2]], k, f)]
    q = ctx.nested(r.best_fit_rotation(ctx.array(v1), ctx.array(v2)))
    ctx.eq("unit", O.norm2(q), 1)
    # any competitor is a rotation between the singular directions
    p = ctx.unit("c")
    comp = O.qmul(O.qmul(qv, p), O.qconj(qu))
    ctx.check("optimal", residual(q, v1, v2) <= residual(comp, v1, v2)
              + (0 if ctx.sym else 1e-7))


@case("E02", params=[dict(which=w) for w in ("first", "second", "free")],
      bounds="exactly rotated copies of up to 6 vectors along any three "
             "orthogonal directions, planar sets included")
def rotation_recovered(ctx, which):
    r = ctx.rbm
    qu, qv = dirs(ctx, which)
    a = spectrum(ctx, "a", ">")
    extra = ctx.choose("extra", [0, 1, 3])
    k = ctx.real("k")
    al, be = [O.scale(x, y) for x, y in zip(a, frame(ctx, qu))], \
        [O.scale(x, y) for x, y in zip(a, frame(ctx, qv))]
    sc = [x * x for x in a]
    for i in range(extra):
        f = -1 if extra == 3 else k
        al.append(O.scale(f, al[i]))
        be.append(O.scale(f, be[i]))
        sc[i] = sc[i] * (1 + f * f)
    svd_known(ctx, qu, qv, sc, 1)
    if ctx.choose("order", ["asis", "reversed"]) == "reversed":
        al, be = al[::-1], be[::-1]
    q = ctx.nested(r.best_fit_rotation(ctx.array(al), ctx.array(be)))
    ctx.eq("unit", O.norm2(q), 1)
    ctx.eq("recovered", [O.rot(q, x) for x in al], be)


@case("E02", params=[dict(n=n, which=w) for n in (8, 80)
                     for w in ("first", "second")],
      bounds="exactly rotated copies of 24 and 240 vectors along any three "
             "orthogonal directions, of any lengths, either way round")
def rotation_of_many(ctx, n, which):
    qu, qv = dirs(ctx, which)
    a = spectrum(ctx, "a", ">")
    svd_known(ctx, qu, qv, [n * x * x for x in a], 1)
    u, v = [[O.scale(-x if i % 3 == 1 else x, y)
             for i in range(n) for x, y in zip(a, frame(ctx, q))]
            for q in (qu, qv)]
    q = ctx.nested(ctx.rbm.best_fit_rotation(ctx.array(u), ctx.array(v)))
    ctx.eq("unit", O.norm2(q), 1)
    ctx.eq("recovered", [O.rot(q, x) for x in u[:6]], v[:6])


def fit_layout(ctx, fn, shape, comp):
    """Every layout against the two-dimensional call on the same rows."""
    n = int(_np.prod(shape))
    A = oarr([ctx.vec3(f"a{i}_") for i in range(n)], shape)
    B = oarr([ctx.vec3(f"b{i}_") for i in range(n)], shape)
    ax = layouts(ctx, A.ndim, "axis")
    m1, m2 = moved(A, ax), moved(B, ax)
    x, y = ctx.array(m1), ctx.array(m2)
    # correspondence is by position in the swapped array
    sw = _np.swapaxes(_np.array(m1, dtype=object), ax, -1).reshape(-1, 3)
    sv = _np.swapaxes(_np.array(m2, dtype=object), ax, -1).reshape(-1, 3)
    ref = comp(fn(ctx.array(sw.tolist()), ctx.array(sv.tolist())))
    form = ctx.choose("form", ["plain", "labelled", "both", "second",
                               "turned"])
    if form == "plain":
        kw = {} if ax == -1 and ctx.choose("omit", [True, False]) else \
            dict(axis=ax)
        out = fn(x, y, **kw)
        ctx.eq("same as rows", comp(out), ref)
        return
    if form == "second":
        dims = labelled_dims(A.ndim, ax)
        out = fn(x, xr().DataArray(y, dims=dims), axis=ax)
        ctx.eq("same as rows", comp(out), ref)
        return
    dims = labelled_dims(A.ndim, ax)
    coords = {}
    if ctx.choose("coords", [True, False]):
        coords = {d: _np.arange(float(s)) for d, s in
                  zip(dims, _np.shape(m1)) if d != "cartesian_axis"}
        coords["cartesian_axis"] = ["x", "y", "z"]
    da = xr().DataArray(x, coords, dims)
    if form in ("both", "turned"):
        y = xr().DataArray(y, coords, dims)
    if form == "turned":
        y = y.transpose(*dims[::-1])
    if ctx.choose("by", ["dim", "axis"]) == "dim":
        out = fn(da, y, dim="cartesian_axis")
    else:
        out = fn(da, y, axis=ax)
    outs = out if isinstance(out, tuple) else (out,)
    for o in outs:
        d = "translation" if o.shape == (3,) else "rotation"
        ctx.same("name", o.name, d)
        ctx.same("dims", o.dims, (
            "cartesian_axis" if d == "translation" else "quaternion_axis",))
        ctx.same("labels", list(o.coords[o.dims[0]].values),
                 list("xyz" if d == "translation" else "wxyz"))
    ctx.eq("same as rows", comp(out), ref)


def comp1(ctx):
    def f(o):
        return ctx.nested(o.data if hasattr(o, "dims") else o)
    return f


def comp2(ctx):
    def f(o):
        g = comp1(ctx)
        return [*g(o[0]), *g(o[1])]
    return f


@case("E02", params=[dict(shape=s) for s in
                     ((3,), (4,), (2, 2), (3, 2), (2, 3))],
      bounds="any vectors, components on any axis of 2-3 dimensions, plain "
             "or labelled, with and without coordinates, the second also "
             "with its dimensions in reverse order")
def rotation_layout(ctx, shape):
    fit_layout(ctx, ctx.rbm.best_fit_rotation, shape, comp1(ctx))


def fit_rejects(ctx, fn, same=True):
    v = ctx.array(ctx.mat("v", 4, 3))
    w = ctx.array(ctx.mat("w", 3, 3))
    z = ctx.array(ctx.mat("z", 3, 4))
    one = ctx.array(ctx.vec3("o"))
    if same:
        ctx.raises("different numbers", ValueError, fn, v, w)
    ctx.raises("first not vectors", ValueError, fn, z, w)
    ctx.raises("second not vectors", ValueError, fn, w, z)
    ctx.raises("single vector", ValueError, fn, one, one)
    ctx.raises("wrong axis", ValueError, fn, v, v, axis=0)


@case("E02", bounds="sets of different size, components not three, single "
      "vectors")
def rotation_rejects(ctx):
    fit_rejects(ctx, ctx.rbm.best_fit_rotation)


# ---------------------------------------------------------------- E03
def crosses(c, rows):
    return [O.add(c, x) for x in rows] + [O.sub(c, x) for x in rows]


@case("E03", params=[dict(which=w, det=d) for w in ("first", "second")
                     for d in (1, -1)]
      + [dict(which="free", det=d, _tier="thorough") for d in (1, -1)],
      bounds="six points about any two centroids whose correlation has any "
             "singular values and any left or right singular directions, "
             "with either sign of the determinant")
def transform_optimal(ctx, which, det):
    r = ctx.rbm
    qu, qv = dirs(ctx, which)
    s = spectrum(ctx)
    svd_known(ctx, qu, qv, s, det, scales=(2,))
    m1, m2 = ctx.vec3("m"), ctx.vec3("n")
    u = frame(ctx, qu)
    w = [O.scale(x, y) for x, y in zip([s[0], s[1], det * s[2]],
                                       frame(ctx, qv))]
    v1, v2 = crosses(m1, u), crosses(m2, w)
    if ctx.choose("order", ["asis", "reversed"]) == "reversed":
        v1, v2 = v1[::-1], v2[::-1]
    t, q = r.best_fit_transform(ctx.array(v1), ctx.array(v2))
    t, q = ctx.nested(t), ctx.nested(q)
    ctx.eq("unit", O.norm2(q), 1)
    ctx.eq("centroid", O.add(O.rot(q, m1), t), m2)
    p = ctx.unit("c")
    comp = O.qmul(O.qmul(qv, p), O.qconj(qu))
    # residuals about the centroids; no other translation does better
    ctx.check("optimal", residual(q, u, w) <= residual(comp, u, w)
              + (0 if ctx.sym else 1e-7))


@case("E03", params=[dict(which=w) for w in ("first", "second", "free")],
      bounds="exactly moved copies of 4-6 points, planar sets included")
def transform_recovered(ctx, which):
    r = ctx.rbm
    qu, qv = dirs(ctx, which)
    a = spectrum(ctx, "a", ">")
    svd_known(ctx, qu, qv, [2 * x * x for x in a], 1)
    m1, m2 = ctx.vec3("m"), ctx.vec3("n")
    v1 = crosses(m1, [O.scale(x, y) for x, y in zip(a, frame(ctx, qu))])
    v2 = crosses(m2, [O.scale(x, y) for x, y in zip(a, frame(ctx, qv))])
    if ctx.choose("planar", [False, True]):
        ctx.assume(a[2] == 0)
        v1 = v1[:2] + v1[3:5]
        v2 = v2[:2] + v2[3:5]
    t, q = r.best_fit_transform(ctx.array(v1), ctx.array(v2))
    t, q = ctx.nested(t), ctx.nested(q)
    ctx.eq("unit", O.norm2(q), 1)
    ctx.eq("recovered", [O.add(O.rot(q, x), t) for x in v1], v2)


@case("E03", params=[dict(n=n, which=w) for n in (4, 32)
                     for w in ("first", "second")],
      bounds="exactly moved copies of 24 and 192 points")
def transform_of_many(ctx, n, which):
    qu, qv = dirs(ctx, which)
    a = spectrum(ctx, "a", ">")
    svd_known(ctx, qu, qv, [2 * n * x * x for x in a], 1)
    m1, m2 = ctx.vec3("m"), ctx.vec3("n")
    v1, v2 = [n * crosses(m, [O.scale(x, y) for x, y in zip(
        a, frame(ctx, q))]) for m, q in ((m1, qu), (m2, qv))]
    t, q = ctx.rbm.best_fit_transform(ctx.array(v1), ctx.array(v2))
    t, q = ctx.nested(t), ctx.nested(q)
    ctx.eq("unit", O.norm2(q), 1)
    ctx.eq("recovered", [O.add(O.rot(q, x), t) for x in v1[:6]], v2[:6])


@case("E03", params=[dict(n=n) for n in (1, 2, 3, 4)],
      bounds="any 1-4 pairs of points: proper and centroid to centroid; "
             "moving either set (of 3-4) only moves the result")
def transform_general(ctx, n):
    r = ctx.rbm
    f = r.best_fit_transform
    v1, v2 = ctx.mat("a", n, 3), ctx.mat("b", n, 3)
    t, q = f(ctx.array(v1), ctx.array(v2))
    t, q = ctx.nested(t), ctx.nested(q)
    ctx.eq("unit", O.norm2(q), 1)
    from fractions import Fraction
    w = Fraction(1, n) if ctx.sym else 1 / n
    c1 = O.scale(w, [sum(c[1:], c[0]) for c in three(v1)])
    c2 = O.scale(w, [sum(c[1:], c[0]) for c in three(v2)])
    ctx.eq("centroid", O.add(O.rot(q, c1), t), c2)
    if n < 3:
        return      # the rotation is not unique
    d = ctx.vec3("d")
    if ctx.choose("moved", [1, 2]) == 2:
        t2, q2 = f(ctx.array(v1), ctx.array([O.add(x, d) for x in v2]))
        ctx.eq("same rotation", O.rotm(ctx.nested(q2)), O.rotm(q))
        ctx.eq("moved along", ctx.nested(t2), O.add(t, d))
    else:
        t2, q2 = f(ctx.array([O.add(x, d) for x in v1]), ctx.array(v2))
        ctx.eq("same rotation", O.rotm(ctx.nested(q2)), O.rotm(q))
        ctx.eq("moved against", O.add(ctx.nested(t2), O.rot(q, d)), t)


@case("E03", params=[dict(shape=s) for s in ((3,), (2, 2), (3, 2), (2, 3))],
      bounds="any points, components on any axis of 2-3 dimensions, plain "
             "or labelled, with and without coordinates, the second also "
             "with its dimensions in reverse order")
def transform_layout(ctx, shape):
    fit_layout(ctx, ctx.rbm.best_fit_transform, shape, comp2(ctx))


@case("E03", bounds="sets of different size, components not three, single "
      "vectors")
def transform_rejects(ctx):
    fit_rejects(ctx, ctx.rbm.best_fit_transform)


# ---------------------------------------------------------------- E04
A3 = (3, 2, 1)
OCT = [[f * A3[i] if i == j else 0 for j in range(3)]
       for f in (1, -1) for i in range(3)]


def mean(ctx, xs):
    from fractions import Fraction
    s = xs[0]
    for x in xs[1:]:
        s = s + x
    return s * (Fraction(1, len(xs)) if ctx.sym else 1 / len(xs))


def apart(ctx, a, b):
    """Comparisons are not decided by rounding in concrete replays."""
    if not ctx.sym:
        ctx.assume(abs(a - b) > 1e-9)


def icp(ctx, v1, v2, init, limit, tol):
    """The stated iteration; returns the final position of v1."""
    r = ctx.rbm
    cur = [list(x) for x in v1]
    if init is not None:
        cur = [O.add(O.rot(init[1], x), init[0]) for x in cur]
    prev = 0
    for _ in range(limit):
        match, dist = [], []
        for x in cur:
            best, d = None, None
            for y in v2:
                e = O.norm2(O.sub(x, y))
                if d is not None:
                    apart(ctx, e, d)
                if d is None or ctx.decide(e < d):
                    best, d = y, e
            match.append(best)
            dist.append(ctx.sqrt(d))
        t, q = r.best_fit_transform(ctx.array(cur), ctx.array(match))
        t, q = ctx.nested(t), ctx.nested(q)
        cur = [O.add(O.rot(q, x), t) for x in cur]
        err = mean(ctx, dist)
        gain = prev - err
        if ctx.decide(gain < 0):
            gain = -gain
        apart(ctx, gain, tol)
        if ctx.decide(gain < tol):
            break
        prev = err
    return cur


def run_icp(ctx, v1, v2, init=None, known=(), limits=(0, 1, 2, 3)):
    r = ctx.rbm
    a2 = [2 * x * x for x in A3]
    if ctx.sym:
        ctx.eng.notes["svd_nosign"] = True
    for qu, qv, s in known:
        svd_known(ctx, qu, qv, s or a2, 1)
    limit = ctx.choose("updates", list(limits))
    tol = ctx.real("tol")
    ctx.assume(tol > 0)
    cur = icp(ctx, v1, v2, init, limit, tol)
    kw = dict(max_iterations=limit, tolerance=tol)
    x, y = ctx.array(v1), ctx.array(v2)
    if init is not None:
        it = (ctx.array(init[0]), ctx.array(init[1]))
        f = ctx.choose("init", ["array", "labelled"])
        if f == "labelled":
            it = (xr().DataArray(it[0], dims="cartesian_axis"),
                  xr().DataArray(it[1], dims="quaternion_axis"))
        kw["init_transform"] = it
    form = ctx.choose("form", ["plain", "axis0", "labelled", "turned"])
    if form == "axis0":
        x, y = ctx.array(three(v1)), ctx.array(three(v2))
        kw["axis"] = 0
    elif form != "plain":
        x = xr().DataArray(x, dims=("time", "cartesian_axis"))
        kw["dim"] = "cartesian_axis"
        if form == "turned":
            y = xr().DataArray(y, dims=x.dims).transpose()
    t, q = r.iterative_closest_point(x, y, **kw)
    if form in ("labelled", "turned"):
        ctx.same("name", (t.name, q.name), ("translation", "rotation"))
        t, q = t.data, q.data
    t, q = ctx.nested(t), ctx.nested(q)
    ctx.eq("unit", O.norm2(q), 1)
    ctx.eq("applied motion", [O.add(O.rot(q, v), t) for v in v1], cur)
    return t, q, cur


E1 = [1, 0, 0, 0]


@case("E04", bounds="six points and a copy moved by any small translation; "
      "0-3 updates, any tolerance", weight=3)
def icp_translation(ctx):
    m = ctx.vec3("m")
    d = ctx.vec3("d")
    for x in d:
        ctx.assume(ctx.And(-0.25 < x, x < 0.25))
    v1 = [O.add(m, x) for x in OCT]
    v2 = [O.add(x, d) for x in v1]
    run_icp(ctx, v1, v2, known=[(E1, E1, None)])


@case("E04", params=[dict(along="x", size=1), dict(along="x", size=16),
                     dict(along="xyz", size=1, _tier="thorough")],
      bounds="six points (apart by ~1 or ~16) and their scaled copy moved "
      "by a small translation (never matching exactly); 0-3 updates, any "
      "tolerance", weight=3)
def icp_inexact(ctx, along, size):
    d = [ctx.real("d" + c) if c in along else 0 for c in "xyz"]
    for x in d:
        ctx.assume(ctx.And(-0.25 * size < x, x < 0.25 * size))
    f = ctx.exact([1.0625])[0]
    v1 = [O.scale(size, x) for x in OCT]
    v2 = [O.add(O.scale(f, x), d) for x in v1]
    run_icp(ctx, v1, v2, known=[
        (E1, E1, [2 * (size * x) ** 2 for x in A3]),
        (E1, E1, [2 * f * (size * x) ** 2 for x in A3])])


FLAT = [[f * (6, 4, 1)[i] if i == j else 0 for j in range(3)]
        for f in (1, -1) for i in range(3)]


@case("E04", params=[dict(size=k) for k in (0.125, 1, 16)],
      bounds="six points (sizes ~1, ~6, ~100) and a copy moved so far that "
      "the first matches are partly wrong: two steps of any lengths; 0-4 "
      "updates, any tolerance", weight=3)
def icp_two_steps(ctx, size):
    d = ctx.real("d")
    ctx.assume(ctx.And(d > 1.75, d < 2.25))
    k = ctx.exact([size])[0]
    v1 = [O.scale(k, x) for x in FLAT]
    v2 = [O.scale(k, O.add(x, [0, 0, d])) for x in FLAT]
    k2 = k * k
    run_icp(ctx, v1, v2, known=[
        (E1, E1, [72 * k2, 32 * k2, 0]),
        (E1, E1, [72 * k2, 32 * k2, 2 * k2])], limits=(0, 1, 2, 3, 4))


ROD = FLAT[:2] + [[0, 0, z] for z in (-1.5, -0.5, 0.5, 1.5)] + FLAT[3:5]


@case("E04", params=[dict(size=k, _tier="quick" if k == 1 else "thorough")
                     for k in (0.125, 1, 16)],
      bounds="eight points and a copy moved so far that the first two "
      "matches are partly wrong: three steps, the first of any length; 1-5 "
      "updates, any tolerance", weight=3)
def icp_three_steps(ctx, size):
    d = ctx.real("d")
    ctx.assume(ctx.And(d > 2.75, d < 3.375))
    k = ctx.exact([size])[0]
    rod = [[c for c in ctx.exact(x)] for x in ROD]
    v1 = [O.scale(k, x) for x in rod]
    v2 = [O.scale(k, O.add(x, [0, 0, d])) for x in rod]
    k2 = k * k
    z = ctx.exact([3.5])[0]
    run_icp(ctx, v1, v2, known=[
        (E1, E1, [72 * k2, 32 * k2, x * k2]) for x in (0, z, 5)],
        limits=(1, 2, 3, 5))


@case("E04", params=[dict(axis=i) for i in range(3)],
      bounds="six points and a copy turned by any angle up to 0.6 rad about "
             "any coordinate axis; 0-3 updates, any tolerance", weight=3)
def icp_rotation(ctx, axis):
    c, s = ctx.unitn("cs", 2)
    ctx.assume(c > 0.9550)
    q = [c, 0, 0, 0]
    q[axis + 1] = s
    v2 = [O.rot(q, [O_ + 0 * c for O_ in x]) for x in OCT]
    run_icp(ctx, OCT, v2, known=[(E1, q, None), (q, q, None),
                                 (E1, E1, None)])


@case("E04", bounds="six points with any initial motion and their exactly "
      "moved copy; 0-2 updates, any tolerance", weight=3)
def icp_initial(ctx):
    t0, q0 = ctx.vec3("t"), ctx.unit("q")
    v1 = OCT
    v2 = [O.add(O.rot(q0, x), t0) for x in v1]
    extra = ctx.choose("extra", [0, 1])
    if extra:
        v2 = [O.add(t0, [20, 20, 20])] + v2
    t, q, cur = run_icp(ctx, v1, v2, (t0, q0), known=[
        (q0, q0, None), (E1, q0, None)], limits=(0, 1, 2))
    ctx.eq("stays at the match", cur, v2[extra:])


@case("E04", bounds="points that are among the second set: unmoved",
      weight=1)
def icp_matching(ctx):
    m = ctx.vec3("m")
    v1 = [O.add(m, x) for x in OCT]
    far = [O.add(m, [40, 0, 0]), O.add(m, [0, -40, 0])]
    v2 = {"same": v1, "reversed": v1[::-1], "more": far + v1}[
        ctx.choose("second", ["same", "reversed", "more"])]
    t, q, cur = run_icp(ctx, v1, v2, known=[(E1, E1, None)])
    ctx.eq("unmoved", [O.add(O.rot(q, x), t) for x in v1], v1)


@case("E04", bounds="components not three, single vectors")
def icp_rejects(ctx):
    fit_rejects(ctx, ctx.rbm.iterative_closest_point, same=False)
