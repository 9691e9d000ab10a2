"""Q: quaternion algebra, rotation of vectors, mean, interpolation, Euler."""
import itertools

import numpy as _np

from sx import oracle as O
from sx.runner import case

Q8 = [(1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1)]


def nz(ctx, name):
    """A non-zero quaternion."""
    q = ctx.reals(name, 4)
    ctx.assume(O.norm2(q) > 0)
    return q


def oarr(rows, shape):
    """Object array of shape ``shape + (len(row),)`` from a flat row list."""
    d = len(rows[0])
    a = _np.empty(tuple(shape) + (d,), dtype=object)
    for i, row in zip(_np.ndindex(*shape), rows):
        for k in range(d):
            a[i + (k,)] = row[k]
    return a


def moved(a, axis):
    return _np.moveaxis(a, -1, axis).tolist()


def rows_of(a):
    """Nested -> flat list of rows along the last axis."""
    a = _np.array(a, dtype=object)
    return [list(r) for r in a.reshape(-1, a.shape[-1])]


def layouts(ctx, nd, name="qaxis"):
    """Every axis of an nd-dimensional array, from either end."""
    ax = ctx.choose(name, list(range(nd)))
    return ax - nd if ctx.choose(name + "_neg", [True, False]) else ax


SH = [(), (1,), (2,), (3,), (4,), (2, 3), (3, 2), (4, 4)]


@case("Q01", params=[dict(shape=s) for s in SH],
      bounds="inverses: arrays of up to 2 extra dimensions, every axis from "
             "either end, float and quaternion dtype")
def inverse(ctx, shape):
    r = ctx.rbm
    n = int(_np.prod(shape))
    qs = [nz(ctx, f"q{i}_") for i in range(n)]
    form = ctx.choose("form", ["float", "quat"] if shape else ["float"])
    a = oarr(qs, shape)
    if form == "float":
        ax = layouts(ctx, a.ndim)
        kw = {"qaxis": ax}
        if ax == -1 and ctx.choose("omit", [False, True]):
            kw = {}
        out = r.qinv(ctx.array(moved(a, ax)), **kw)
        if not ctx.shape("inverse", out, _np.moveaxis(a, -1, ax).shape):
            return
        res = rows_of(_np.moveaxis(_np.array(ctx.nested(out), dtype=object),
                                   ax, -1))
    else:
        out = r.qinv(ctx.quat(a.tolist()))
        ctx.check("dtype", ctx.is_quat(out))
        res = rows_of(ctx.comp(out))
    for q, qi in zip(qs, res):
        ctx.eq("left inverse", O.qmul(qi, q), [1, 0, 0, 0])
        ctx.eq("right inverse", O.qmul(q, qi), [1, 0, 0, 0])


@case("Q01", params=[dict(n=k, shape=s) for k in (2, 3, 4)
                     for s in ((), (2,), (4,), (2, 3), (3, 2))
                     if k < 4 or s == (2,)],
      bounds="products of 2-4 factors, arrays of up to 2 extra dimensions, "
             "every axis from either end, float and quaternion dtype")
def product(ctx, n, shape):
    r = ctx.rbm
    m = int(_np.prod(shape))
    qs = [[ctx.reals(f"q{k}_{i}_", 4) for i in range(m)] for k in range(n)]
    form = ctx.choose("form", ["float", "quat"] if shape else ["float"])
    arrs = [oarr(q, shape) for q in qs]
    if form == "float":
        ax = layouts(ctx, len(shape) + 1)
        kw = {}
        if ax != -1 or ctx.choose("explicit", [True, False]):
            kw["qaxis"] = ax
        out = r.qmul(*[ctx.array(moved(a, ax)) for a in arrs], **kw)
        if not ctx.shape("product", out,
                         _np.moveaxis(arrs[0], -1, ax).shape):
            return
        res = rows_of(_np.moveaxis(_np.array(ctx.nested(out), dtype=object),
                                   ax, -1))
    else:
        out = r.qmul(*[ctx.quat(a.tolist()) for a in arrs])
        ctx.check("dtype", ctx.is_quat(out))
        res = rows_of(ctx.comp(out))
    for i in range(m):
        e = qs[0][i]
        for k in range(1, n):
            e = O.qmul(e, qs[k][i])
        ctx.eq("Hamilton product in order", res[i], e)


@case("Q01", bounds="associativity, reversed inverse, arbitrary non-zero "
      "factors; singleton broadcasting")
def group_laws(ctx):
    r = ctx.rbm
    a, b = nz(ctx, "a"), nz(ctx, "b")
    A, B = ctx.array(a), ctx.array(b)
    what = ctx.choose("law", ["inverse", "assoc", "broadcast"])
    if what == "inverse":
        ctx.eq("inverse of the product", r.qinv(r.qmul(A, B)),
               r.qmul(r.qinv(B), r.qinv(A)))
        ctx.eq("inverse twice", r.qinv(r.qinv(A)), a)
    elif what == "assoc":
        c = ctx.array(nz(ctx, "c"))
        ctx.eq("grouping left", r.qmul(r.qmul(A, B), c), r.qmul(A, B, c))
        ctx.eq("grouping right", r.qmul(A, r.qmul(B, c)), r.qmul(A, B, c))
    else:
        m = [nz(ctx, "c"), nz(ctx, "d"), nz(ctx, "e")]
        ctx.eq("one times many", r.qmul(ctx.array([a]), ctx.array(m)),
               [O.qmul(a, x) for x in m])
        ctx.eq("many times one", r.qmul(ctx.array(m), ctx.array(a)),
               [O.qmul(x, a) for x in m])
        for tag, x, l in (("row", ctx.quat([a]), 1),
                          ("column", ctx.quat([[a], [b]]), 2),
                          ("scalar", ctx.quat(a), 0)):
            rows = ([[a]], [[a], [b]])[l == 2]
            e = [[O.qmul(y[0], z) for z in m] for y in rows]
            f = [[O.qmul(z, y[0]) for z in m] for y in rows]
            if l < 2:
                e, f = e[0], f[0]
            ctx.eq(f"{tag} times many, quaternions",
                   ctx.comp(r.qmul(x, ctx.quat(m))), e)
            ctx.eq(f"many times {tag}, quaternions",
                   ctx.comp(r.qmul(ctx.quat(m), x)), f)
            ctx.eq(f"three, the {tag} in the middle",
                   ctx.comp(r.qmul(ctx.quat(m), x, ctx.quat(m))),
                   [[O.qmul(g, z) for g, z in zip(h, m)] for h in f]
                   if l == 2 else [O.qmul(g, z) for g, z in zip(f, m)])


@case("Q01", bounds="fewer than two factors, mixed dtypes")
def product_rejects(ctx):
    r = ctx.rbm
    a = ctx.reals("a", 4)
    A, Aq = ctx.array([a]), ctx.quat([a])
    ctx.raises("one factor", ValueError, r.qmul, A)
    ctx.raises("no factor", ValueError, r.qmul)
    ctx.raises("mixed 1", ValueError, r.qmul, A, Aq)
    ctx.raises("mixed 2", ValueError, r.qmul, Aq, A)
    ctx.raises("mixed 3", ValueError, r.qmul, A, A, Aq)


# ---------------------------------------------------------------- Q02
def rotn(q, v):
    """q v q^-1, scaled by |q|^2 (no division)."""
    return O.qmul(O.qmul(q, [0] + list(v)), O.qconj(q))[1:]


@case("Q02", params=[dict(shape=s, form=f)
                     for s in ((), (1,), (2,), (3,), (4,), (2, 3), (3, 2))
                     for f in ("float", "quat")
                     if not (s == () and f == "quat")],
      bounds="pairwise rotation: arrays of up to 2 extra dimensions, every "
             "placement of both component axes, all non-zero quaternions")
def pairwise(ctx, shape, form):
    r = ctx.rbm
    n = int(_np.prod(shape))
    unit = ctx.choose("unit", [False, True]) if n == 1 else n > 3
    qs = [ctx.unit(f"q{i}_") if unit else nz(ctx, f"q{i}_")
          for i in range(n)]
    vs = [ctx.vec3(f"v{i}_") for i in range(n)]
    a, v = oarr(qs, shape), oarr(vs, shape)
    ax = layouts(ctx, v.ndim, "axis")
    kw = {"axis": ax}
    if ax == -1 and ctx.choose("omit", [False, True]):
        kw = {}
    if form == "float":
        qax = layouts(ctx, a.ndim, "qaxis")
        kw["qaxis"] = qax
        if qax == -1 and ctx.choose("last", [False, True]):
            kw.pop("qaxis")
        qa = ctx.array(moved(a, qax))
    else:
        qa = ctx.quat(a.tolist())
    out = r.rotate_vectors(qa, ctx.array(moved(v, ax)), **kw)
    if not ctx.shape("rotated", out, _np.moveaxis(v, -1, ax).shape):
        return
    res = rows_of(_np.moveaxis(_np.array(ctx.nested(out), dtype=object),
                               ax, -1))
    for q, x, y in zip(qs, vs, res):
        ctx.eq("q v q^-1", [O.norm2(q) * c for c in y], rotn(q, x))


@case("Q02", params=[dict(shape=s) for s in ((), (2,), (3,))],
      bounds="quaternions and vectors given as nested lists or tuples, "
             "either or both")
def sequences(ctx, shape):
    r = ctx.rbm
    n = int(_np.prod(shape))
    qs = [ctx.unit(f"q{i}_") for i in range(n)]
    vs = [ctx.vec3(f"v{i}_") for i in range(n)]
    form = ctx.choose("form", [list, tuple])
    which = ctx.choose("which", ["q", "v", "both"])

    def f(x, k):
        if not shape:
            x = x[0]
        if which not in (k, "both"):
            return ctx.array(x)
        return form(form(y) for y in x) if shape else form(x)

    kw = {} if ctx.choose("one", [True, False]) else {"one_to_one": False}
    out = ctx.nested(r.rotate_vectors(f(qs, "q"), f(vs, "v"), **kw))
    if kw and shape:
        e = [[rotn(q, v) for v in vs] for q in qs]
    else:
        e = [rotn(q, v) for q, v in zip(qs, vs)]
        e = e if shape else e[0]
    ctx.eq("q v q^-1", out, e)


@case("Q02", params=[dict(qs=a, vs=b) for a, b in
                     (((1,), (3,)), ((3,), (1,)), ((1,), (1,)),
                      ((2, 1), (1, 3)), ((1, 3), (2, 1)), ((1, 1), (2, 3)),
                      ((2, 3), (1, 1)))],
      bounds="singleton broadcasting over up to 2 dimensions")
def broadcast(ctx, qs, vs):
    r = ctx.rbm
    Q = [nz(ctx, f"q{i}_") for i in range(int(_np.prod(qs)))]
    V = [ctx.vec3(f"v{i}_") for i in range(int(_np.prod(vs)))]
    qa, va = oarr(Q, qs), oarr(V, vs)
    ax = layouts(ctx, va.ndim, "axis")
    form = ctx.choose("form", ["float", "quat"])
    out = r.rotate_vectors(
        ctx.array(qa.tolist()) if form == "float" else ctx.quat(qa.tolist()),
        ctx.array(moved(va, ax)), axis=ax)
    shp = _np.broadcast_shapes(qs, vs)
    qb = _np.broadcast_to(qa, shp + (4,))
    vb = _np.broadcast_to(va, shp + (3,))
    if not ctx.shape("rotated", out, _np.moveaxis(vb, -1, ax).shape):
        return
    res = _np.moveaxis(_np.array(ctx.nested(out), dtype=object), ax, -1)
    for i in _np.ndindex(*shp):
        ctx.eq("q v q^-1", [O.norm2(list(qb[i])) * c for c in res[i]],
               rotn(list(qb[i]), list(vb[i])))


@case("Q02", params=[dict(qs=a, vs=b) for a, b in
                     (((), ()), ((), (2,)), ((2,), ()), ((2,), (3,)),
                      ((3,), (3,)), ((1,), (2,)), ((2, 3), ()),
                      ((), (2, 3)))],
      bounds="all-combinations rotation: up to 2 extra dimensions, every "
             "placement of both component axes")
def combinations(ctx, qs, vs):
    r = ctx.rbm
    Q = [nz(ctx, f"q{i}_") for i in range(int(_np.prod(qs)))]
    V = [ctx.vec3(f"v{i}_") for i in range(int(_np.prod(vs)))]
    qa, va = oarr(Q, qs), oarr(V, vs)
    ax = layouts(ctx, va.ndim, "axis")
    form = ctx.choose("form", ["float", "quat"] if qs else ["float"])
    if form == "float":
        qax = layouts(ctx, qa.ndim, "qaxis")
        out = r.rotate_vectors(ctx.array(moved(qa, qax)),
                               ctx.array(moved(va, ax)), axis=ax, qaxis=qax,
                               one_to_one=False)
    else:
        out = r.rotate_vectors(ctx.quat(qa.tolist()),
                               ctx.array(moved(va, ax)), axis=ax,
                               one_to_one=False)
    oax = len(qs) + ax % va.ndim
    shp = tuple(qs) + _np.moveaxis(va, -1, ax).shape
    if not ctx.shape("rotated", out, shp):
        return
    res = _np.moveaxis(_np.array(ctx.nested(out), dtype=object), oax, -1)
    for i in _np.ndindex(*qs):
        for j in _np.ndindex(*vs):
            ctx.eq("q v q^-1",
                   [O.norm2(list(qa[i])) * c for c in res[i + j]],
                   rotn(list(qa[i]), list(va[j])))


@case("Q02", bounds="one vector, two vectors; all non-zero quaternions")
def isometry(ctx):
    r = ctx.rbm
    q = nz(ctx, "q")
    mode = ctx.choose("mode", ["single", "pair", "all"])
    what = ctx.choose("what", ["isometry", "linear", "scale"])
    v, w = ctx.vec3("v"), ctx.vec3("w")

    def R(q, x):
        if mode == "single":
            return ctx.nested(r.rotate_vectors(ctx.array(q), ctx.array(x)))
        if mode == "pair":
            return ctx.nested(
                r.rotate_vectors(ctx.array([q]), ctx.array([x])))[0]
        return ctx.nested(r.rotate_vectors(
            ctx.array([q]), ctx.array([x]), one_to_one=False))[0][0]

    if what == "isometry":
        a, b = R(q, v), R(q, w)
        ctx.eq("dot products", O.dot(a, b), O.dot(v, w))
        ctx.eq("lengths", O.dot(a, a), O.dot(v, v))
    elif what == "linear":
        s = ctx.real("s")
        ctx.eq("linear", R(q, O.add(O.scale(s, v), w)),
               O.add(O.scale(s, R(q, v)), R(q, w)))
    else:
        s = ctx.real("s")
        ctx.assume(s * s > 0)
        ctx.eq("scale and sign", R(O.scale(s, q), v), R(q, v))


@case("Q02", bounds="every pair of shapes with up to 2 extra dimensions of "
      "length 1-3 that cannot be paired; spatial axis of length 2 or 4")
def rejects(ctx):
    r = ctx.rbm
    shapes = [(), (1,), (2,), (3,), (1, 2), (2, 2), (2, 3), (3, 2)]
    qs = ctx.choose("q", shapes[1:])
    vs = ctx.choose("v", shapes)
    d = ctx.choose("d", [3, 2, 4])
    form = ctx.choose("form", ["float", "quat"])
    qa = ctx.block("q", qs + (4,))
    q = ctx.array(qa) if form == "float" else ctx.quat(qa)
    v = ctx.array(ctx.block("v", vs + (d,)))
    ok = d == 3 and len(qs) == len(vs) and all(
        a == b or 1 in (a, b) for a, b in zip(qs, vs))
    for i in _np.ndindex(*qs):
        e = qa
        for j in i:
            e = e[j]
        ctx.assume(O.norm2(e) > 0)
    if ok:
        kind, x = ctx.outcome(r.rotate_vectors, q, v)
        ctx.check("pairable shapes are accepted", kind == "ok")
    else:
        ctx.raises(f"{qs} {vs} {d}", ValueError, r.rotate_vectors, q, v)


# ---------------------------------------------------------------- Q03
def basis(q):
    """Orthonormal basis q, q i, q j, q k of the quaternions."""
    return [O.qmul(q, list(e)) for e in Q8]


def known(ctx, q, l):
    if ctx.sym:
        B = basis(q)
        V = [[B[j][i] for j in range(4)] for i in range(4)]
        ctx.eng.notes.setdefault("eig_known", [])
        ctx.eng.notes["eig_known"].append((V, list(l)))
        ctx.eng.notes["eig_nosign"] = True


def lim_perms(ctx):
    if ctx.sym:
        ctx.eng.notes["eig_perms"] = [
            (0, 1, 2, 3), (1, 0, 2, 3), (2, 1, 0, 3), (3, 1, 2, 0),
            (3, 2, 1, 0)]


def dominant(ctx, name, m, d):
    """m is the unit quaternion +-d"""
    ctx.eq(name + " length", O.norm2(m), 1)
    c = O.dot(m, d)
    ctx.eq(name + " direction", c * c, 1)


@case("Q03", bounds="1-4 copies of one rotation with arbitrary signs, any "
      "order of the spectrum, float or quaternion dtype, any axis")
def mean_of_equal(ctx):
    r = ctx.rbm
    q = ctx.unit("q")
    n = ctx.choose("n", [1, 2, 3, 4])
    sg = [ctx.choose(f"s{i}", [1, -1]) for i in range(n)]
    known(ctx, q, [1, 0, 0, 0])
    lim_perms(ctx)
    rows = [O.scale(s, q) for s in sg]
    form = ctx.choose("form", ["float", "quat", "float0"])
    if form == "float":
        m = ctx.nested(r.qmean(ctx.array(rows)))
    elif form == "float0":
        m = ctx.nested(r.qmean(
            ctx.array([list(x) for x in zip(*rows)]), qaxis=0))
    else:
        m = r.qmean(ctx.quat(rows))
        ctx.check("dtype", ctx.is_quat(m))
        m = ctx.comp(m)
    dominant(ctx, "mean", m, q)


@case("Q03", bounds="two rotations differing by any angle, with arbitrary "
      "signs; every order of the spectrum")
def mean_of_two(ctx):
    r = ctx.rbm
    q = ctx.unit("q")
    c, s = ctx.unitn("cs", 2)
    i = ctx.choose("axis", [1, 2, 3])
    B = basis(q)
    a = O.add(O.scale(c, B[0]), O.scale(s, B[i]))
    b = O.sub(O.scale(c, B[0]), O.scale(s, B[i]))
    if ctx.choose("flip", [False, True]):
        b = O.neg(b)
    l = [c * c, 0, 0, 0]
    l[i] = s * s
    known(ctx, q, l)
    ctx.assume(c * c > s * s)
    m = ctx.nested(r.qmean(ctx.array([a, b])))
    dominant(ctx, "mean", m, B[0])


@case("Q03", bounds="weighted mixtures: rotation q m times and rotations "
      "orthogonal to it fewer times")
def mean_of_mixture(ctx):
    r = ctx.rbm
    q = ctx.unit("q")
    B = basis(q)
    cnt = ctx.choose("counts", [(2, 1, 0, 0), (3, 2, 1, 0), (1, 2, 0, 0),
                                (1, 0, 0, 2), (1, 1, 2, 1)])
    lim_perms(ctx)
    n = sum(cnt)
    rows = [B[k] for k in range(4) for _ in range(cnt[k])]
    from fractions import Fraction
    known(ctx, q, [Fraction(c, n) if ctx.sym else c / n for c in cnt])
    form = ctx.choose("form", ["float", "quat"])
    if form == "float":
        m = ctx.nested(r.qmean(ctx.array(rows)))
    else:
        m = ctx.comp(r.qmean(ctx.quat(rows)))
    k = max(range(4), key=lambda j: cnt[j])
    dominant(ctx, "mean", m, B[k])


MEAN_AXES = {2: [0, 1, -1, -2, None, (0, 1), (1,), (-1, 0)],
             3: [0, 1, 2, -2, None, (0, 1), (2, 0), (1, -1)]}


@case("Q03", params=[dict(shape=s) for s in (
          (2, 2), (2, 3), (3, 2), (1, 2), (3, 1), (1, 1), (2, 1, 2))]
      + [dict(shape=(2, 2, 2), _tier="thorough"),
         dict(shape=(1, 3, 2), _tier="thorough")],
      bounds="slices of a 2- or 3-dimensional set of rotations, axes of "
             "length 1 included, mean over any or all axes, float "
             "(components last or, for all axes, any) and quaternion dtype")
def mean_of_slices(ctx, shape):
    r = ctx.rbm
    nd = len(shape)
    axis = ctx.choose("axis", MEAN_AXES[nd])
    form = ctx.choose("form", ["float", "quat"])
    lim_perms(ctx)
    if ctx.sym:
        ctx.eng.notes["eig_perms"] = [(0, 1, 2, 3), (3, 1, 2, 0)]
    axes = tuple(range(nd)) if axis is None else \
        tuple(a % nd for a in (axis if isinstance(axis, tuple) else (axis,)))
    keep = [d for d in range(nd) if d not in axes]
    groups = {}
    a = _np.empty(shape + (4,), dtype=object)
    for i in _np.ndindex(*shape):
        g = tuple(i[d] for d in keep)
        if g not in groups:
            groups[g] = ctx.unit("q" + "_".join(map(str, g)))
            known(ctx, groups[g], [1, 0, 0, 0])
        s = -1 if sum(i) % 2 else 1
        for k in range(4):
            a[i + (k,)] = s * groups[g][k]
    if form == "float":
        if keep:
            out = r.qmean(ctx.array(a.tolist()), axis=axis)
        else:
            qax = layouts(ctx, nd + 1, "qaxis")
            kw = dict(axis=axis, qaxis=qax)
            if axis is None and ctx.choose("all", ["given", "default"]) \
                    == "default":
                kw.pop("axis")
            if qax == -1 and ctx.choose("omit", [False, True]):
                kw.pop("qaxis")
            out = r.qmean(ctx.array(moved(a, qax)), **kw)
        oshape = tuple(shape[d] for d in keep) + (4,)
        if not ctx.shape("means", out, oshape):
            return
        m = ctx.nested(out)
    else:
        out = r.qmean(ctx.quat(a.tolist()), axis=axis)
        if not ctx.shape("means", out, tuple(shape[d] for d in keep)):
            return
        m = ctx.comp(out)
    m = _np.array(m, dtype=object)
    for g, q in groups.items():
        dominant(ctx, f"slice {g}", list(m[g]), q)


# ---------------------------------------------------------------- Q04
def is_unit(ctx, name, rows):
    ctx.eq(name, [O.norm2(x) for x in rows], [1] * len(rows))


@case("Q04", params=[dict(n=n, m=m) for n in (2, 3) for m in (1, 2)],
      bounds="2-3 samples at increasing times, 1-2 requested times anywhere "
             "within the sampled span, every order and tie; array form")
def interp_hits(ctx, n, m):
    r = ctx.rbm
    t = ctx.times("t", n)
    u = [ctx.real(f"u{k}") for k in range(m)]
    for x in u:
        ctx.assume(t[0] <= x)
        ctx.assume(x <= t[-1])
    qs = ctx.units("q", n)
    form = ctx.choose("form", ["float", "quat"])
    if form == "float":
        out = r.qinterp(ctx.array(qs), ctx.array(t), ctx.array(u))
        if not ctx.shape("result", out, (m, 4)):
            return
        res = ctx.nested(out)
    else:
        out = r.qinterp(ctx.quat(qs), ctx.array(t), ctx.array(u))
        ctx.check("dtype", ctx.is_quat(out))
        res = ctx.comp(out)
    is_unit(ctx, "unit length", res)
    for k in range(m):
        for i in range(n):
            if ctx.decide(u[k] == t[i]):
                ctx.eq("sample reproduced", res[k], qs[i])


def _interp_ref(r, ctx, rows, t, u):
    """One series, canonical layout."""
    return ctx.nested(r.qinterp(ctx.array(rows), t, u))


INTERP_SHAPES = [("t",), ("t", 2), (2, "t"), ("t", 4), (4, "t"),
                 (2, "t", 3)]


@case("Q04", params=[dict(other=s) for s in INTERP_SHAPES],
      bounds="3 samples, 4 requested times on and between samples, every "
             "placement of time and component axes, up to 2 further "
             "dimensions, float and quaternion dtype")
def interp_layout(ctx, other):
    r = ctx.rbm
    t = _np.array([0.0, 1.0, 3.0])
    u = _np.array([0.0, 0.5, 1.0, 2.0, 3.0])
    if ctx.choose("grid", ["more", "fewer"]) == "fewer":
        u = _np.array([1.0, 2.5])
    shp = tuple(3 if o == "t" else o for o in other)
    tp = other.index("t")
    n = int(_np.prod(shp))
    qs = [ctx.unit(f"q{i}_") for i in range(n)]
    a = oarr(qs, shp)
    form = ctx.choose("form", ["float", "quat"])
    if form == "float":
        qax = layouts(ctx, a.ndim, "qaxis")
        tax = tp if tp < qax % a.ndim else tp + 1
        if ctx.choose("tneg", [False, True]):
            tax -= a.ndim
        kw = dict(axis=tax, qaxis=qax)
        if qax == -1 and ctx.choose("last", [False, True]):
            kw.pop("qaxis")
        if tax == 0 and ctx.choose("omit", [False, True]):
            kw.pop("axis")
        out = r.qinterp(ctx.array(moved(a, qax)), t, u, **kw)
    else:
        qax = -1
        tax = tp - len(shp) if ctx.choose("tneg", [False, True]) else tp
        out = r.qinterp(ctx.quat(a.tolist()), t, u, axis=tax)
    oshp = tuple(len(u) if o == "t" else o for o in other)
    e = _np.empty(oshp + (4,), dtype=object)
    rest = [range(x) if o != "t" else [slice(None)]
            for o, x in zip(other, shp)]
    for i in itertools.product(*rest):
        rows = [list(x) for x in a[i]]
        e[i] = _np.array(_interp_ref(r, ctx, rows, t, u), dtype=object)
    if form == "float":
        ctx.eq("series by series", out, moved(e, qax))
    else:
        ctx.eq("series by series", ctx.comp(out), e.tolist())


def acc_array(ctx, dims, shp, rows_at, tname, times):
    """Labelled quaternions with coordinates of every kind."""
    import xarray as xr

    vals = _np.empty(shp, dtype=object)
    qi = dims.index("q")
    for i in _np.ndindex(*[x for k, x in enumerate(shp) if k != qi]):
        for c, v in enumerate(rows_at(i)):
            vals[i[:qi] + (c,) + i[qi:]] = v
    co = {"q": ["w", "x", "y", "z"], "scalar": 3.5,
          "part": ("q", [0, 1, 2, 3])}
    if tname in dims:
        n = len(times)
        co[tname] = times
        co["val"] = (tname, _np.array([3.0, 1.0, 7.0, 2.0])[:n])
        co["label"] = (tname, ["u", "v", "w", "x"][:n])
    if "n" in dims:
        co["n"] = [10, 20]
        co["side"] = ("n", ["l", "r"])
        if tname in dims:
            co["both"] = ((tname, "n"), _np.array(
                [[0.0, 4.0], [1.0, 2.0], [5.0, 8.0], [6.0, 9.0]])[:n])
    return xr.DataArray(ctx.array(vals.tolist()), co, dims, name="thing",
                        attrs={"long_name": "Thing"})


def acc_labels(ctx, out, da, tname, times, want):
    """Everything but the numbers of an interpolated array."""
    ctx.same("dimensions", tuple(out.dims), tuple(da.dims))
    ctx.same("name", out.name, da.name)
    ctx.same("metadata", dict(out.attrs), dict(da.attrs))
    ctx.same("coordinates", sorted(out.coords), sorted(da.coords))
    for k in da.coords:
        if tname in da.coords[k].dims or k not in out.coords:
            continue
        ctx.same("coordinate " + k, (out.coords[k].dims,
                                     out.coords[k].values.tolist()),
                 (da.coords[k].dims, da.coords[k].values.tolist()))
    got = out.coords[tname].values
    ctx.same("requested times", got.tolist(), want.tolist())
    if "val" not in out.coords or "label" not in out.coords:
        return
    f = times.astype(float)
    if "both" in out.coords and ctx.same(
            "both dimensions", out.coords["both"].dims,
            da.coords["both"].dims):
        for k in range(2):
            e = _np.interp(want.astype(float), f,
                           da.coords["both"].values[:, k])
            ctx.same(f"numbers along both {k}", bool(_np.allclose(
                out.coords["both"].values[:, k], e)), True)
    for j, u in enumerate(want.astype(float)):
        i = min(max(int(_np.searchsorted(f, u)), 1), len(f) - 1)
        a, b = f[i - 1], f[i]
        v0, v1 = (float(da.coords["val"].values[k]) for k in (i - 1, i))
        e = v0 + (v1 - v0) * (u - a) / (b - a)
        g = float(out.coords["val"].values[j])
        ctx.same(f"numbers along time {j}", abs(g - e) < 1e-5, True)
        near = {da.coords["label"].values[k] for k in (i - 1, i)
                if abs(f[k] - u) == min(abs(f - u))}
        ctx.same(f"nearest text {j}", out.coords["label"].values[j] in near,
                 True)


@case("Q04", params=[dict(nd=n, clock=c) for n in (2, 3)
                     for c in ("float", "datetime")],
      bounds="labelled form: 3 or 4 samples, 5 or 2 requested times, every "
             "dimension order, two names of the time dimension, numeric "
             "and calendar times, requested as array, list, labelled "
             "array, keyword or dict; numeric, text, scalar coordinates")
def interp_labelled(ctx, nd, clock):
    import xarray as xr

    r = ctx.rbm
    ctx.mod("accessors")
    n = ctx.choose("samples", [3, 4])
    t = _np.array([0.0, 1.0, 3.0, 4.0])[:n]
    u = _np.array([0.0, 0.5, 1.0, 2.25, 3.0])
    if ctx.choose("grid", ["more", "fewer"]) == "fewer":
        u = _np.array([1.0, 2.5])
    if clock == "datetime":
        base = _np.datetime64("2021-03-04T05:06:07", "ns")
        t, u = (base + (x * 1e9).astype("timedelta64[ns]") for x in (t, u))
    tname = ctx.choose("tname", ["time", "stamp"])
    dims = ctx.choose("dims", list(itertools.permutations(
        ["q", tname] + ["n"] * (nd - 2))))
    size = {"q": 4, tname: n, "n": 2}
    shp = tuple(size[x] for x in dims)
    qs = {}

    def rows_at(i):
        if i not in qs:
            qs[i] = ctx.unit("q" + "_".join(map(str, i)) + "_")
        return qs[i]

    da = acc_array(ctx, dims, shp, rows_at, tname, t)
    form = ctx.choose("form", ["array", "list", "labelled"])
    x = {"array": u, "list": list(u),
         "labelled": xr.DataArray(u, {tname: u}, (tname,))}[form]
    if ctx.choose("given", ["keyword", "dict"]) == "dict":
        out = da.rbm.qinterp({tname: x}, qdim="q")
    else:
        out = da.rbm.qinterp(qdim="q", **{tname: x})
    num = r.qinterp(da.values if not ctx.sym else da.data, t, u,
                    axis=dims.index(tname), qaxis=dims.index("q"))
    ctx.check("is labelled", isinstance(out, xr.DataArray))
    ctx.eq("numbers of the plain form", out.data, num)
    acc_labels(ctx, out, da, tname, t, u)


@case("Q04", bounds="labelled form: unknown dimensions, several dimensions "
      "and requested times of more dimensions are refused")
def interp_labelled_rejects(ctx):
    ctx.rbm
    ctx.mod("accessors")
    t = _np.array([0.0, 1.0, 3.0])
    da = acc_array(ctx, ("time", "q"), (3, 4), lambda i: ctx.unit(f"q{i[0]}"),
                   "time", t)
    f = da.rbm.qinterp
    ctx.raises("unknown dimension", ValueError, f, qdim="q", other=t)
    ctx.raises("unknown components", ValueError, f, time=t)
    ctx.raises("two dimensions", NotImplementedError, f, qdim="q", time=t,
               other=t)
    ctx.raises("a grid", NotImplementedError, f, qdim="q", time=_np.eye(3))


@case("Q01", params=[dict(nd=n) for n in (1, 2, 3)],
      bounds="inverses of labelled arrays of up to 3 dimensions, every "
             "dimension order, all labels and the argument kept")
def inverse_labelled(ctx, nd):
    import xarray as xr

    r = ctx.rbm
    ctx.mod("accessors")
    dims = ctx.choose("dims", list(itertools.permutations(
        ["q", "time", "n"][:nd])))
    shp = tuple({"q": 4, "time": 3, "n": 2}[x] for x in dims)
    qs = {}

    def rows_at(i):
        if i not in qs:
            qs[i] = ctx.reals("q" + "_".join(map(str, i)) + "_", 4)
            ctx.assume(O.norm2(qs[i]) > 0)
        return qs[i]

    da = acc_array(ctx, dims, shp, rows_at, "time",
                   _np.array([0.0, 1.0, 3.0]))
    before = ctx.nested(da.data)
    qdim = "q"
    if ctx.choose("qdim", ["given", "default"]) == "default":
        da = da.rename(q="quaternion_axis")
        qdim = "quaternion_axis"
        out = da.rbm.qinv()
    else:
        out = da.rbm.qinv(qdim="q")
    ctx.check("is labelled", isinstance(out, xr.DataArray))
    ctx.same("dimensions", tuple(out.dims), tuple(da.dims))
    ctx.same("name", out.name, "thing")
    ctx.same("metadata", dict(out.attrs), {"long_name": "Thing"})
    ctx.same("coordinates", {k: (v.dims, v.values.tolist())
                             for k, v in out.coords.items()},
             {k: (v.dims, v.values.tolist()) for k, v in da.coords.items()})
    ctx.eq("argument kept", da.data, before)
    if ctx.shape("inverse", out.data, shp):
        res = _np.moveaxis(_np.array(ctx.nested(out.data), dtype=object),
                           dims.index("q"), -1)
        for i, q in qs.items():
            ctx.eq("inverse", O.qmul(q, list(res[i])), [1, 0, 0, 0])
    ctx.raises("unknown dimension", ValueError, da.rbm.qinv, qdim="other")


# ---------------------------------------------------------------- Q05
AX = {"r": 1, "p": 2, "y": 3}
ORDERS = ["rpy", "ryp", "pry", "pyr", "yrp", "ypr"]


def euler(ctx, angles, order):
    q = [1, 0, 0, 0]
    for c in order:
        if c in angles:
            f = [ctx.cos(angles[c] / 2), 0, 0, 0]
            f[AX[c]] = ctx.sin(angles[c] / 2)
            q = O.qmul(q, f)
    return q


def ang(ctx, name):
    from fractions import Fraction
    return ctx.angle(name, unit=Fraction(1, 2))


@case("Q05", params=[dict(n=n) for n in (None, 1, 2, 3, 4)],
      bounds="angles given together: one to four triples on any axis, all "
             "six orders, both result forms")
def euler_together(ctx, n):
    r = ctx.rbm
    order = ctx.choose("order", ORDERS)
    rows = [[ang(ctx, f"{c}{i}") for c in "rpy"] for i in range(n or 1)]
    a = oarr(rows, () if n is None else (n,))
    ax = layouts(ctx, a.ndim, "axis")
    kw = dict(axis=ax, order=order)
    if order == "rpy" and ctx.choose("omit", [False, True]):
        kw.pop("order")
    x = ctx.array(moved(a, ax))
    if ctx.choose("as_list", [False, True]) and n is None:
        x = rows[0]
    ex = [euler(ctx, dict(zip("rpy", w)), order) for w in rows]
    is_unit(ctx, "oracle is unit", ex)
    e = oarr(ex, a.shape[:-1])
    if ctx.choose("quat", [False, True]):
        out = r.from_euler_angles(x, return_quaternion=True, **kw)
        ctx.check("dtype", ctx.is_quat(out))
        ctx.eq("product of rotations", ctx.comp(out), e.tolist())
    else:
        out = r.from_euler_angles(x, **kw)
        ctx.eq("product of rotations", out, moved(e, ax))


@case("Q05", params=[dict(shape=s) for s in ((2, 3), (3, 2))],
      bounds="two further dimensions, every axis")
def euler_grid(ctx, shape):
    r = ctx.rbm
    n = int(_np.prod(shape))
    rows = [[ang(ctx, f"{c}{i}") for c in "rpy"] for i in range(n)]
    a = oarr(rows, shape)
    ax = layouts(ctx, a.ndim, "axis")
    e = oarr([euler(ctx, dict(zip("rpy", w)), "rpy") for w in rows], shape)
    out = r.from_euler_angles(ctx.array(moved(a, ax)), axis=ax)
    ctx.eq("product of rotations", out, moved(e, ax))


@case("Q05", bounds="angles given separately, all non-empty subsets, all six "
      "orders, scalars and arrays of up to 3 entries, both result forms")
def euler_separate(ctx):
    r = ctx.rbm
    sub = ctx.choose("subset", ["r", "p", "y", "rp", "ry", "py", "rpy"])
    order = ctx.choose("order", ORDERS)
    n = ctx.choose("n", [None, 1, 3])
    names = {"r": "roll", "p": "pitch", "y": "yaw"}
    ang_ = {c: [ang(ctx, f"{c}{i}") for i in range(n or 1)] for c in sub}
    kw = {names[c]: ctx.array(ang_[c] if n else ang_[c][0]) for c in sub}
    ex = [euler(ctx, {c: ang_[c][i] for c in sub}, order)
          for i in range(n or 1)]
    if ctx.choose("quat", [False, True]):
        out = r.from_euler_angles(order=order, return_quaternion=True, **kw)
        ctx.eq("product of rotations", ctx.comp(out), ex if n else ex[0])
    else:
        out = r.from_euler_angles(order=order, **kw)
        ctx.eq("product of rotations", out, ex if n else ex[0])
    # omitted angles count as zero
    if n:
        full = [[ang_[c][i] if c in sub else 0 for c in "rpy"]
                for i in range(n)]
        ctx.eq("omitted angles are zero",
               r.from_euler_angles(ctx.array(full), order=order), ex)


@case("Q05", bounds="up to three triples or separate angles of which some "
      "are not a number: no orientation there, the stated one elsewhere")
def euler_gaps(ctx):
    r = ctx.rbm
    order = ctx.choose("order", ORDERS)
    gap, what = ctx.choose("gap", [
        (i, w) for i in range(3) for w in ("r", "p", "y", "rpy")])
    rows = [[ang(ctx, f"{c}{i}") for c in "rpy"] for i in range(3)]
    ex = [euler(ctx, dict(zip("rpy", w)), order) for w in rows]
    rows[gap] = [float("nan") if c in what else v
                 for c, v in zip("rpy", rows[gap])]
    ex[gap] = [float("nan")] * 4
    if ctx.choose("together", [True, False]):
        ax = ctx.choose("axis", [0, 1])
        a = oarr(rows, (3,))
        out = r.from_euler_angles(ctx.array(moved(a, ax)), axis=ax,
                                  order=order)
        ctx.eq("product of rotations", out, moved(oarr(ex, (3,)), ax))
    else:
        cols = [ctx.array(list(c)) for c in zip(*rows)]
        out = r.from_euler_angles(roll=cols[0], pitch=cols[1], yaw=cols[2],
                                  order=order, return_quaternion=True)
        ctx.eq("product of rotations", ctx.comp(out), ex)


@case("Q05", bounds="inconsistent shapes, missing angles, angles given "
      "twice, orders that are no permutation of r, p, y")
def euler_rejects(ctx):
    r = ctx.rbm
    f = r.from_euler_angles
    a = ctx.array([ang(ctx, f"a{i}") for i in range(2)])
    b = ctx.array([ang(ctx, f"b{i}") for i in range(3)])
    names = ["roll", "pitch", "yaw"]
    for x, y in itertools.permutations(names, 2):
        ctx.raises(f"shapes {x} {y}", ValueError, f, **{x: a, y: b})
    ctx.raises("nothing", ValueError, f)
    for x in names:
        ctx.raises("both " + x, ValueError, f, b, **{x: a})
    for o in ("", "r", "rp", "rpp", "rrr", "xyz", "rpx", "RPY", "rpyr",
              "rpyx", "xrpy", "rp y"):
        ctx.raises("order " + o, ValueError, f, b, order=o)
