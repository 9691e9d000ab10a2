"""A: rigid transforms between frames of static trees."""
import numpy as _np

from sx import oracle as O
from sx.runner import case

METHODS = ("points", "vectors", "quaternions")


def build(ctx, shape, inverse=()):
    """Register a tree; shape: list of (name, parent).

    Returns the package and {name: (translation, rotation)} as given.
    """
    r = ctx.rbm
    given = {}
    for name, parent in shape:
        if parent is None:
            r.register_frame(name)
        else:
            t, q = ctx.vec3("t" + name), ctx.unit("q" + name)
            given[name] = (t, q)
            r.register_frame(
                name, parent, translation=ctx.array(t),
                rotation=ctx.array(q), inverse=name in inverse)
    return r, given


def data(ctx, kind, name="p", n=None):
    d = 4 if kind == "quaternions" else 3
    if n is None:
        return ctx.array(ctx.reals(name, d))
    return ctx.array(ctx.mat(name, n, d))


def tf(r, kind):
    return getattr(r, "transform_" + kind)


def apply(kind, tr, x):
    if kind == "points":
        return O.add(O.rot(tr[1], x), tr[0])
    if kind == "vectors":
        return O.rot(tr[1], x)
    return O.qmul(tr[1], x)


def nonzero(ctx, name):
    """A rotation of any length, given by a non-zero quaternion."""
    q = ctx.reals(name, 4)
    ctx.assume(O.norm2(q) > 0)
    return q


TREES = {
    "chain": [("w", None), ("a", "w"), ("b", "a")],
    "fork": [("w", None), ("a", "w"), ("b", "w")],
    "yfork": [("w", None), ("s", "w"), ("a", "s"), ("b", "s")],
    "deep": [("w", None), ("a", "w"), ("b", "a"), ("c", "b")],
    "deep5": [("w", None), ("a", "w"), ("b", "a"), ("c", "b"), ("d", "c")],
    "broad5": [("w", None), ("a", "w"), ("b", "a"), ("c", "w"), ("d", "c")],
}
QUICK = ("chain", "fork", "yfork", "deep")


@case("A01", params=[
    dict(tree=t, kind=k, _tier="quick" if t in QUICK else "thorough")
    for t in TREES for k in METHODS],
    bounds="static trees of up to 4 frames (5 in the thorough tier) incl. "
           "inverse-specified ones, every ordered frame triple, all real "
           "translations and coordinates, all unit rotations")
def composition(ctx, tree, kind):
    shape = TREES[tree]
    inv = ctx.choose("inv", [(), ("a",)])
    r, _ = build(ctx, shape, inv)
    names = [n for n, _ in shape]
    src = ctx.choose("src", names)
    dst = ctx.choose("dst", [n for n in names if n != src])
    via = ctx.choose("via", [n for n in names if n not in (src, dst)])
    p = data(ctx, kind)
    f = tf(r, kind)
    d = f(p, into=dst, outof=src)
    s = f(f(p, into=via, outof=src), into=dst, outof=via)
    ctx.eq("direct equals stepwise", d, s)


def unregistered(ctx, shape):
    """The tree's frames outside of the registry: nameless or all alike."""
    name = ctx.choose("named", [None, "f"])
    RF = ctx.rbm.ReferenceFrame
    given, frames = {}, {}
    for k, parent in shape:
        if parent is None:
            frames[k] = RF(name)
        else:
            given[k] = ctx.vec3("t" + k), ctx.unit("q" + k)
            frames[k] = RF(name, parent=frames[parent],
                           translation=ctx.array(given[k][0]),
                           rotation=ctx.array(given[k][1]))
    return frames, given


@case("A01", params=[dict(kind=k) for k in METHODS],
      bounds="frames outside of the registry that are nameless or share one "
             "name: every ordered pair of 3 or 4 frames")
def same_names(ctx, kind):
    shape = TREES[ctx.choose("tree", ["fork", "chain", "yfork"])]
    frames, given = unregistered(ctx, shape)
    src = ctx.choose("src", list(frames))
    dst = ctx.choose("dst", [n for n in frames if n != src])
    p = data(ctx, kind)
    got = tf(frames[src], kind)(p, frames[dst])
    parent = dict(shape)
    # the path by hand: up to the root, down again
    x, down = ctx.nested(p), []
    f = src
    while parent[f] is not None:
        x = apply(kind, given[f], x)
        f = parent[f]
    f = dst
    while parent[f] is not None:
        down.append(f)
        f = parent[f]
    for f in down[::-1]:
        x = apply(kind, O.inverse(given[f]), x)
    ctx.eq("composition", got, x)


@case("A01", params=[dict(kind=k) for k in METHODS],
      bounds="lookup of a composed transform: 4 frames, every triple")
def composition_of_lookups(ctx, kind):
    shape = TREES["yfork" if kind == "points" else
                  "deep" if kind == "vectors" else "fork"]
    r, _ = build(ctx, shape, ctx.choose("inv", [(), ("a",)]))
    names = [n for n, _ in shape]
    src = ctx.choose("src", names)
    dst = ctx.choose("dst", [n for n in names if n != src])
    via = ctx.choose("via", [n for n in names if n not in (src, dst)])
    t1, r1 = [ctx.nested(x) for x in r.lookup_transform(src, via)]
    t2, r2 = [ctx.nested(x) for x in r.lookup_transform(via, dst)]
    t, q = [ctx.nested(x) for x in r.lookup_transform(src, dst)]
    et, eq_ = O.compose((t2, r2), (t1, r1))
    ctx.eq("rotation composes", q, eq_)
    ctx.eq("translation composes", t, et)


@case("A01", params=[dict(kind="points", _tier="thorough"),
                     dict(kind="vectors"), dict(kind="quaternions")],
      bounds="two edges in every arrangement, one of them (for orientations "
             "both) with a rotation of any length, one given inversely or "
             "none")
def any_length(ctx, kind):
    r = ctx.rbm
    free = "ab" if kind == "quaternions" else ctx.choose("free", "ab")
    shape = TREES[ctx.choose("tree", ["chain", "fork"])]
    inv = ctx.choose("inv", [(), ("a",)])
    r.register_frame("w")
    for name, parent in shape[1:]:
        r.register_frame(
            name, parent, translation=ctx.array(ctx.vec3("t" + name)),
            rotation=ctx.array(nonzero(ctx, "q" + name) if name in free
                               else ctx.unit("q" + name)),
            inverse=name in inv)
    src, via, dst = ctx.choose("path", [
        ("a", "w", "b"), ("b", "w", "a"), ("b", "a", "w"), ("w", "a", "b"),
        ("w", "b", "a"), ("a", "b", "w")])
    p = data(ctx, kind)
    f = tf(r, kind)
    d = f(p, into=dst, outof=src)
    s = f(f(p, into=via, outof=src), into=dst, outof=via)
    ctx.eq("direct equals stepwise", d, s)


@case("A01", params=[dict(kind=k) for k in METHODS],
      bounds="frames in a chain or fork that share one translation or "
             "rotation array, the other symbolic; every ordered triple")
def shared_arrays(ctx, kind):
    r = ctx.rbm
    which = ctx.choose("shared", ["translation", "rotation"])
    shape = TREES[ctx.choose("tree", ["chain", "fork"])]
    inv = ctx.choose("inv", [(), ("a",)])
    t, q = ctx.array(ctx.vec3("t")), ctx.array(ctx.unit("q"))
    r.register_frame("w")
    for name, parent in shape[1:]:
        r.register_frame(
            name, parent,
            translation=t if which == "translation"
            else ctx.array(ctx.vec3("t" + name)),
            rotation=q if which == "rotation"
            else ctx.array(ctx.unit("q" + name)), inverse=name in inv)
    names = ["w", "a", "b"]
    src = ctx.choose("src", names)
    dst = ctx.choose("dst", [n for n in names if n != src])
    via = [n for n in names if n not in (src, dst)][0]
    p = data(ctx, kind)
    f = tf(r, kind)
    d = f(p, into=dst, outof=src)
    s = f(f(p, into=via, outof=src), into=dst, outof=via)
    ctx.eq("direct equals stepwise", d, s)


# ---------------------------------------------------------------- A02
@case("A02", params=[dict(kind=k) for k in METHODS],
      bounds="one edge whose rotation has any length, both directions, "
             "forward and inverse, static and 2 samples")
def any_length_round_trip(ctx, kind):
    r = ctx.rbm
    t, q = ctx.vec3("t"), nonzero(ctx, "q")
    moving = ctx.choose("moving", [False, True])
    r.register_frame("w")
    kt = {}
    if moving:
        # times of both samples only: no interpolation in between
        kt = dict(timestamps=_np.array([0.0, 1.0]))
        kw = dict(translation=ctx.array([t, ctx.vec3("u")]),
                  rotation=ctx.array([q, nonzero(ctx, "s")]),
                  discrete=True, **kt)
    else:
        kw = dict(translation=ctx.array(t), rotation=ctx.array(q))
    r.register_frame("fwd", "w", **kw)
    r.register_frame("bwd", "w", inverse=True, **kw)
    p = data(ctx, kind, n=2 if moving else None)
    f = tf(r, kind)
    a = ctx.choose("frame", ["fwd", "bwd"])
    src, dst = ctx.choose("dir", [("w", a), (a, "w")])
    there = f(p, into=dst, outof=src, **kt)
    ctx.eq("there and back", f(there, into=src, outof=dst, **kt), p)
    ctx.eq("the inverse", f(p, into="w", outof="bwd", **kt),
           f(p, into="fwd", outof="w", **kt))
    t1, q1, _ = r.registry["bwd"].lookup_transform("w")
    t2, q2, _ = r.registry["w"].lookup_transform("fwd")
    ctx.eq("looked-up translations", t1, t2)
    ctx.eq("looked-up rotations", q1, q2)


@case("A02", params=[dict(kind=k) for k in METHODS],
      bounds="one edge in either direction, arrays of 1 or 2 entries")
def round_trip_edge(ctx, kind):
    r, _ = build(ctx, TREES["fork"][:2], ctx.choose("inv", [(), ("a",)]))
    src, dst = ctx.choose("dir", [("w", "a"), ("a", "w")])
    p = data(ctx, kind, n=ctx.choose("n", [None, 1, 2]))
    f = tf(r, kind)
    back = f(f(p, into=dst, outof=src), into=src, outof=dst)
    ctx.eq("there and back", back, p)


@case("A02", params=[dict(kind=k, tree=t) for k in METHODS
                     for t in ("chain", "fork")],
      bounds="two edges, every ordered frame pair")
def round_trip(ctx, kind, tree):
    shape = TREES[tree]
    r, _ = build(ctx, shape)
    names = [n for n, _ in shape]
    src = ctx.choose("src", names)
    dst = ctx.choose("dst", [n for n in names if n != src])
    p = data(ctx, kind)
    f = tf(r, kind)
    back = f(f(p, into=dst, outof=src), into=src, outof=dst)
    ctx.eq("there and back", back, p)


@case("A02", params=[dict(kind=k) for k in METHODS],
      bounds="every frame of a 4-frame tree, arrays of 1 or 2 entries")
def identity(ctx, kind):
    shape = TREES["yfork"]
    r, _ = build(ctx, shape)
    f = ctx.choose("frame", [n for n, _ in shape])
    p = data(ctx, kind, n=ctx.choose("n", [None, 1, 2]))
    ctx.eq("same frame", tf(r, kind)(p, into=f, outof=f), p)
    t, q = r.lookup_transform(f, f)
    ctx.eq("identity translation", t, [0, 0, 0])
    ctx.eq("identity rotation", q, [1, 0, 0, 0])


@case("A02", params=[dict(kind=k) for k in METHODS],
      bounds="one edge, given forward and given inverted")
def inverse_flag(ctx, kind):
    """inverse=True: the given transform is that of the parent wrt it."""
    r = ctx.rbm
    t, q = ctx.vec3("t"), ctx.unit("q")
    moving = ctx.choose("moving", [False, True])
    r.register_frame("w")
    if moving:
        kw = dict(translation=ctx.array([t, ctx.vec3("u")]),
                  rotation=ctx.array([q, ctx.unit("s")]),
                  timestamps=_np.array([0.0, 1.0]))
    else:
        kw = dict(translation=ctx.array(t), rotation=ctx.array(q))
    r.register_frame("fwd", "w", **kw)
    r.register_frame("bwd", "w", inverse=True, **kw)
    n = 2 if moving else None
    p = data(ctx, kind, n=n)
    f = tf(r, kind)
    kt = dict(timestamps=_np.array([0.0, 1.0])) if moving else {}
    ctx.eq("up through the inverted equals down through the given",
           f(p, into="w", outof="bwd", **kt), f(p, into="fwd", outof="w",
                                                **kt))
    ctx.eq("down through the inverted equals up through the given",
           f(p, into="bwd", outof="w", **kt), f(p, into="w", outof="fwd",
                                                **kt))


@case("A02", params=[dict(tree=t) for t in ("chain", "fork")],
      bounds="every ordered frame pair over two edges")
def lookup_inverse(ctx, tree):
    shape = TREES[tree]
    r, _ = build(ctx, shape)
    names = [n for n, _ in shape]
    src = ctx.choose("src", names)
    dst = ctx.choose("dst", [n for n in names if n != src])
    t1, r1 = [ctx.nested(x) for x in r.lookup_transform(src, dst)]
    t2, r2 = [ctx.nested(x) for x in r.lookup_transform(dst, src)]
    ctx.eq("rotations are conjugate", r2, O.qconj(r1))
    ctx.eq("translation of the inverse", t2, O.neg(O.rot(O.qconj(r1), t1)))


# ---------------------------------------------------------------- A03
@case("A03", params=[dict(kind=k) for k in METHODS],
      bounds="one edge, both directions, both frame spellings")
def defining_formula(ctx, kind):
    """A frame's transform is p_parent = R p + t."""
    inv = ctx.choose("inv", [(), ("a",)])
    r, given = build(ctx, TREES["fork"][:2], inv)
    up = ctx.choose("up", [True, False])
    src, dst = ("a", "w") if up else ("w", "a")
    tr = given["a"]
    if (not up) != bool(inv):
        tr = O.inverse(tr)
    inst = ctx.choose("instance", [(0, 0), (1, 0), (0, 1), (1, 1)])
    s = r.registry[src] if inst[0] else src
    d = r.registry[dst] if inst[1] else dst
    p = data(ctx, kind, n=ctx.choose("n", [None, 2]))
    out = tf(r, kind)(p, into=d, outof=s)
    rows = ctx.nested(p)
    if p.ndim == 1:
        ctx.eq("formula", out, apply(kind, tr, rows))
    else:
        ctx.eq("formula", out, [apply(kind, tr, x) for x in rows])
    t, q = r.lookup_transform(s, d)
    ctx.eq("lookup translation", t, tr[0])
    ctx.eq("lookup rotation", q, tr[1])


@case("A03", params=[dict(kind=k) for k in METHODS],
      bounds="one edge whose rotation has any length")
def any_length_formula(ctx, kind):
    r = ctx.rbm
    t, q = ctx.vec3("t"), nonzero(ctx, "q")
    r.register_frame("w")
    r.register_frame("a", "w", ctx.array(t), ctx.array(q))
    p = ctx.nested(data(ctx, kind))
    out = tf(r, kind)(ctx.array(p), into="w", outof="a")
    tl, ql = r.lookup_transform("a", "w")
    ctx.eq("lookup translation", tl, t)
    ctx.eq("lookup rotation", ql, q)
    if kind == "quaternions":
        ctx.eq("formula", out, O.qmul(q, p))
        return
    v = [x / O.norm2(q) for x in O.rot(q, p)]
    ctx.eq("formula", out, O.add(v, t) if kind == "points" else v)


@case("A03", params=[dict(kind=k, tree=t) for k in METHODS
                     for t in ("chain", "fork", "deep")],
      bounds="every ordered pair of up to 4 frames")
def transform_agrees_with_lookup(ctx, kind, tree):
    shape = TREES[tree]
    r, _ = build(ctx, shape, ctx.choose("inv", [(), ("a",)]))
    names = [n for n, _ in shape]
    src = ctx.choose("src", names)
    dst = ctx.choose("dst", names)
    p = data(ctx, kind)
    how = ctx.choose("lookup", ["transform", "pose", "method", "triple"])
    if how == "transform":
        t, q = r.lookup_transform(src, dst)
    elif how == "pose":
        t, q = r.lookup_pose(src, dst)
    elif how == "triple":
        t, q, ts = r.lookup_transform(src, dst, return_timestamps=True)
        ctx.same("static", ts, None)
        t2, q2, ts2 = r.lookup_pose(src, dst, return_timestamps=True)
        ctx.same("static pose", ts2, None)
        ctx.eq("pose position", t2, t)
        ctx.eq("pose orientation", q2, q)
    else:
        t, q, ts = r.registry[src].lookup_transform(dst)
        ctx.same("static", ts, None)
    ctx.shape("t", t, (3,))
    ctx.shape("q", q, (4,))
    out = tf(r, kind)(p, into=dst, outof=src)
    ctx.eq("transform is the looked-up motion", out,
           apply(kind, (ctx.nested(t), ctx.nested(q)), ctx.nested(p)))


@case("A03", bounds="as_dataset of both lookups, static and 2 samples")
def lookup_datasets(ctx):
    r = ctx.rbm
    moving = ctx.choose("moving", [False, True])
    r.register_frame("w")
    if moving:
        r.register_frame(
            "a", "w", ctx.array(ctx.mat("t", 2, 3)),
            ctx.array(ctx.units("q", 2)), timestamps=_np.array([0.5, 2.0]))
    else:
        r.register_frame("a", "w", ctx.array(ctx.vec3("t")),
                         ctx.array(ctx.unit("q")))
    src, dst = ctx.choose("dir", [("w", "a"), ("a", "w")])
    pose = ctx.choose("pose", [False, True])
    if pose:
        ds = r.lookup_pose(src, dst, as_dataset=True)
        ln, an, ref = "position", "orientation", dst
    else:
        ds = r.lookup_transform(src, dst, as_dataset=True)
        ln, an, ref = "translation", "rotation", src
    t, q, ts = r.registry[src].lookup_transform(dst)
    ctx.same("variables", sorted(ds.data_vars), sorted([ln, an]))
    lead = ("time",) if moving else ()
    ctx.same("dims t", ds[ln].dims, lead + ("cartesian_axis",))
    ctx.same("dims r", ds[an].dims, lead + ("quaternion_axis",))
    ctx.eq("values t", ds[ln].data, t)
    ctx.eq("values r", ds[an].data, q)
    ctx.same("axis labels", list(ds.cartesian_axis.values), ["x", "y", "z"])
    ctx.same("quaternion labels", list(ds.quaternion_axis.values),
             ["w", "x", "y", "z"])
    if moving:
        ctx.same("times", list(ds.time.values), [0.5, 2.0])
    for v in (ln, an):
        ctx.same("ref attr", ds[v].attrs["reference_frame"], ref)
        ctx.same("rep attr", ds[v].attrs["representation_frame"], ref)
        ctx.same("motion type", ds[v].attrs["motion_type"], v)


# ---------------------------------------------------------------- A04
@case("A04", bounds="one static or 2-sample frame by each constructor, "
                    "forward and inverse, discrete or not")
def constructors_agree(ctx):
    import xarray as xr

    r = ctx.rbm
    RF = r.ReferenceFrame
    w = RF("w")
    inv = ctx.choose("inverse", [False, True])
    how = ctx.choose("how", ["dataset", "translation", "rotation",
                             "defaults_t", "defaults_q", "defaults"])
    disc = ctx.choose("discrete", [False, True])
    moving = how in ("dataset", "translation", "rotation") or ctx.choose(
        "moving", [False, True])
    ts = _np.array([1.0, 3.0]) if moving else None
    if disc and not moving:
        ctx.assume(False)
    lead = (2,) if moving else ()
    t = ctx.array(ctx.block("t", lead + (3,)))
    q = ctx.array(ctx.units("q", 2)) if moving else ctx.array(ctx.unit("q"))
    t0 = _np.zeros(lead + (3,))
    q0 = _np.zeros(lead + (4,))
    q0[..., 0] = 1.0
    kw = dict(inverse=inv, discrete=disc)
    if how == "dataset":
        # several candidate variables: only the named ones count
        ds = xr.Dataset(
            {"pos": (("time", "c"), t), "ori": (("time", "q"), q),
             "other": (("time", "c"), _np.ones((2, 3)))},
            {"time": ts})
        f = RF.from_dataset(ds, "pos", "ori", "time", w, "f", **kw)
        g = RF("g", w, t, q, ts, **kw)
    elif how == "translation":
        da = xr.DataArray(t, {"time": ts}, ("time", "c"))
        f = RF.from_translation_dataarray(da, "time", w, "f", **kw)
        g = RF("g", w, t, q0, ts, **kw)
    elif how == "rotation":
        da = xr.DataArray(q, {"time": ts}, ("time", "c"))
        f = RF.from_rotation_dataarray(da, "time", w, "f", **kw)
        g = RF("g", w, t0, q, ts, **kw)
    elif how == "defaults_t":
        f = RF("f", w, rotation=q, timestamps=ts, **kw)
        g = RF("g", w, t0, q, ts, **kw)
    elif how == "defaults_q":
        f = RF("f", w, translation=t, timestamps=ts, **kw)
        g = RF("g", w, t, q0, ts, **kw)
    else:
        f = RF("f", w, timestamps=ts, **kw)
        g = RF("g", w, t0, q0, ts, **kw)
    ctx.same("name", f.name, "f")
    ctx.check("parent", f.parent is w)
    ctx.same("discrete", bool(f.discrete), disc)
    for a, b in ((f, g), (g, f)):
        ta, ra, sa = a.lookup_transform(w)
        tb, rb, sb = b.lookup_transform(w)
        ctx.eq("translation", ta, tb)
        ctx.eq("rotation", ra, rb)
        ctx.same("timestamps", None if sa is None else list(sa),
                 None if sb is None else list(sb))
    # and the given values are the transform
    t_, q_ = [ctx.nested(x) for x in (g.translation, g.rotation)]
    if how == "dataset":
        tl, ql = ctx.nested(t), ctx.nested(q)
        for i in range(2):
            tr = (tl[i], ql[i])
            if inv:
                tr = O.inverse(tr)
            ctx.eq(f"stored t{i}", f.lookup_transform(w)[0][i], tr[0])
            ctx.eq(f"stored q{i}", f.lookup_transform(w)[1][i], tr[1])


@case("A04", params=[dict(n=n) for n in (2, 3, 4)],
      bounds="labelled arrays and datasets of 2-4 samples with time as first "
             "or last dimension, timestamps in the index or another "
             "coordinate")
def labelled_layout(ctx, n):
    import xarray as xr

    r = ctx.rbm
    RF = r.ReferenceFrame
    w = RF("w")
    t, q = ctx.mat("t", n, 3), ctx.units("q", n)
    ts = _np.array([1.0, 3.0, 4.0, 8.0][:n])
    how = ctx.choose("how", ["dataset", "translation", "rotation"])
    stamps = ctx.choose("stamps", ["time", "stamp"])
    coords = {"time": ts} if stamps == "time" else {
        "time": _np.arange(n) * 1.0, "stamp": ("time", ts)}

    def var(name, rows, ax):
        if ctx.choose("last " + name, [False, True]):
            return (ax, "time"), ctx.array([list(c) for c in zip(*rows)])
        return ("time", ax), ctx.array(rows)

    if how == "dataset":
        ds = xr.Dataset({"a": var("t", t, "c"), "b": var("q", q, "q")},
                        coords)
        f = RF.from_dataset(ds, "a", "b", stamps, w, "f")
    elif how == "translation":
        dims, x = var("t", t, "c")
        f = RF.from_translation_dataarray(
            xr.DataArray(x, coords, dims), stamps, w, "f")
        q = [[1, 0, 0, 0]] * n
    else:
        dims, x = var("q", q, "q")
        f = RF.from_rotation_dataarray(
            xr.DataArray(x, coords, dims), stamps, w, "f")
        t = [[0, 0, 0]] * n
    a, b, s = f.lookup_transform(w)
    ctx.same("timestamps", [float(x) for x in s], ts.tolist())
    ctx.eq("translation", a, t)
    ctx.eq("rotation", b, q)


@case("A04", bounds="all proper rotation matrices, forward and inverse")
def from_rotation_matrix(ctx):
    r = ctx.rbm
    RF = r.ReferenceFrame
    w = RF("w")
    q = ctx.unit("q")
    if ctx.sym:
        ctx.eng.notes["rot_known"] = [q]
    m = ctx.array(O.rotm(q))
    inv = ctx.choose("inverse", [False, True])
    f = RF.from_rotation_matrix(m, w, "f", inverse=inv)
    v = ctx.vec3("v")
    out = f.transform_vectors(ctx.array(v), w)
    ctx.eq("rotates like the matrix", out,
           O.rot(O.qconj(q) if inv else q, v))
    p = f.transform_points(ctx.array(v), w)
    ctx.eq("no translation", p, O.rot(O.qconj(q) if inv else q, v))
    ctx.same("static", f.timestamps, None)


@case("A04", bounds="wrong shapes by +-1 or an extra axis, each argument")
def rejected_arguments(ctx):
    r = ctx.rbm
    RF = r.ReferenceFrame
    w = RF("w")
    r.register_frame("w2")
    via = ctx.choose("via", ["ctor", "register"])

    def make(**kw):
        if via == "ctor":
            return RF("f", **kw)
        return r.register_frame("f", **kw)

    what = ctx.choose("what", [
        "root_t", "root_r", "root_ts", "t_shape", "t_shape_long", "t_2d",
        "r_shape", "r_3", "r_2d", "ts_2d", "t_len", "r_len", "t_len1",
        "static_disc", "unknown_parent", "matrix"])
    par = w if via == "ctor" else "w2"
    t = ctx.array(ctx.vec3("t"))
    q = ctx.array(ctx.unit("q"))
    t2 = ctx.array(ctx.mat("t", 2, 3))
    q2 = ctx.array(ctx.units("q", 2))
    ts = _np.array([0.0, 1.0])
    kw = {
        "root_t": dict(translation=t),
        "root_r": dict(rotation=q),
        "root_ts": dict(timestamps=ts),
        "t_shape": dict(parent=par, translation=t[:2]),
        "t_shape_long": dict(parent=par, translation=q),
        "t_2d": dict(parent=par, translation=t2),
        "r_shape": dict(parent=par, rotation=q[:3]),
        "r_3": dict(parent=par, rotation=t),
        "r_2d": dict(parent=par, rotation=q2),
        "ts_2d": dict(parent=par, translation=t2, timestamps=ts[:, None]),
        "t_len": dict(parent=par, translation=t2,
                      timestamps=_np.array([0.0, 1.0, 2.0])),
        "r_len": dict(parent=par, rotation=q2,
                      timestamps=_np.array([0.0, 1.0, 2.0])),
        "t_len1": dict(parent=par, translation=t, timestamps=ts),
        "static_disc": dict(parent=par, translation=t, discrete=True),
        "unknown_parent": dict(parent="nowhere"),
    }
    if what == "matrix":
        ctx.raises("matrix shape", ValueError,
                   lambda: RF.from_rotation_matrix(
                       ctx.array(ctx.mat("m", 3, 2)), w, "f"))
        return
    ctx.raises(what, ValueError, lambda: make(**kw[what]))
    ctx.check("nothing registered", "f" not in r.registry)


@case("A04", bounds="frames of 1-3 times: translations and rotations of 0-4 "
      "samples and 2-5 components, static ones included, and every number "
      "of dimensions up to 3: accepted if and only if they fit")
def fitting_arguments(ctx):
    r = ctx.rbm
    r.register_frame("w")
    n = ctx.choose("n", [None, 1, 2, 3])
    name = ctx.choose("given", ["translation", "rotation"])
    d = 3 if name == "translation" else 4
    shp = ctx.choose("shape", [(c,) for c in (0, 1, 2, 3, 4, 5)]
                     + [(k, c) for k in (0, 1, 2, 3, 4) for c in (1, d)]
                     + [(3, 5), (1, 3, d), (3, 1, d), (1, 1, d)])
    x = _np.zeros(shp)
    if d == 4 and shp and shp[-1]:
        x[..., 0] = 1.0
    kw = {name: x, "discrete": bool(n) and ctx.choose("disc", [False, True])}
    if n:
        kw["timestamps"] = _np.arange(float(n))
    if ctx.choose("other", [False, True]):
        kw.update({"rotation": _np.tile([1.0, 0, 0, 0], (n, 1)) if n
                   else _np.array([1.0, 0, 0, 0])} if d == 3 else
                  {"translation": _np.zeros((n, 3) if n else 3)})
    if ctx.choose("inverse", [False, True]):
        kw["inverse"] = True
    if shp == ((n, d) if n else (d,)):
        got, v = ctx.outcome(lambda: r.register_frame("f", parent="w", **kw))
        ctx.same("accepted", got, "ok")
        ctx.check("registered", "f" in r.registry)
    else:
        ctx.raises("refused", ValueError,
                   lambda: r.register_frame("f", parent="w", **kw))
        ctx.check("nothing registered", "f" not in r.registry)


@case("A03", bounds="the older name of the lookup method, every ordered pair "
      "of 3 frames, by name and object")
def older_lookup(ctx):
    import warnings

    r, _ = build(ctx, TREES["chain"], ctx.choose("inv", [(), ("a",)]))
    a = ctx.choose("from", "wab")
    b = ctx.choose("to", "wab")
    want = r.lookup_transform(a, b)
    for to in (b, r.registry[b]):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            got = r.registry[a].get_transformation(to)
        ctx.eq("translation", got[0], ctx.nested(want[0]))
        ctx.eq("rotation", got[1], ctx.nested(want[1]))


# the tree w - a (moving) - b (static), w - e (events), e - c (moving)
TIMED = [("w", None), ("a", "w"), ("b", "a"), ("e", "w"), ("c", "e")]
TIMED_SPANS = dict(a=(0, 4), c=(-1, 3))


# calendar times, frames given inversely, free rotations, data's times
SETTINGS = [(False, (), "a", 0), (True, ("a", "e"), "c", 1),
            (False, ("a", "e"), "e", 1), (True, (), "b", 0)]
EVERY = [(c, i, f, g) for c in (False, True) for i in ((), ("a", "e"))
         for f in "abce" for g in (0, 1)]
TIMED_CASES = [dict(kind=k, every=i) for k in METHODS for i in range(4)] + [
    dict(kind=k, every="all", _tier="thorough") for k in METHODS]
TURNS = [[.5, .5, -.5, .5], [.5, -.5, .5, .5], [0, 1, 0, 0],
         [.5, .5, .5, .5], [0, 0, 0, 1]]


def timed_tree(ctx, kind, every, grids):
    """Register it; returns the data's timestamps."""
    r = ctx.rbm
    cal, inverse, free, g = ctx.choose(
        "setting", EVERY if every == "all" else
        SETTINGS if every is None else [SETTINGS[every]])
    if kind == "quaternions":
        free = "abce"

    def rotations(name, n):
        if name in free:
            return ctx.units("q" + name, n)
        return [ctx.exact(TURNS[(ord(name) + i) % 5]) for i in range(n)]

    def at(values):
        a = _np.array(values)
        if cal:
            return (a * 1000).astype("timedelta64[ms]") \
                + _np.datetime64("2020-01-01", "ns")
        return a.astype(float)

    def moving(name, parent, times, **kw):
        n = len(times)
        r.register_frame(name, parent, ctx.array(ctx.mat("t" + name, n, 3)),
                         ctx.array(rotations(name, n)),
                         timestamps=at(times), inverse=name in inverse, **kw)

    r.register_frame("w")
    moving("a", "w", [0, 2, 4])
    r.register_frame("b", "a", ctx.array(ctx.vec3("tb")),
                     ctx.array(rotations("b", 1)[0]))
    moving("e", "w", [1, 2], discrete=True)
    moving("c", "e", [-1, 3])
    return at(grids[g])


@case("A01", params=TIMED_CASES,
      bounds="moving trees: 5 frames (static, event-like, two moving with 2-3 "
             "samples), every ordered triple, data at 3 times on and off the "
             "frames' samples, some outside of their spans, calendar or float "
             "times")
def timed_composition(ctx, kind, every):
    r = ctx.rbm
    times = timed_tree(ctx, kind, every, [[0, 1.5, 2], [-0.5, 0.5, 3.5]])
    names = [n for n, _ in TIMED]
    src = ctx.choose("src", names)
    dst = ctx.choose("dst", [n for n in names if n != src])
    via = ctx.choose("via", [n for n in names if n not in (src, dst)])
    p = data(ctx, kind, n=len(times)) if kind != "quaternions" \
        else ctx.array(ctx.units("p", len(times)))
    f = tf(r, kind)
    d, td = f(p, into=dst, outof=src, timestamps=times,
              return_timestamps=True)
    h, th = f(p, into=via, outof=src, timestamps=times,
              return_timestamps=True)
    ctx.eq("nothing lost on the way", len(h), len(th))
    s, ts = f(h, into=dst, outof=via, timestamps=th, return_timestamps=True)
    td, ts = list(td), list(ts)
    both = [t for t in td if t in ts]
    ctx.check("direct keeps what stepwise keeps", both == ts)
    for t in both:
        ctx.eq("direct equals stepwise", d[td.index(t)], s[ts.index(t)])


@case("A01", params=[dict(kind=k) for k in METHODS],
      bounds="moving trees: data with no samples at all or none in the span "
             "of a frame, every ordered triple (rotations within one frame "
             "excepted)")
def nothing_in_common(ctx, kind):
    r = ctx.rbm
    timed_tree(ctx, kind, 0, [[], []])
    r.register_frame("late", "b", ctx.array(ctx.mat("l", 2, 3)),
                     timestamps=r.registry["a"].timestamps[:2]
                     + 100 * (r.registry["a"].timestamps[1]
                              - r.registry["a"].timestamps[0]))
    old = r.registry["a"].timestamps
    times = ctx.choose("times", [old[:0], old])
    names = [n for n, _ in TIMED]
    src = ctx.choose("src", names)
    via = "late" if len(times) else ctx.choose(
        "via", [n for n in names if n != src])
    dst = ctx.choose("dst", [n for n in names + ["late"] if n != via])
    n = len(times)
    d = 4 if kind == "quaternions" else 3
    p = ctx.array(ctx.block("p", (n, d))) if n else _np.zeros((0, d))
    f = tf(r, kind)
    h, th = f(p, into=via, outof=src, timestamps=times,
              return_timestamps=True)
    ctx.shape("nothing in common", h, (0, d))
    ctx.shape("no times in common", th, (0,))
    s, ts = f(h, into=dst, outof=via, timestamps=th, return_timestamps=True)
    ctx.shape("nothing left", s, (0, d))
    ctx.shape("no times left", ts, (0,))


@case("A02", params=TIMED_CASES,
      bounds="moving trees: 5 frames (static, event-like, two moving with 2-3 "
             "samples), every ordered pair, data at 3 times on and off the "
             "frames' samples, calendar or float times")
def timed_round_trip(ctx, kind, every):
    r = ctx.rbm
    times = timed_tree(ctx, kind, every, [[0, 1.5, 2], [0.5, 1, 3]])
    names = [n for n, _ in TIMED]
    src = ctx.choose("src", names)
    dst = ctx.choose("dst", [n for n in names if n != src])
    p = data(ctx, kind, n=len(times)) if kind != "quaternions" \
        else ctx.array(ctx.units("p", len(times)))
    f = tf(r, kind)
    h, th = f(p, into=dst, outof=src, timestamps=times,
              return_timestamps=True)
    ctx.same("all times", list(th), list(times))
    back, tb = f(h, into=src, outof=dst, timestamps=th,
                 return_timestamps=True)
    ctx.same("all times back", list(tb), list(times))
    ctx.eq("there and back", back, p)


@case("A02", params=[dict(kind=k) for k in METHODS],
      bounds="within each frame of the moving trees, data at 3 times on, off "
             "and outside of the frame's samples and data without times")
def timed_identity(ctx, kind):
    r = ctx.rbm
    times = timed_tree(ctx, kind, 0, [[-2, 1.5, 4], [0, 2, 9]])
    name = ctx.choose("frame", [n for n, _ in TIMED])
    frame = ctx.choose("given as", [name, r.reference_frames._registry[name]])
    p = data(ctx, kind, n=len(times)) if kind != "quaternions" \
        else ctx.array(ctx.units("p", len(times)))
    f = tf(r, kind)
    d, td = f(p, into=name, outof=frame, timestamps=times,
              return_timestamps=True)
    ctx.same("times", list(td), list(times))
    ctx.eq("same frame", d, p)
    d, td = f(p, into=frame, outof=name, return_timestamps=True)
    ctx.same("no times", td, None)
    ctx.eq("same frame, no times", d, p)
    t, q, ts = r.lookup_transform(frame, name, return_timestamps=True)
    ctx.same("lookup without times", ts, None)
    ctx.eq("lookup translation", t, [0, 0, 0])
    ctx.eq("lookup rotation", q, [1, 0, 0, 0])


@case("A02", params=[dict(every=None), dict(every="all", _tier="thorough")],
      bounds="lookups in both directions through moving trees of 5 "
                    "frames, at the times both report")
def timed_lookup_inverse(ctx, every):
    r = ctx.rbm
    timed_tree(ctx, "lookup", every, [[], []])
    names = [n for n, _ in TIMED]
    src = ctx.choose("src", names)
    dst = ctx.choose("dst", [n for n in names if n != src])
    t1, q1, s1 = r.lookup_transform(src, dst, return_timestamps=True)
    t2, q2, s2 = r.lookup_transform(dst, src, return_timestamps=True)
    if s1 is None:
        ctx.same("static both ways", s2, None)
        pairs = [(t1, q1, t2, q2)]
    else:
        s1, s2 = list(s1), list(s2)
        pairs = [(t1[s1.index(t)], q1[s1.index(t)],
                  t2[s2.index(t)], q2[s2.index(t)])
                 for t in s1 if t in s2]
    for a, b, c, d in pairs:
        a, b = ctx.nested(a), ctx.nested(b)
        ctx.eq("rotations are conjugate", d, O.qconj(b))
        ctx.eq("translation of the inverse", c,
               O.neg(O.rot(O.qconj(b), a)))


@case("A03", params=TIMED_CASES,
      bounds="moving trees: 5 frames (static, event-like, two moving with 2-3 "
             "samples), every ordered pair, data on the timestamps of the "
             "lookup, names or objects")
def timed_agrees_with_lookup(ctx, kind, every):
    r = ctx.rbm
    timed_tree(ctx, kind, every, [[], []])
    names = [n for n, _ in TIMED]
    src = ctx.choose("src", names)
    dst = ctx.choose("dst", [n for n in names if n != src])
    if ctx.choose("objects", [False, True]):
        src, dst = r.registry[src], r.registry[dst]
    look = ctx.choose("lookup", ["lookup_transform", "lookup_pose"])
    t, q, ts = getattr(r, look)(src, dst, return_timestamps=True)
    if ts is None:
        return
    n = len(ts)
    p = data(ctx, kind, n=n) if kind != "quaternions" \
        else ctx.array(ctx.units("p", n))
    out, to = tf(r, kind)(p, into=dst, outof=src, timestamps=ts,
                          return_timestamps=True)
    ctx.same("times", list(to), list(ts))
    for i in range(n):
        ctx.eq("the looked-up motion", out[i],
               apply(kind, (ctx.nested(t[i]), ctx.nested(q[i])),
                     ctx.nested(p[i])))


# ---------------------------------------------------------------- long paths
def branches(ctx, lengths, free, inverse):
    """Register chains below one root; returns {name: steps to the root}.

    All translations are symbolic, and so is the rotation of the frame
    `free`; the others are turned by one of the axis-permuting rotations.
    """
    r = ctx.rbm
    r.register_frame("root")
    steps = {"root": []}
    for b, n in enumerate(lengths):
        parent = "root"
        for i in range(n):
            name = "%s%d" % ("xyz"[b], i)
            t = ctx.vec3("t" + name)
            q = ctx.unit("q" + name) if name == free else \
                ctx.exact(TURNS[(b + i) % 5])
            inv = name in inverse
            r.register_frame(name, parent, ctx.array(t), ctx.array(q),
                             inverse=inv)
            steps[name] = [O.inverse((t, q)) if inv else (t, q)] \
                + steps[parent]
            parent = name
    return steps


LONG = [((8, 5), "x2", ("x1", "y3")), ((6, 7), "y6", ("y0", "x5")),
        ((3, 9), "x0", ("y8",)), ((4, 4, 4), "y1", ())]
LONG_CASES = [dict(kind=k, i=i) for k in METHODS for i in range(len(LONG))]


@case("A01", params=LONG_CASES,
      bounds="long paths: branches of 3 to 9 frames each below one root, "
             "all translations and one rotation symbolic, two frames given "
             "inversely; from the end of each branch to the root and to the "
             "others, through five frames on and off the path")
def long_paths(ctx, kind, i):
    lengths, free, inverse = LONG[i]
    branches(ctx, lengths, free, inverse)
    ends = ["root"] + ["%s%d" % ("xyz"[b], n - 1)
                       for b, n in enumerate(lengths)]
    src = ctx.choose("src", ends)
    dst = ctx.choose("dst", [e for e in ends if e != src])
    via = ctx.choose("via", [v for v in ("root", "x0", "x2", "y2", "y1")
                             if v not in (src, dst)])
    p = data(ctx, kind)
    f = tf(ctx.rbm, kind)
    d = f(p, into=dst, outof=src)
    s = f(f(p, into=via, outof=src), into=dst, outof=via)
    ctx.eq("direct equals stepwise", d, s)


@case("A02", params=LONG_CASES,
      bounds="long paths: branches of 3 to 9 frames each below one root, "
             "all translations and one rotation symbolic, both directions "
             "between the ends, the root and the middle")
def long_round_trips(ctx, kind, i):
    lengths, free, inverse = LONG[i]
    branches(ctx, lengths, free, inverse)
    src = ctx.choose("src", ["x%d" % (lengths[0] - 1), "x1", "root"])
    dst = ctx.choose("dst", ["y%d" % (lengths[1] - 1), "y1", "x0"])
    p = data(ctx, kind)
    f = tf(ctx.rbm, kind)
    ctx.eq("there and back",
           f(f(p, into=dst, outof=src), into=src, outof=dst), p)


@case("A03", params=LONG_CASES,
      bounds="long paths: branches of 3 to 9 frames each below one root, "
             "all translations and one rotation symbolic: every pair of 7 "
             "frames against the formula by hand")
def long_formula(ctx, kind, i):
    lengths, free, inverse = LONG[i]
    steps = branches(ctx, lengths, free, inverse)
    frames = ["root", "x0", "x2", "x%d" % (lengths[0] - 1), "y1", "y2",
              "y%d" % (lengths[1] - 1)]
    src = ctx.choose("src", frames)
    dst = ctx.choose("dst", [f for f in frames if f != src])
    x = ctx.nested(data(ctx, kind))
    got = tf(ctx.rbm, kind)(ctx.array(x), into=dst, outof=src)
    up, down = list(steps[src]), list(steps[dst])
    while up and down and up[-1] is down[-1]:
        up.pop()
        down.pop()
    tr = path_of(up + [O.inverse(s) for s in down[::-1]])
    ctx.eq("formula", got, apply(kind, tr, x))
    t, q = ctx.rbm.lookup_transform(src, dst)
    ctx.eq("looked-up translation", t, tr[0])
    ctx.eq("looked-up rotation", q, tr[1])


def path_of(steps):
    tr = O.IDENT
    for s in steps:
        tr = O.compose(s, tr)
    return tr


@case("A03", params=[dict(kind=k, n=n)
                     for k in METHODS for n in (17, 130, 1030, 4100)],
      bounds="arrays of 17 to 4100 entries, "
             "three of which symbolic and the others fixed, below a static "
             "frame with any transform; the array as rows, as blocks and "
             "with its components first")
def large_arrays(ctx, kind, n):
    r = ctx.rbm
    tr = ctx.vec3("t"), ctx.unit("q")
    r.register_frame("w")
    r.register_frame("a", "w", ctx.array(tr[0]), ctx.array(tr[1]))
    d = 4 if kind == "quaternions" else 3
    rows = [ctx.exact([(i * (k + 3)) % 7 - 3 for k in range(d)])
            for i in range(n)]
    for i in (0, n // 2, n - 1):
        rows[i] = ctx.reals("p%d" % i, d)
    up = ctx.choose("up", [True, False])
    how = ctx.choose("layout", ["rows", "blocks", "first"])
    a = ctx.array(rows)
    if how == "blocks" and n % 2 == 0:
        a = a.reshape((2, n // 2, d))
    if how == "first":
        a = a.swapaxes(0, 1)
    src, dst = ("a", "w") if up else ("w", "a")
    out = tf(r, kind)(a, into=dst, outof=src,
                      **(dict(axis=0) if how == "first" else {}))
    if not up:
        tr = O.inverse(tr)
    ctx.shape("as given", out, a.shape)
    if how == "first":
        out = out.swapaxes(0, 1)
    out = out.reshape((n, d))
    for i in sorted({0, 1, n // 3, n // 2, n - 2, n - 1}):
        ctx.eq("formula at %d" % i, out[i], apply(kind, tr, rows[i]))
    for i in range(n):
        if n <= 130:
            ctx.eq("formula", out[i], apply(kind, tr, rows[i]))
