"""I: labelled arrays and their metadata; arguments stay untouched."""
import itertools
import warnings

import numpy as _np

from sx import oracle as O
from sx.props.a_tree import apply, tf
from sx.props.t_time import moving, static
from sx.runner import case

KINDS = ("points", "vectors", "quaternions")
SPAT = {3: ["x", "y", "z"], 4: ["w", "x", "y", "z"]}
TIMES = _np.array([0.0, 1.0, 2.5])


def frames(ctx, frame):
    """Register w and S (static, moving or event-like)."""
    r = ctx.rbm
    r.register_frame("w")
    if frame == "static":
        static(ctx, "S", "w")
    elif frame == "same":
        moving(ctx, "S", TIMES.copy(), "w")
    elif frame == "head":
        moving(ctx, "S", _np.array([-1.0, 0.0, 1.0]), "w")
    elif frame == "tail":
        moving(ctx, "S", _np.array([0.5, 1.0, 2.5, 4.0]), "w")
    elif frame == "beyond":
        moving(ctx, "S", _np.array([10.0, 11.0, 12.0]), "w")
    else:
        moving(ctx, "S", _np.array([1.0, 5.0]), "w", discrete=True)


def labels(d, tname, dims, extra):
    """Coordinates of a labelled array with these dimensions."""
    c = {}
    if "q" in dims:
        c["q"] = SPAT[d]
    if tname in dims:
        c[tname] = TIMES.copy()
        if extra:
            c["val"] = (tname, _np.array([3.0, 1.0, 7.0]))
            c["label"] = (tname, ["u", "v", "w"])
            c["num"] = (tname, _np.array([5, 3, 4]))
            c["flag"] = (tname, _np.array([True, False, True]))
            c["day"] = (tname, DAYS)
            c["made"] = (tname, _np.array(["u", None, 3], dtype=object))
    if "n" in dims and extra:
        c["n"] = [10, 20]
        c["side"] = ("n", ["l", "r"])
    if extra:
        c["scalar"] = 3.5
        c["part"] = ("q", list(range(d)))
        if tname in dims:
            # one value for each component of each sample
            c["sigma"] = ((tname, "q"), _np.arange(3. * d).reshape(3, d))
        if tname in dims and "n" in dims:
            c["both"] = ((tname, "n"), _np.arange(6.0).reshape(3, 2))
    return c


DAYS = _np.array(["2020-01-03", "2019-12-31", "2021-06-01"], "M8[ns]")
EXPECT = {"flag": [True, False, True], "day": DAYS, "made": ["u", None, 3],
          "val": [3.0, 1.0, 7.0], "label": ["u", "v", "w"],
          "num": [5, 3, 4], "both": [[0, 1], [2, 3], [4, 5]]}


@case("I02", params=[dict(kind=k, nd=n, frame=f) for k in KINDS
                     for n in (2, 3)
                     for f in ("static", "same", "head", "tail", "events",
                               "beyond")],
      bounds="labelled arrays of 2-3 dimensions (3 times, 2 further "
             "entries), every dimension order, two names of the time "
             "dimension, spatial dimension by name, axis or default, with "
             "and without numeric, text, boolean, calendar, object, scalar and "
             "multi-dimensional extra "
             "coordinates; static, event-like and moving frames that cover "
             "all, the head, the tail or nothing of the data")
def timed_labels(ctx, kind, nd, frame):
    import xarray as xr

    r = ctx.rbm
    frames(ctx, frame)
    tname = ctx.choose("tname", ["time", "stamp"])
    d = 4 if kind == "quaternions" else 3
    dims = ctx.choose("dims", list(itertools.permutations(
        ["q", tname] + ["n"] * (nd - 2))))
    ax, tax = dims.index("q"), dims.index(tname)
    size = {"q": d, tname: 3, "n": 2}
    vals = ctx.block("p", tuple(size[x] for x in dims))
    extra = ctx.choose("extra", [False, True])
    co = labels(d, tname, dims, extra)
    da = xr.DataArray(ctx.array(vals), co, dims, name="thing")
    kw = {}
    how = ctx.choose("how", ["dim", "axis", "neg"]
                     + (["default"] if ax == nd - 1 else []))
    if how == "dim":
        kw["dim"] = "q"
    elif how != "default":
        kw["axis"] = ax - (nd if how == "neg" else 0)
    when = ctx.choose("when", ["name"] + (["default"] if tax == 0 else [])
                      + ["axis"])
    if when == "name":
        kw["timestamps"] = tname
    elif when == "axis":
        kw["time_axis"] = tax
    src, dst = ctx.choose("dir", [("S", "w"), ("w", "S")])
    out = tf(r, kind)(da, into=dst, outof=src, **kw)
    num, ts = tf(r, kind)(
        ctx.array(vals), into=dst, outof=src, axis=ax, time_axis=tax,
        timestamps=TIMES.copy(), return_timestamps=True)
    ts = [float(t) for t in ts]
    ctx.check("is labelled", isinstance(out, xr.DataArray))
    ctx.eq("numbers", out.data, num)
    ctx.same("dimensions", tuple(out.dims), tuple(dims))
    ctx.same("name", out.name, "thing")
    ctx.same("coordinates", set(out.coords), set(co))
    ctx.same("timestamps", [float(t) for t in out.coords[tname].values], ts)
    ctx.same("axis labels", list(out.coords["q"].values), SPAT[d])
    if extra:
        keep = [list(TIMES).index(t) for t in ts]
        expect = dict(EXPECT, sigma=_np.arange(3. * d).reshape(3, d).tolist())
        for k in expect:
            if k in co:
                e = _np.array(expect[k], dtype=None if k != "made"
                              else object)[keep]
                g = out.coords[k]
                if k in ("flag", "day", "made", "label"):
                    ctx.same(k + " type", g.dtype.kind, e.dtype.kind)
                ctx.same(k + " dimensions", g.dims, da.coords[k].dims)
                ctx.same(k, g.values.tolist(), e.tolist())
        ctx.same("scalar", float(out.coords["scalar"]), 3.5)
        ctx.same("part", list(out.coords["part"].values), list(range(d)))
        if "n" in dims:
            ctx.same("n", list(out.coords["n"].values), [10, 20])
            ctx.same("side", list(out.coords["side"].values), ["l", "r"])


@case("I02", params=[dict(kind=k, frame=f) for k in KINDS
                     for f in ("static", "head", "events")],
      bounds="labelled arrays of up to 3 dimensions without time "
             "(timestamps=False) through static, moving and event-like "
             "frames, every dimension order")
def untimed_labels(ctx, kind, frame):
    import xarray as xr

    r = ctx.rbm
    frames(ctx, frame)
    d = 4 if kind == "quaternions" else 3
    nd = ctx.choose("nd", [1, 2, 3])
    dims = ctx.choose("dims", list(itertools.permutations(
        ["q"] + ["n", "m"][:nd - 1])))
    ax = dims.index("q")
    size = {"q": d, "n": 2, "m": 3}
    vals = ctx.block("p", tuple(size[x] for x in dims))
    extra = ctx.choose("extra", [False, True])
    co = {"q": SPAT[d]}
    if extra:
        co["part"] = ("q", list(range(d)))
        co["scalar"] = 3.5
        if "n" in dims:
            co["n"] = [10, 20]
    da = xr.DataArray(ctx.array(vals), co, dims, name="thing")
    kw = {}
    if nd > 1:
        kw["timestamps"] = False
    how = ctx.choose("how", ["dim", "axis"]
                     + (["default"] if ax == nd - 1 else []))
    if how == "dim":
        kw["dim"] = "q"
    elif how == "axis":
        kw["axis"] = ax
    src, dst = ctx.choose("dir", [("S", "w"), ("w", "S")])
    out = tf(r, kind)(da, into=dst, outof=src, **kw)
    num, ts = tf(r, kind)(ctx.array(vals), into=dst, outof=src, axis=ax,
                          return_timestamps=True)
    ctx.eq("numbers", out.data, num)
    new = ("time",) if ts is not None else ()
    ctx.same("dimensions", tuple(out.dims), new + tuple(dims))
    ctx.same("name", out.name, "thing")
    ctx.same("coordinates", set(out.coords), set(co) | set(new))
    ctx.same("axis labels", list(out.coords["q"].values), SPAT[d])
    if new:
        ctx.same("timestamps", out.coords["time"].values.tolist(),
                 [float(t) for t in ts])
    if extra and "n" in dims:
        ctx.same("n", list(out.coords["n"].values), [10, 20])


# ---------------------------------------------------------------- I03
CALLS = [
    ("transform_points", "reference_frame", {}),
    ("transform_vectors", "representation_frame", {}),
    ("transform_quaternions", "reference_frame", {}),
] + [("transform_angular_velocity", w, {"what": w}) for w in
     ("reference_frame", "moving_frame", "representation_frame")] + [
    ("transform_linear_velocity", "reference_frame",
     {"what": "reference_frame", "moving_frame": "w"}),
    ("transform_linear_velocity", "moving_frame",
     {"what": "moving_frame", "reference_frame": "w"}),
    ("transform_linear_velocity", "representation_frame",
     {"what": "representation_frame"}),
]
FRAMES = ("representation_frame", "reference_frame", "moving_frame")


def named_tree(ctx):
    """w with static children under two symbolic, different names."""
    r = ctx.rbm
    n = [ctx.name("first"), ctx.name("second")]
    ctx.assume(ctx.name_differs(n[0], n[1]))
    r.register_frame("w")
    for x, k in zip(n, "ST"):
        r.register_frame(x, "w", ctx.array(ctx.vec3("t" + k)),
                         ctx.array(ctx.unit("q" + k)))
    return n


@case("I03", params=[dict(call=i) for i in range(len(CALLS))],
      bounds="all labelled-array transforms; the recorded frames are "
             "arbitrary names, each present or not; the source frame given "
             "by name, as object or omitted; one vector, or two timestamps")
def metadata(ctx, call):
    import xarray as xr

    r = ctx.rbm
    fn, what, kw = CALLS[call]
    n = named_tree(ctx)
    d = 4 if fn == "transform_quaternions" else 3
    attrs = {"units": "m", "note": "x"}
    rec = ctx.name("recorded")
    have = ctx.choose("recorded", ["none", "same", "all"])
    if have != "none":
        attrs[what] = rec
    if have == "all":
        for k in FRAMES:
            if k != what:
                attrs[k] = "other"
    timed = ctx.choose("timed", [False, True])
    if timed:
        da = xr.DataArray(ctx.array(ctx.mat("p", 2, d)),
                          {"time": [0.0, 1.0]}, ("time", "q"), attrs=attrs)
    else:
        da = xr.DataArray(ctx.array(ctx.reals("p", d)), dims="q",
                          attrs=attrs)
    given = ctx.choose("given", [None, "name", "object"])
    into = ctx.choose("into", ["name", "object"])
    outof = {None: None, "name": n[0], "object": None}[given]
    if given == "object":
        outof = r.registry[n[0]]
    dst = n[1] if into == "name" else r.registry[n[1]]
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        kind, out = ctx.outcome(getattr(r, fn), da, dst, outof, **kw)
    told = any("You are transforming" in str(w.message) for w in caught)
    ctx.same("attributes of the argument", dict(da.attrs), attrs)
    if given is None:
        # out of the recorded frame, which must exist
        src = None
        if have != "none":
            for x in n + ["w"]:
                if rec == x:
                    src = x
                    break
        if src is None:
            ctx.check("refused without source",
                      kind == "err" and isinstance(out, ValueError))
            return
        ctx.check("no warning", not told)
    else:
        src = n[0]
        differ = have != "none" and not (rec == n[0])
        ctx.check("warning only if frames differ", told == differ)
    ctx.check("transformed", kind == "ok")
    if kind != "ok":
        return
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        num = getattr(r, fn)(da.data, n[1], src, timestamps=_np.array(
            [0.0, 1.0]) if timed else None, **kw)
    ctx.eq("out of the right frame", out.data, num)
    want = dict(attrs)
    want[what] = want["representation_frame"] = n[1]
    ctx.check("metadata keys", set(out.attrs) == set(want))
    for k in want:
        ctx.check("metadata " + k, bool(out.attrs.get(k) == want[k]))


ALIKE = [("head", "head_left"), ("head_left", "head"), ("head", "ahead"),
         ("head", "Head"), ("/head", "head"), ("head", "head "),
         ("head", "head"), ("h", "head"), ("head", "")]


@case("I03", params=[dict(call=i) for i in range(len(CALLS))],
      bounds="recorded and given names that are spelled alike (prefixes, "
             "case, slashes, blanks)")
def similar_names(ctx, call):
    import xarray as xr

    r = ctx.rbm
    fn, what, kw = CALLS[call]
    rec, src = ctx.choose("names", ALIKE)
    r.register_frame("w")
    for i, n in enumerate(sorted({rec, src})):
        r.register_frame(n, "w", ctx.array(ctx.vec3(f"t{i}")),
                         ctx.array(ctx.unit(f"q{i}")))
    d = 4 if fn == "transform_quaternions" else 3
    da = xr.DataArray(ctx.array(ctx.reals("p", d)), dims="q",
                      attrs={what: rec, "note": rec})
    given = ctx.choose("given", [None, "name", "object"])
    outof = {None: None, "name": src, "object": r.registry[src]}[given]
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        out = getattr(r, fn)(da, "w", outof, **kw)
    told = any("You are transforming" in str(w.message) for w in caught)
    ctx.same("warned", told, given is not None and rec != src)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        num = getattr(r, fn)(da.data, "w", rec if given is None else src,
                             **kw)
    ctx.eq("out of the right frame", out.data, num)
    ctx.same("metadata", dict(out.attrs), {
        what: "w", "representation_frame": "w", "note": rec})


@case("I03", bounds="labelled poses and twists of a static or moving frame, "
      "looked up by name or object, transformed into a third frame")
def lookup_metadata(ctx):
    r = ctx.rbm
    n = named_tree(ctx)
    move = ctx.choose("moving", [False, True])
    if move:
        r.register_frame(
            "M", n[0], ctx.array(ctx.mat("tM", 4, 3)),
            ctx.array(ctx.units("qM", 4)), _np.arange(4.0))
    else:
        r.register_frame("M", n[0], ctx.array(ctx.vec3("tM")),
                         ctx.array(ctx.unit("qM")))
    form = ctx.choose("form", ["name", "object"])

    def f(x):
        return x if form == "name" else r.registry[x]

    ds = r.lookup_pose(f("M"), f(n[0]), as_dataset=True)
    far = r.lookup_pose("M", n[1])
    for k, fn, v in (("position", r.transform_points, far[0]),
                     ("orientation", r.transform_quaternions, far[1])):
        for a in ("representation_frame", "reference_frame"):
            ctx.check(f"{k} {a}", bool(ds[k].attrs[a] == n[0]))
        out = fn(ds[k], f(n[1]))
        ctx.eq(k + " in the third frame", out.data, v)
        ctx.check(k + " new reference",
                  bool(out.attrs["reference_frame"] == n[1]))
    if move:
        tw = r.lookup_twist(f("M"), f(n[0]), f(n[1]), as_dataset=True)
        da = {"linear_velocity": r.lookup_linear_velocity,
              "angular_velocity": r.lookup_angular_velocity}
        for k, fn in da.items():
            one = fn(f("M"), f(n[0]), f(n[1]), as_dataarray=True)
            for v in (tw[k], one):
                for a, x in (("moving_frame", "M"),
                             ("reference_frame", n[0]),
                             ("representation_frame", n[1])):
                    ctx.check(f"{k} {a}", bool(v.attrs[a] == x))


# ---------------------------------------------------------------- I04
def moving_tree(ctx, n=4):
    """w - S (static), w - M (n samples), M - D (static)."""
    r = ctx.rbm
    r.register_frame("w")
    static(ctx, "S", "w")
    r.register_frame("M", "w", ctx.array(ctx.mat("tM", n, 3)),
                     ctx.array(ctx.units("qM", n)), _np.arange(float(n)))
    static(ctx, "D", "M")


def pos(n=4, shape=3):
    return lambda ctx: ctx.array(ctx.mat("p", n, shape))


def uq(name, n):
    return lambda ctx: ctx.array(ctx.units(name, n))


def mt(name, *shape):
    return lambda ctx: ctx.array(ctx.block(name, shape))


def ahead(name, n, columns=False):
    """Vectors with positive first component."""
    def make(ctx):
        m = ctx.mat(name, n, 3)
        for v in m:
            ctx.assume(v[0] > 0)
        a = ctx.array(m)
        return a.T.copy() if columns else a
    return make


TS = lambda ctx: _np.arange(4.0)  # noqa: E731

# name: (argument makers, call)
MUTATE = {}
for _k, _m in (("points", mt("p", 4, 3)), ("vectors", mt("p", 4, 3)),
               ("quaternions", uq("p", 4))):
    for _s, _d in (("S", "w"), ("w", "S"), ("M", "w"), ("S", "M"),
                   ("w", "w")):
        MUTATE[f"transform_{_k} {_s} {_d}"] = (
            [_m, TS], lambda r, a, t, k=_k, s=_s, d=_d: tf(r, k)(
                a, into=d, outof=s, timestamps=t))
    MUTATE[f"transform_{_k} untimed"] = (
        [_m], lambda r, a, k=_k: tf(r, k)(a, into="w", outof="S"))
    MUTATE[f"transform_{_k} first axis"] = (
        [lambda ctx, m=_m: m(ctx).T.copy(), TS],
        lambda r, a, t, k=_k: tf(r, k)(a, into="w", outof="S", axis=0,
                                       time_axis=1, timestamps=t))
for _w in ("reference_frame", "moving_frame", "representation_frame"):
    for _s, _d in (("S", "w"), ("w", "S"), ("w", "w"), ("M", "w"),
                   ("w", "M"), ("M", "D")):
        for _t in (0, 1):
            if not _t and "M" in (_s, _d) and "D" not in (_s, _d):
                continue
            MUTATE[f"transform_angular_velocity {_w} {_s} {_d} {_t}"] = (
                [mt("p", 4, 3), TS] if _t else [mt("p", 3)],
                lambda r, a, t=None, w=_w, s=_s, d=_d:
                r.transform_angular_velocity(
                    a, into=d, outof=s, what=w, timestamps=t))
            kw = {"reference_frame": dict(moving_frame="S"),
                  "moving_frame": dict(reference_frame="S")}.get(_w, {})
            if "M" in (_s, _d) and _w != "representation_frame":
                continue
            MUTATE[f"transform_linear_velocity {_w} {_s} {_d} {_t}"] = (
                [mt("p", 4, 3), TS] if _t else [mt("p", 3)],
                lambda r, a, t=None, w=_w, s=_s, d=_d, kw=kw:
                r.transform_linear_velocity(
                    a, into=d, outof=s, what=w, timestamps=t, **kw))
for _s, _d in (("S", "w"), ("w", "S"), ("M", "w"), ("D", "S"), ("w", "w"),
               ("S", "M")):
    MUTATE[f"lookup_transform {_s} {_d}"] = (
        [], lambda r, s=_s, d=_d: r.lookup_transform(s, d))
    MUTATE[f"lookup_pose {_s} {_d}"] = (
        [], lambda r, s=_s, d=_d: r.lookup_pose(s, d))
for _m in ("lookup_twist", "lookup_linear_velocity",
           "lookup_angular_velocity"):
    MUTATE[_m] = ([], lambda r, m=_m: getattr(r, m)("M", "w", "w"))
MUTATE.update({
    "estimate_linear_velocity": (
        [mt("p", 3, 3), lambda ctx: _np.arange(3.0)],
        lambda r, a, t: r.estimate_linear_velocity(a, timestamps=t)),
    "estimate_linear_velocity columns": (
        [mt("p", 3, 3), lambda ctx: _np.arange(3.0)],
        lambda r, a, t: r.estimate_linear_velocity(
            a, timestamps=t, axis=0, time_axis=1)),
    "estimate_angular_velocity": (
        [uq("p", 4), TS],
        lambda r, a, t: r.estimate_angular_velocity(a, timestamps=t)),
    "estimate_angular_velocity columns": (
        [lambda ctx: uq("p", 4)(ctx).T.copy(), TS],
        lambda r, a, t: r.estimate_angular_velocity(
            a, timestamps=t, axis=0, time_axis=1)),
    "shortest_arc_rotation": (
        [ahead("p", 1), ahead("q", 1)],
        lambda r, a, b: r.shortest_arc_rotation(a, b)),
    "shortest_arc_rotation columns": (
        [ahead("p", 1, True), ahead("q", 1, True)],
        lambda r, a, b: r.shortest_arc_rotation(a, b, axis=0)),
    "best_fit_rotation": (
        [mt("p", 3, 3), mt("q", 3, 3)],
        lambda r, a, b: r.best_fit_rotation(a, b)),
    "best_fit_transform": (
        [mt("p", 3, 3), mt("q", 3, 3)],
        lambda r, a, b: r.best_fit_transform(a, b)),
    "iterative_closest_point": (
        [mt("p", 1, 3), mt("q", 1, 3)],
        lambda r, a, b: r.iterative_closest_point(a, b, max_iterations=1)),
    "iterative_closest_point init": (
        [mt("p", 1, 3), mt("q", 1, 3), mt("t", 3),
         lambda ctx: ctx.array(ctx.unit("r"))],
        lambda r, a, b, t, q: r.iterative_closest_point(
            a, b, init_transform=(t, q), max_iterations=1)),
    "qinv": ([uq("a", 2)], lambda r, a: r.qinv(a)),
    "qinv columns": ([lambda ctx: uq("a", 2)(ctx).T.copy()],
                     lambda r, a: r.qinv(a, qaxis=0)),
    "qmul": ([uq("a", 2), uq("b", 2)], lambda r, a, b: r.qmul(a, b)),
    "qmean": ([uq("a", 2)], lambda r, a: r.qmean(a)),
    "rotate_vectors": ([uq("a", 2), mt("v", 2, 3)],
                       lambda r, a, v: r.rotate_vectors(a, v)),
    "rotate_vectors columns": (
        [lambda ctx: uq("a", 2)(ctx).T.copy(), mt("v", 3, 2)],
        lambda r, a, v: r.rotate_vectors(a, v, axis=0, qaxis=0)),
    "qinterp": ([uq("a", 3), lambda ctx: _np.arange(3.0),
                 lambda ctx: _np.array([0.5, 2.0])],
                lambda r, a, t, u: r.qinterp(a, t, u)),
    "cartesian_to_polar": ([mt("p", 1, 2)],
                           lambda r, a: r.cartesian_to_polar(a)),
    "polar_to_cartesian": (
        [lambda ctx: ctx.array([[ctx.real("r"), ctx.angle("phi")]])],
        lambda r, a: r.polar_to_cartesian(a)),
    "cartesian_to_spherical": ([ahead("p", 1)],
                               lambda r, a: r.cartesian_to_spherical(a)),
    "spherical_to_cartesian": (
        [lambda ctx: ctx.array([[ctx.real("r"), ctx.angle("th"),
                                 ctx.angle("phi")]])],
        lambda r, a: r.spherical_to_cartesian(a)),
    "from_euler_angles": (
        [lambda ctx: ctx.array([ctx.angle("a", 0.5), ctx.angle("b", 0.5),
                                ctx.angle("c", 0.5)])],
        lambda r, a: r.from_euler_angles(rpy=a)),
})


def built(r, t, q, ts=None, **kw):
    """Look up through a new frame, up and down."""
    w = r.ReferenceFrame("v")
    f = r.ReferenceFrame("f", w, t, q, ts, **kw)
    a, b, _ = f.lookup_transform(w)
    c, d, _ = w.lookup_transform(f)
    return a, b, c, d


for _i in (False, True):
    MUTATE[f"ReferenceFrame static inverse={_i}"] = (
        [mt("t", 3), lambda ctx: ctx.array(ctx.unit("q"))],
        lambda r, t, q, i=_i: built(r, t, q, inverse=i))
    MUTATE[f"ReferenceFrame translation only inverse={_i}"] = (
        [mt("t", 3)], lambda r, t, i=_i: built(r, t, None, inverse=i))
    MUTATE[f"ReferenceFrame rotation only inverse={_i}"] = (
        [lambda ctx: ctx.array(ctx.unit("q"))],
        lambda r, q, i=_i: built(r, None, q, inverse=i))
    for _d in (False, True):
        MUTATE[f"ReferenceFrame moving inverse={_i} discrete={_d}"] = (
            [mt("t", 2, 3), uq("q", 2), lambda ctx: _np.arange(2.0)],
            lambda r, t, q, ts, i=_i, d=_d: built(
                r, t, q, ts, inverse=i, discrete=d))
for _a in (0, 1):
    _c = " columns" if _a == 0 else ""
    _p, _q = (mt("p", 3, 3), mt("q", 3, 3))
    MUTATE["best_fit_rotation axis" + _c] = (
        [_p, _q], lambda r, a, b, x=_a: r.best_fit_rotation(a, b, axis=x))
    MUTATE["best_fit_transform axis" + _c] = (
        [_p, _q], lambda r, a, b, x=_a: r.best_fit_transform(a, b, axis=x))
MUTATE.update({
    "qmul three": ([uq("a", 1), uq("b", 1), uq("c", 1)],
                   lambda r, a, b, c: r.qmul(a, b, c)),
    "qmul columns": ([lambda ctx: uq("a", 2)(ctx).T.copy(),
                      lambda ctx: uq("b", 2)(ctx).T.copy()],
                     lambda r, a, b: r.qmul(a, b, qaxis=0)),
    "qmean columns": ([lambda ctx: uq("a", 2)(ctx).T.copy()],
                      lambda r, a: r.qmean(a, qaxis=0)),
    "qmean axis": ([uq("a", 2)], lambda r, a: r.qmean(a, axis=0)),
    "rotate_vectors one": ([uq("a", 1), mt("v", 2, 3)],
                           lambda r, a, v: r.rotate_vectors(a, v)),
    "rotate_vectors all": ([uq("a", 2), mt("v", 2, 3)],
                           lambda r, a, v: r.rotate_vectors(
                               a, v, one_to_one=False)),
    "qinterp columns": ([lambda ctx: uq("a", 3)(ctx).T.copy(),
                         lambda ctx: _np.arange(3.0),
                         lambda ctx: _np.array([2.0, 0.5])],
                        lambda r, a, t, u: r.qinterp(a, t, u, axis=1,
                                                     qaxis=0)),
    "from_euler_angles columns": (
        [lambda ctx: ctx.array([[ctx.angle("a", 0.5)], [ctx.angle("b", 0.5)],
                                [ctx.angle("c", 0.5)]])],
        lambda r, a: r.from_euler_angles(rpy=a, axis=0, order="yrp")),
    "from_euler_angles separate": (
        [lambda ctx: ctx.array([ctx.angle("a", 0.5)]),
         lambda ctx: ctx.array([ctx.angle("b", 0.5)])],
        lambda r, a, b: r.from_euler_angles(roll=a, yaw=b)),
    "estimate_linear_velocity outliers": (
        [lambda ctx: ctx.array([[ctx.real("a"), 0.0, 0.0] for _ in range(5)]
                               ), lambda ctx: _np.arange(5.0)],
        lambda r, a, t: r.estimate_linear_velocity(
            a, timestamps=t, outlier_thresh=0.5)),
})
LABELLED = {
    "transform_points": lambda r, da: r.transform_points(da, "w", "S"),
    "transform_points stamps": lambda r, da: r.transform_points(
        da, "w", dim="q", timestamps="time"),
    "transform_vectors what": lambda r, da: r.transform_vectors(da, "w", "S"),
    "transform_vectors untimed": lambda r, da: r.transform_vectors(
        da, "w", "S", timestamps=False),
    "transform_coordinates keep": lambda r, da:
        r.transform_coordinates(da, "spherical", replace_dim=False),
    "transform_vectors": lambda r, da: r.transform_vectors(da, "M", "S"),
    "transform_angular_velocity": lambda r, da:
        r.transform_angular_velocity(da, "w", "S"),
    "transform_linear_velocity": lambda r, da:
        r.transform_linear_velocity(da, "w", "S", moving_frame="w"),
    "transform_coordinates": lambda r, da:
        r.transform_coordinates(da, "spherical"),
    "estimate_linear_velocity": lambda r, da:
        r.estimate_linear_velocity(da),
    "shortest_arc_rotation": lambda r, da:
        r.shortest_arc_rotation(da, da.copy()),
    "best_fit_transform": lambda r, da: r.best_fit_transform(da, da.copy()),
}


def snapshot(ctx, a):
    return ctx.nested(a)


def stored(ctx):
    """What registered frames hold."""
    out = {}
    for k, f in ctx.rbm.registry.items():
        for a in ("translation", "rotation", "timestamps"):
            v = getattr(f, a)
            out[f"{k} {a}"] = None if v is None else ctx.nested(v)
        out[f"{k} flags"] = [float(bool(f.discrete))]
    return out


def fixed_library(ctx):
    """Decompositions answer with one fixed sign and order."""
    if ctx.sym:
        ctx.eng.notes["eig_nosign"] = True


def unchanged(ctx, before):
    after = stored(ctx)
    ctx.same("frames", sorted(after), sorted(before))
    for k in before:
        if before[k] is None or after[k] is None:
            ctx.check("stored " + k, before[k] is after[k])
        else:
            ctx.eq("stored " + k, after[k], before[k])


def flatten(out):
    if isinstance(out, tuple):
        return [x for o in out for x in flatten(o)]
    return [] if out is None else [out]


@case("I04", params=[dict(call=k) for k in MUTATE],
      bounds="every public function taking arrays, on arrays of 1-4 rows in "
             "usual and transposed layout; called twice on the same "
             "arguments in a tree of static and moving frames")
def arguments(ctx, call):
    r = ctx.rbm
    if any(x in call for x in ("transform_", "lookup")):
        moving_tree(ctx)
    mk, fn = MUTATE[call]
    fixed_library(ctx)
    args = [m(ctx) for m in mk]
    was = [snapshot(ctx, a) for a in args]
    frames_ = stored(ctx)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = flatten(fn(r, *args))
        for i, a in enumerate(args):
            ctx.eq(f"argument {i}", a, was[i])
        unchanged(ctx, frames_)
        keep = [snapshot(ctx, o) for o in out]
        again = flatten(fn(r, *args))
    for i, (a, b) in enumerate(zip(keep, again)):
        ctx.eq(f"result {i} of the second call", b, a)
    for i, (a, b) in enumerate(zip(keep, out)):
        ctx.eq(f"result {i} of the first call", b, a)


ROTATIONS = {
    "qinterp": lambda r, a, da, t: da.rbm.qinterp(time=t, qdim="q"),
    "qinv": lambda r, a, da, t: da.rbm.qinv(qdim="q"),
    "plain qinterp": lambda r, a, da, t: r.qinterp(a, da.time.values, t),
    "plain qinv": lambda r, a, da, t: r.qinv(a),
    "plain qmul": lambda r, a, da, t: r.qmul(a, a, a),
    "plain qmean": lambda r, a, da, t: r.qmean(a),
    "plain rotate_vectors": lambda r, a, da, t: r.rotate_vectors(
        a, a[..., 1:]),
    "transform_quaternions": lambda r, a, da, t: r.transform_quaternions(
        da, "w", "S", dim="q", timestamps="time"),
    "transform moving": lambda r, a, da, t: r.transform_quaternions(
        da, "M", "S", dim="q", timestamps="time"),
    "plain transform_quaternions": lambda r, a, da, t:
        r.transform_quaternions(a, "w", "S", timestamps=da.time.values),
    "estimate_angular_velocity": lambda r, a, da, t:
        r.estimate_angular_velocity(da, dim="q", timestamps="time"),
}


@case("I04", params=[dict(call=k) for k in ROTATIONS],
      bounds="labelled rotations and their methods, rotations of any length: "
             "3-4 samples, non-zero, negative scalar parts included")
def rotations_of_any_length(ctx, call):
    import xarray as xr

    r = ctx.rbm
    moving_tree(ctx)
    n = 4 if "estimate" in call else 3
    rows = ctx.mat("q", n, 4)
    for row in rows:
        ctx.assume(row[0] < 0)
    a = ctx.array(rows)
    t = _np.array([0.5, 1.0])
    co = {"time": _np.arange(float(n)), "q": list("wxyz"),
          "val": ("time", _np.arange(n, 0.0, -1.0))}
    da = xr.DataArray(ctx.array(rows), co, ("time", "q"), "rot", {"u": "x"})
    fixed_library(ctx)
    frames_ = stored(ctx)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ROTATIONS[call](r, a, da, t)
        ROTATIONS[call](r, a, da, t)
    ctx.eq("plain data", a, rows)
    ctx.eq("data", da.data, rows)
    ctx.same("requested times", t.tolist(), [0.5, 1.0])
    ctx.same("attributes", dict(da.attrs), {"u": "x"})
    ctx.same("dimensions", tuple(da.dims), ("time", "q"))
    ctx.same("coordinates", {k: v.values.tolist() for k, v in
                             da.coords.items()},
             {"time": _np.arange(float(n)).tolist(), "q": list("wxyz"),
              "val": _np.arange(n, 0.0, -1.0).tolist()})
    unchanged(ctx, frames_)


@case("I04", params=[dict(call=k) for k in LABELLED],
      bounds="labelled functions on 2-4 timestamps, called twice")
def labelled_arguments(ctx, call):
    import xarray as xr

    r = ctx.rbm
    moving_tree(ctx)
    p = ctx.mat("p", 4 if "vectors" in call else 2, 3)
    for row in p:
        ctx.assume(row[0] > 0)
    attrs = {"units": "m", "coordinate_system": "cartesian",
             "reference_frame": "S"}
    n = len(p)
    co = {"time": _np.arange(float(n)), "q": ["x", "y", "z"],
          "val": ("time", _np.arange(1.0, n + 1))}
    da = xr.DataArray(ctx.array(p), co, ("time", "q"), "pos", attrs)
    fixed_library(ctx)
    frames_ = stored(ctx)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        LABELLED[call](r, da)
        LABELLED[call](r, da)
    ctx.eq("data", da.data, p)
    ctx.same("attributes", dict(da.attrs), attrs)
    ctx.same("dimensions", tuple(da.dims), ("time", "q"))
    ctx.same("name", da.name, "pos")
    ctx.same("coordinates", {k: v.values.tolist() for k, v in
                             da.coords.items()},
             {"time": _np.arange(float(n)).tolist(), "q": ["x", "y", "z"],
              "val": _np.arange(1.0, n + 1).tolist()})
    unchanged(ctx, frames_)
