"""C: polar and spherical coordinates."""
import itertools
import math

import numpy as _np

from sx import oracle as O
from sx.props.q_quat import layouts, moved, oarr, rows_of
from sx.runner import case

PI = math.pi
SHAPES = [(), (1,), (2,), (3,), (2, 3), (3, 2)]


def inside(ctx, name, v, lo, hi, strict_lo):
    eps = 0 if ctx.sym else 1e-9
    ctx.check(name, ctx.And(v >= lo - eps, v <= hi + eps))


def is_polar(ctx, p, out):
    """out = (r, phi) are the polar coordinates of p."""
    r, phi = out
    ctx.eq("radius", r * r, p[0] * p[0] + p[1] * p[1])
    ctx.check("radius >= 0", r >= 0)
    inside(ctx, "angle range", phi, -PI, PI, True)
    ctx.eq("x", r * ctx.cos(phi), p[0])
    ctx.eq("y", r * ctx.sin(phi), p[1])


def is_spherical(ctx, p, out):
    r, th, phi = out
    ctx.eq("radius", r * r, O.dot(p, p))
    ctx.check("radius >= 0", r >= 0)
    inside(ctx, "inclination range", th, 0, PI, False)
    inside(ctx, "azimuth range", phi, -PI, PI, True)
    ctx.eq("x", r * ctx.sin(th) * ctx.cos(phi), p[0])
    ctx.eq("y", r * ctx.sin(th) * ctx.sin(phi), p[1])
    ctx.eq("z", r * ctx.cos(th), p[2])


def from_polar(ctx, p):
    r, phi = p
    return [r * ctx.cos(phi), r * ctx.sin(phi)]


def from_spherical(ctx, p):
    r, th, phi = p
    return [r * ctx.sin(th) * ctx.cos(phi), r * ctx.sin(th) * ctx.sin(phi),
            r * ctx.cos(th)]


def call(ctx, fn, frm, to, arr, ax):
    """Through the conversion function or transform_coordinates."""
    r = ctx.rbm
    via = ctx.choose("via", ["function", "dispatch"])
    kw = {"axis": ax}
    if ax == -1 and ctx.choose("omit", [False, True]):
        kw = {}
    if via == "function":
        return getattr(r, fn)(arr, **kw)
    return r.transform_coordinates(arr, into=to, outof=frm, **kw)


def run_layout(ctx, shape, d, fn, frm, to, inp, judge):
    n = int(_np.prod(shape))
    rows = [inp(ctx, i) for i in range(n)]
    a = oarr(rows, shape)
    ax = layouts(ctx, a.ndim, "axis")
    out = call(ctx, fn, frm, to, ctx.array(moved(a, ax)), ax)
    if not ctx.shape("result", out, _np.moveaxis(a, -1, ax).shape):
        return
    res = rows_of(_np.moveaxis(_np.array(ctx.nested(out), dtype=object),
                               ax, -1))
    for p, q in zip(rows, res):
        judge(ctx, p, q)


def pt(d):
    def f(ctx, i):
        return ctx.reals(f"p{i}_", d)
    return f


def pol(ctx, i):
    return [ctx.real(f"r{i}"), ctx.angle(f"phi{i}")]


def sph(ctx, i):
    return [ctx.real(f"r{i}"), ctx.angle(f"th{i}"), ctx.angle(f"phi{i}")]


def cart_of(conv):
    def f(ctx, p, q):
        ctx.eq("cartesian", q, conv(ctx, p))
    return f


@case("C01", params=[dict(shape=s) for s in SHAPES],
      whole=lambda p: _np.prod(p["shape"]) < 4,
      bounds="points to polar: arrays of up to 2 further dimensions of "
             "length 1-3, every axis from either end, function and dispatch")
def to_polar(ctx, shape):
    run_layout(ctx, shape, 2, "cartesian_to_polar", "cartesian", "polar",
               pt(2), is_polar)


@case("C01", params=[dict(shape=s) for s in SHAPES],
      bounds="polar to points: all radii and angles, same layouts")
def to_cartesian(ctx, shape):
    run_layout(ctx, shape, 2, "polar_to_cartesian", "polar", "cartesian",
               pol, cart_of(from_polar))


@case("C01", bounds="round trips of single points, the origin and axes "
      "included, and of polar pairs with positive radius")
def polar_round_trip(ctx):
    r = ctx.rbm
    kind = ctx.choose("kind", ["any", "origin", "x axis", "y axis"])
    if ctx.choose("start", ["cartesian", "polar"]) == "cartesian":
        p = {"any": ctx.reals("p", 2), "origin": [0.0, 0.0],
             "x axis": [ctx.real("x"), 0.0],
             "y axis": [0.0, ctx.real("y")]}[kind]
        q = r.cartesian_to_polar(ctx.array(p))
        is_polar(ctx, p, ctx.nested(q))
        ctx.eq("round trip", r.polar_to_cartesian(q), p)
        if kind == "origin":
            ctx.eq("origin radius", ctx.nested(q)[0], 0)
    else:
        a = ctx.angle("phi", principal="full")
        ctx.assume(a <= PI)
        ctx.assume(a > -PI)
        rad = ctx.real("r")
        ctx.assume(rad > 0)
        q = ctx.nested(r.cartesian_to_polar(
            r.polar_to_cartesian(ctx.array([rad, a]))))
        ctx.eq("radius kept", q[0], rad)
        ctx.eq("angle kept up to turns",
               [ctx.cos(q[1]), ctx.sin(q[1])], [ctx.cos(a), ctx.sin(a)])


@case("C02", params=[dict(shape=s) for s in SHAPES if _np.prod(s) < 6 or
                     s == (2, 3)],
      whole=lambda p: _np.prod(p["shape"]) < 4,
      bounds="points to spherical: arrays of up to 2 further dimensions of "
             "length 1-3, every axis from either end, function and dispatch")
def to_spherical(ctx, shape):
    run_layout(ctx, shape, 3, "cartesian_to_spherical", "cartesian",
               "spherical",
               (lambda c, i: safe(c, i)) if _np.prod(shape) > 3 else pt(3),
               is_spherical)


def safe(ctx, i):
    """Away from the z axis (one path per point)."""
    p = ctx.reals(f"p{i}_", 3)
    ctx.assume(p[0] > 0)
    return p


@case("C02", params=[dict(shape=s) for s in SHAPES],
      bounds="spherical to points: all radii and angles, same layouts")
def spherical_to_points(ctx, shape):
    run_layout(ctx, shape, 3, "spherical_to_cartesian", "spherical",
               "cartesian", sph, cart_of(from_spherical))


@case("C02", bounds="round trips of single points, the origin, the z axis "
      "and the planes included, and of spherical triples in range")
def spherical_round_trip(ctx):
    r = ctx.rbm
    kind = ctx.choose("kind", ["any", "origin", "z axis", "z plane", "yz",
                               "back"])
    if kind != "back":
        x, y, z = ctx.vec3("p")
        p = {"any": [x, y, z], "origin": [0.0, 0.0, 0.0],
             "z axis": [0.0, 0.0, z], "z plane": [x, y, 0.0],
             "yz": [0.0, y, z]}[kind]
        q = r.cartesian_to_spherical(ctx.array(p))
        is_spherical(ctx, p, ctx.nested(q))
        ctx.eq("round trip", r.spherical_to_cartesian(q), p)
    else:
        th = ctx.angle("th", principal="half")
        ctx.assume(th >= 0)
        ctx.assume(th <= PI)
        a = ctx.angle("phi", principal="full")
        ctx.assume(a <= PI)
        ctx.assume(a > -PI)
        rad = ctx.real("r")
        ctx.assume(rad > 0)
        ctx.assume(ctx.sin(th) >= 0)
        q = ctx.nested(r.cartesian_to_spherical(
            r.spherical_to_cartesian(ctx.array([rad, th, a]))))
        ctx.eq("radius kept", q[0], rad)
        ctx.eq("inclination kept", ctx.cos(q[1]), ctx.cos(th))
        ctx.eq("azimuth kept up to turns",
               [ctx.sin(th) * ctx.cos(q[2]), ctx.sin(th) * ctx.sin(q[2])],
               [ctx.sin(th) * ctx.cos(a), ctx.sin(th) * ctx.sin(a)])


@case("C01", bounds="component axes of length 1, 3 and 4")
def polar_rejects(ctx):
    r = ctx.rbm
    d = ctx.choose("d", [1, 3, 4])
    ax = ctx.choose("axis", [0, 1, -1, -2])
    shp = (d, 2) if ax % 2 == 0 else (2, d)
    a = ctx.array(ctx.block("p", shp))
    ctx.raises("to polar", ValueError, r.cartesian_to_polar, a, axis=ax)
    ctx.raises("to cartesian", ValueError, r.polar_to_cartesian, a, axis=ax)


@case("C02", bounds="component axes of length 1, 2 and 4")
def spherical_rejects(ctx):
    r = ctx.rbm
    d = ctx.choose("d", [1, 2, 4])
    ax = ctx.choose("axis", [0, 1, -1, -2])
    shp = (d, 3) if ax % 2 == 0 else (3, d)
    a = ctx.array(ctx.block("p", shp))
    ctx.raises("to spherical", ValueError, r.cartesian_to_spherical, a,
               axis=ax)
    ctx.raises("to cartesian", ValueError, r.spherical_to_cartesian, a,
               axis=ax)


# ---------------------------------------------------------------- C03
NEW = {"polar": ("polar_axis", ["r", "phi"]),
       "spherical": ("spherical_axis", ["r", "theta", "phi"])}
PAIRS = [("cartesian", "polar"), ("polar", "cartesian"),
         ("cartesian", "spherical"), ("spherical", "cartesian")]


def names_of(frm, to):
    d = 2 if "polar" in (frm, to) else 3
    if to == "cartesian":
        return d, "cartesian_axis", ["x", "y", "z"][:d]
    return (d,) + NEW[to]


@case("C03", params=[dict(nd=n, pair="-".join(p)) for n in (1, 2, 3)
                     for p in PAIRS],
      bounds="labelled arrays of 1-3 dimensions, every dimension order, all "
             "system pairs, component dimension given by name, axis or "
             "default, source system given or recorded, with and without "
             "extra coordinates and dimension replacement")
def labelled(ctx, nd, pair):
    import xarray as xr

    r = ctx.rbm
    frm, to = pair.split("-")
    d, ndim_name, nlabels = names_of(frm, to)
    sizes = {"q": d, "time": 2, "n": 3}
    others = ["time", "n"][:nd - 1]
    dims = ctx.choose("dims", list(itertools.permutations(["q"] + others)))
    ax = dims.index("q")
    shp = tuple(sizes[x] for x in dims)
    vals = ctx.block("p", shp)
    if frm == "cartesian":
        # one path per layout: how points are converted is C01 and C02
        for p in rows_of(_np.moveaxis(_np.array(vals, dtype=object), ax, -1)):
            ctx.assume(p[0] > 0)
    arr = ctx.array(vals)
    coords = {"q": ["a", "b", "c"][:d]}
    if "time" in dims:
        coords["time"] = [5.0, 7.0]
        coords["label"] = ("time", ["u", "v"])
    extra = ctx.choose("extra", [False, True])
    if extra:
        coords["part"] = ("q", list(range(d)))
        coords["scalar"] = 3
        if nd > 1:
            # one value for each component of each sample
            coords["sigma"] = (("time", "q"), _np.arange(2. * d).reshape(
                2, d))
    rec = ctx.choose("recorded", [None, "same", "other"])
    attrs = {"units": "m", "note": "x"}
    if rec == "same":
        attrs["coordinate_system"] = frm
    elif rec == "other":
        attrs["coordinate_system"] = "somewhere"
    da = xr.DataArray(arr, coords, dims, name="pos", attrs=attrs)
    kw = {}
    how = ctx.choose("how", ["dim", "axis", "neg", "default"]
                     if ax == nd - 1 else ["dim", "axis", "neg"])
    if how == "dim":
        kw["dim"] = "q"
    elif how == "axis":
        kw["axis"] = ax
    elif how == "neg":
        kw["axis"] = ax - nd
    if rec != "same" or ctx.choose("explicit", [False, True]):
        kw["outof"] = frm
    rep = ctx.choose("replace", [None, True, False])
    if rep is not None:
        kw["replace_dim"] = rep
    out = r.transform_coordinates(da, into=to, **kw)
    fn = getattr(r, f"{frm}_to_{to}")
    ctx.eq("numbers", out.data, fn(ctx.array(vals), axis=ax))
    new = ndim_name if rep is not False else "q"
    ctx.same("dims", tuple(out.dims),
             tuple(new if x == "q" else x for x in dims))
    ctx.same("name", out.name, "pos")
    ex = dict(attrs)
    if rec:
        ex["coordinate_system"] = to
    ctx.same("attributes", dict(out.attrs), ex)
    ctx.same("labels", [str(x) for x in out.coords[new].values],
             nlabels if rep is not False else coords["q"])
    old = {k for k in ("part", "sigma") if k in coords}
    keep = set(coords) - old - {"q"}
    want = keep | {new} | (old if rep is False else set())
    ctx.same("coordinates", set(out.coords), want)
    if "time" in dims:
        ctx.same("time kept", list(out.coords["time"].values), [5.0, 7.0])
        ctx.same("label kept", list(out.coords["label"].values), ["u", "v"])
    ctx.same("input metadata", dict(da.attrs), attrs)
    ctx.same("input dims", tuple(da.dims), tuple(dims))
    ctx.eq("input data", da.data, vals)


@case("C03", bounds="all pairs of system names, missing source systems, "
      "plain and labelled arrays")
def unsupported(ctx):
    import xarray as xr

    r = ctx.rbm
    sys_ = ["cartesian", "polar", "spherical", "nowhere"]
    frm = ctx.choose("from", sys_ + [None])
    to = ctx.choose("to", sys_)
    d = ctx.choose("d", [2, 3])
    lab = ctx.choose("labelled", [False, True])
    a = ctx.array(ctx.reals("p", d))
    if lab:
        a = xr.DataArray(a, dims="q", attrs=dict(other=1))
    ok = (frm, to) in PAIRS and d == names_of(frm, to)[0]
    if ok:
        kind, _ = ctx.outcome(r.transform_coordinates, a, into=to, outof=frm)
        ctx.check("supported pair", kind == "ok")
    else:
        ctx.raises(f"{frm} to {to}", ValueError, r.transform_coordinates, a,
                   into=to, outof=frm)
