"""I05: missing samples stay where they are."""
import numpy as _np

from sx import oracle as O
from sx.props.a_tree import apply, tf
from sx.props.c_coord import (from_polar, from_spherical, is_polar,
                              is_spherical, pol, sph)
from sx.props.i_array import KINDS
from sx.props.q_quat import moved, nz, oarr
from sx.props.t_time import static
from sx.runner import case

NAN = float("nan")
GRID = [0.0, 1.0, 2.5, 3.0, 4.0]
GRIDS = {"same": GRID, "inner": GRID[1:4], "every other": GRID[::2],
         "last": GRID[-1:], "more": [-1.0, *GRID, 5.0]}


def gone(row, what=None):
    """A copy of the row that is missing wholly or in one component."""
    return [NAN if what is None or i == what else v
            for i, v in enumerate(row)]


def without(rows, gaps):
    return [gone(r, gaps[i]) if i in gaps else r for i, r in enumerate(rows)]


def gaps_of(ctx, name, n, d):
    """Which samples are missing: one, or two of them, and how."""
    sets = [{i: w} for i in range(n) for w in (None, d - 1)]
    if n > 2:
        sets += [{0: None, n - 1: 0}, {1: 0, 2: None}]
    return ctx.choose(name, sets)


def frame(ctx, name, parent, t, q, times, gt=None, gq=None, **kw):
    ctx.rbm.register_frame(
        name, parent, ctx.array(without(t, gt or {})),
        ctx.array(without(q, gq or {})), timestamps=_np.array(times), **kw)


def samples(ctx, name, n):
    return ctx.mat("t" + name, n, 3), ctx.units("q" + name, n)


def at(times, t):
    return times.index(t)


def held(times, t):
    """Index of the event in force at t."""
    k = [i for i, x in enumerate(times) if x <= t]
    return k[-1] if k else 0


def missing(kind, gt, gq):
    """Is a transform of this kind missing, given what is missing of it?"""
    return gq or (gt and kind == "points")


@case("I05", params=[dict(kind=k, grid=g) for k in KINDS for g in GRIDS],
      bounds="data of 1-7 samples through a moving frame of 5 samples, "
             "either direction, one or two samples wholly or partly missing "
             "in the data, the translation or the rotation of the frame")
def gaps_moving(ctx, kind, grid):
    r = ctx.rbm
    d = 4 if kind == "quaternions" else 3
    times = GRIDS[grid]
    p = ctx.mat("p", len(times), d)
    t, q = samples(ctx, "m", 5)
    where = ctx.choose("where", ["data", "translation", "rotation"])
    g = gaps_of(ctx, "gap", len(times) if where == "data" else 5,
                {"data": d, "translation": 3, "rotation": 4}[where])
    gd, gt, gq = [g if where == w else {}
                  for w in ("data", "translation", "rotation")]
    up = ctx.choose("up", [True, False])
    r.register_frame("w")
    frame(ctx, "m", "w", t, q, GRID, gt, gq)
    src, dst = ("m", "w") if up else ("w", "m")
    out = tf(r, kind)(ctx.array(without(p, gd)), into=dst, outof=src,
                      timestamps=_np.array(times))
    kept = [x for x in times if x in GRID]
    ctx.shape("samples", out, (len(kept), d))
    got = ctx.nested(out)
    for i, x in enumerate(kept):
        k, j = at(GRID, x), at(times, x)
        if j in gd:
            if gd[j] is None:
                ctx.eq("missing data", got[i], [NAN] * d)
        elif missing(kind, k in gt and gt[k] is None and up,
                     k in gq and gq[k] is None):
            ctx.eq("missing transform", got[i], [NAN] * d)
        elif not missing(kind, k in gt, k in gq):
            tr = (t[k], q[k])
            ctx.eq("other samples", got[i],
                   apply(kind, tr if up else O.inverse(tr), p[j]))


@case("I05", bounds="looked-up transforms of a moving frame of 5 samples "
      "in a static one, either direction, one or two samples missing")
def gaps_lookup(ctx):
    r = ctx.rbm
    t, q = samples(ctx, "m", 5)
    part = ctx.choose("part", ["translation", "rotation"])
    g = gaps_of(ctx, "gap", 5, 3 if part == "translation" else 4)
    gt, gq = (g, {}) if part == "translation" else ({}, g)
    r.register_frame("w")
    s = static(ctx, "s", "w")
    inv = ctx.choose("inverse", [False, True])
    frame(ctx, "m", "s", t, q, GRID, gt, gq, inverse=inv)
    up = ctx.choose("up", [True, False])
    T, R, ts = r.lookup_transform(
        *(("m", "w") if up else ("w", "m")), return_timestamps=True)
    ctx.eq("timestamps", ts, GRID)
    T, R = ctx.nested(T), ctx.nested(R)
    for k in range(5):
        tr = (t[k], q[k])
        tr = O.compose(s, O.inverse(tr) if inv else tr)
        tr = tr if up else O.inverse(tr)
        if k not in gt and k not in gq:
            ctx.eq("translation", T[k], tr[0])
        if k not in gq:
            ctx.eq("rotation", O.rotm(R[k]), O.rotm(tr[1]))
        elif gq[k] is None:
            ctx.eq("missing rotation", R[k], [NAN] * 4)
        if k in gt and gt[k] is None:
            ctx.eq("missing translation", T[k], [NAN] * 3)


@case("I05", params=[dict(other=o) for o in ("moving", "events")],
      bounds="data through two frames of 5 samples or 3 events each, one of "
             "which has missing samples")
def gaps_two_frames(ctx, other):
    r = ctx.rbm
    kind = ctx.choose("kind", ["points", "vectors"])
    times = GRID[1:4]
    p = ctx.mat("p", 3, 3)
    t, q = samples(ctx, "m", 5)
    ev = GRID if other == "moving" else [0.5, 2.5, 6.0]
    u, v = samples(ctx, "e", len(ev))
    which = ctx.choose("which", ["m", "e"])
    part = ctx.choose("part", ["translation", "rotation"])
    g = {ctx.choose("gap", range(5 if which == "m" else len(ev))): None}
    gs = {(w, x): g if (w, x) == (which, part) else {}
          for w in "me" for x in ("translation", "rotation")}
    r.register_frame("w")
    frame(ctx, "m", "w", t, q, GRID, gs["m", "translation"],
          gs["m", "rotation"])
    below = ctx.choose("below", [True, False])
    frame(ctx, "e", "m" if below else "w", u, v, ev, gs["e", "translation"],
          gs["e", "rotation"], discrete=other == "events")
    out = ctx.nested(tf(r, kind)(
        ctx.array(p), into="w" if below else "m", outof="e",
        timestamps=_np.array(times)))
    for i, x in enumerate(times):
        k = at(GRID, x)
        e = held(ev, x) if other == "events" else k
        tm, te = (t[k], q[k]), (u[e], v[e])
        tr = O.compose(tm if below else O.inverse(tm), te)
        if missing(kind, k in gs["m", "translation"]
                   or e in gs["e", "translation"],
                   k in gs["m", "rotation"] or e in gs["e", "rotation"]):
            ctx.eq("missing", out[i], [NAN] * 3)
        else:
            ctx.eq("other samples", out[i], apply(kind, tr, p[i]))


@case("I05", params=[dict(form=f) for f in ("array", "quaternion",
                                            "labelled")],
      bounds="5 rotations, one or two wholly or partly missing, "
             "interpolated at their own times in any order; up to one "
             "further dimension")
def gaps_interp(ctx, form):
    r = ctx.rbm
    q = ctx.units("q", 5)
    g = gaps_of(ctx, "gap", 5, 4)
    rows = without(q, g)
    want = ctx.choose("requested", [GRID, GRID[::-1], GRID[1:4], [2.5],
                                    [4.0, 0.0]])
    extra = ctx.choose("columns", [1, 2])
    if extra == 2:
        rows = [[x, y] for x, y in zip(q, rows)]
    a = ctx.array(rows)
    if form == "labelled":
        import xarray as xr

        ctx.mod("accessors")
        da = xr.DataArray(a, {"time": GRID}, ("time", *"x"[2 - extra:], "q")
                          if extra == 1 else ("time", "x", "q"))
        out = da.rbm.qinterp(time=want, qdim="q").values
    elif form == "quaternion":
        out = ctx.comp(r.qinterp(ctx.quat(rows), GRID, want))
    else:
        out = r.qinterp(a, GRID, want)
    got = ctx.nested(out)
    for i, x in enumerate(want):
        k = at(GRID, x)
        o = got[i] if extra == 1 else got[i][1]
        if extra == 2:
            ctx.eq("complete column", got[i][0], q[k])
        if k not in g:
            ctx.eq("other samples", o, q[k])
        elif g[k] is None:
            ctx.eq("missing", o, [NAN] * 4)


def turn(q, v):
    return [x / O.norm2(q) for x in O.rot(q, v)]


@case("I05", bounds="row by row functions (rotation of vectors, products and "
      "inverses of quaternions, shortest arc) on 3 rows of which one is "
      "wholly missing in either argument")
def gaps_rows(ctx):
    r = ctx.rbm
    f = ctx.choose("function", ["rotate", "rotate all", "qmul", "qinv",
                                "arc"])
    g = {ctx.choose("gap", range(3)): None}
    which = ctx.choose("which", [0, 1])
    v = ctx.mat("v", 3, 3)
    ax = ctx.choose("axis", [-1, 0])
    lay = (lambda rows: ctx.array(moved(oarr(rows, (3,)), ax)))
    if f == "rotate":
        q = [nz(ctx, f"q{i}") for i in range(3)]
        args = [without(q, g), v] if which else [q, without(v, g)]
        out = r.rotate_vectors(lay(args[0]), lay(args[1]), axis=ax, qaxis=ax)
        full = [turn(a, b) for a, b in zip(q, v)]
    elif f == "rotate all":
        q = [nz(ctx, "q0")]
        which = 0
        out = r.rotate_vectors(
            ctx.array(q), lay(without(v, g)), axis=ax, one_to_one=False)
        out = out[0]
        full = [turn(q[0], b) for b in v]
    elif f == "qmul":
        a = [nz(ctx, f"a{i}") for i in range(3)]
        b = [nz(ctx, f"b{i}") for i in range(3)]
        args = [without(a, g), b] if which else [a, without(b, g)]
        out = r.qmul(lay(args[0]), lay(args[1]), qaxis=ax)
        full = [O.qmul(x, y) for x, y in zip(a, b)]
    elif f == "qinv":
        a = [nz(ctx, f"a{i}") for i in range(3)]
        out = r.qinv(lay(without(a, g)), qaxis=ax)
        full = [[x / O.norm2(y) for x in O.qconj(y)] for y in a]
    else:
        s = ctx.reals("s", 3)
        for x in s:
            ctx.assume(x > 0)
        a = [[x, 0, 0] for x in s]
        b = [[4, 0, 0], [0, 3, 0], [0, 0, 2]]
        args = [without(a, g), b] if which else [a, without(b, g)]
        out = r.shortest_arc_rotation(lay(args[0]), lay(args[1]), axis=ax)
        full = None
    got = ctx.nested(out)
    if ax == 0:
        got = [list(x) for x in zip(*got)]
    for i in range(3):
        if i in g:
            ctx.eq("missing", got[i], [NAN] * len(got[i]))
        elif full is not None:
            ctx.eq("other rows", got[i], full[i])
        else:
            m = O.rot(got[i], a[i])
            ctx.eq("other rows", O.cross(m, b[i]), [0, 0, 0])
            ctx.check("other rows", O.dot(m, b[i]) > 0)


@case("I05", bounds="coordinates of 2 points of which one is wholly missing, "
      "every pair of systems, plain and labelled")
def gaps_coordinates(ctx):
    r = ctx.rbm
    a, b = ctx.choose("systems", [
        ("cartesian", "polar"), ("polar", "cartesian"),
        ("cartesian", "spherical"), ("spherical", "cartesian")])
    d = 2 if "polar" in (a, b) else 3
    if a == "polar":
        p = [pol(ctx, i) for i in range(2)]
    elif a == "spherical":
        p = [sph(ctx, i) for i in range(2)]
    else:
        p = ctx.mat("p", 2, d)
    g = ctx.choose("gap", [0, 1])
    ax = ctx.choose("axis", [-1, 0])
    arr = ctx.array(moved(oarr(without(p, {g: None}), (2,)), ax))
    if ctx.choose("labelled", [False, True]):
        import xarray as xr

        da = xr.DataArray(arr, dims=["time", "axis"] if ax
                          else ["axis", "time"])
        out = r.transform_coordinates(da, b, a, dim="axis").values
    else:
        out = r.transform_coordinates(arr, b, a, axis=ax)
    got = ctx.nested(out)
    if ax == 0:
        got = [list(x) for x in zip(*got)]
    ctx.eq("missing", got[g], [NAN] * d)
    x, y = p[1 - g], got[1 - g]
    if b == "polar":
        is_polar(ctx, x, y)
    elif b == "spherical":
        is_spherical(ctx, x, y)
    else:
        ctx.eq("other rows", y, (from_polar if d == 2 else from_spherical)(
            ctx, x))


@case("I05", params=[dict(kind=k) for k in ("points", "vectors")],
      bounds="one or two data samples at any times in the range of a moving "
             "frame of 3 samples at any times, one of whose translations is "
             "missing")
def gaps_times(ctx, kind):
    r = ctx.rbm
    s = ctx.times("s", 3)
    t = ctx.mat("tm", 3, 3)
    q = ctx.unit("qm")
    x = ctx.times("x", ctx.choose("n", [1, 2]))
    ctx.assume(x[0] >= s[0])
    ctx.assume(x[-1] <= s[-1])
    p = ctx.mat("p", len(x), 3)
    k = ctx.choose("gap", range(3))
    r.register_frame("w")
    r.register_frame("m", "w", ctx.array(without(t, {k: None})),
                     ctx.array([q] * 3), timestamps=ctx.array(s))
    got = ctx.nested(tf(r, kind)(ctx.array(p), into="w", outof="m",
                                 timestamps=ctx.array(x)))
    for v, o, y in zip(x, got, p):
        hit = [i for i in range(3) if ctx.decide(v == s[i])]
        if hit:
            tr = t[hit[0]]
            gone_ = hit[0] == k
        else:
            i = 0 if ctx.decide(v < s[1]) else 1
            tr = O.lerp(t[i], t[i + 1], (v - s[i]) / (s[i + 1] - s[i]))
            gone_ = k in (i, i + 1)
        if kind == "vectors":
            gone_ = False
        ctx.eq("missing" if gone_ else "other times", o,
               [NAN] * 3 if gone_ else apply(kind, (tr, q), y))


@case("I05", bounds="interpolated rotations: 5 or 9 samples of which one or "
      "two are wholly or partly missing, at their own times and between, "
      "float and quaternion dtype, alone and as one of two series")
def gaps_interpolated(ctx):
    r = ctx.rbm
    n = ctx.choose("n", [5, 9])
    times = GRID + [5.0, 5.5, 7.0, 8.0][:n - 5]
    q = ctx.units("q", n)
    g = gaps_of(ctx, "gap", n, 4)
    ask = ctx.choose("ask", ["same", "between", "some"])
    want = {"same": times, "some": times[1::2],
            "between": sorted(times + [0.5, 2.75])}[ask]
    form = ctx.choose("form", ["float", "quat", "columns"])
    rows = without(q, g)
    t, u = _np.array(times), _np.array(want)
    if form == "float":
        got = ctx.nested(r.qinterp(ctx.array(rows), t, u))
    elif form == "quat":
        got = ctx.comp(r.qinterp(ctx.quat(rows), t, u))
    else:
        got = ctx.nested(r.qinterp(ctx.array(
            [list(c) for c in zip(*rows)]), t, u, axis=1, qaxis=0))
        got = [list(c) for c in zip(*got)]
    ctx.same("number", len(got), len(want))
    for i, x in enumerate(want):
        if x not in times:
            continue
        k = at(times, x)
        if k not in g:
            ctx.eq("other samples", got[i], q[k])
        elif g[k] is None:
            ctx.eq("missing sample", got[i], [NAN] * 4)
