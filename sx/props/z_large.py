"""Long arrays and series: mostly fixed entries, a few of them symbolic."""
import numpy as _np

from sx import oracle as O
from sx.props.a_tree import TURNS
from sx.props.c_coord import from_polar, from_spherical, is_polar, is_spherical
from sx.props.e_est import pair
from sx.props.q_quat import ang, euler, nz, rotn
from sx.props.t_time import ragged
from sx.props.v_velocity import body_rate, gradient
from sx.runner import case


def fixed(ctx, n, d, zero=False):
    """n rows of small whole numbers, none of them zero."""
    rows = []
    for i in range(n):
        v = [(i * (k + 3) + k) % 7 - 3 for k in range(d)]
        v[i % d] = v[i % d] or 2
        rows.append(ctx.exact(v))
    return rows


def spots(n):
    return (0, n // 2, n - 1)


def columns(rows):
    return [list(c) for c in zip(*rows)]


def laid(ctx, rows, layout):
    """The rows as (array, axis of the components)."""
    if layout == "columns":
        return ctx.array(columns(rows)), 0
    a = ctx.array(rows)
    if layout == "blocks":
        a = a.reshape((2, len(rows) // 2, len(rows[0])))
    return a, -1


def unlaid(out, layout, n):
    if layout == "columns":
        out = out.swapaxes(0, 1)
    return out.reshape((n, out.shape[-1]))


LAYOUTS = ["rows", "columns", "blocks"]
SIZES = [dict(n=n) for n in (16, 130, 1100)]


def looked_at(n):
    """Rows that are compared: all of them in short arrays."""
    return range(n) if n <= 130 else sorted(
        {0, 1, 2, 127, 128, n // 3, n // 2, n - 2, n - 1})


@case("Q01", params=SIZES,
      bounds="16 to 1100 quaternions, three of them symbolic: inverses and "
             "products of three factors, as rows, columns, blocks and "
             "quaternion dtype")
def many_quaternions(ctx, n):
    r = ctx.rbm
    a, b, c = fixed(ctx, n, 4), fixed(ctx, n, 4)[::-1], fixed(ctx, n, 4)
    c = c[n // 3:] + c[:n // 3]
    for i in spots(n):
        a[i], b[i] = nz(ctx, "a%d" % i), nz(ctx, "b%d" % i)
    how = ctx.choose("layout", LAYOUTS + ["quat"])
    if how == "quat":
        inv = ctx.comp(r.qinv(ctx.quat(a)))
        out = ctx.comp(r.qmul(ctx.quat(a), ctx.quat(b), ctx.quat(c)))
    else:
        (A, ax), (B, _), (C, _) = [laid(ctx, x, how) for x in (a, b, c)]
        inv, out = r.qinv(A, qaxis=ax), r.qmul(A, B, C, qaxis=ax)
        inv, out = [ctx.nested(unlaid(x, how, n)) for x in (inv, out)]
    for i in looked_at(n):
        ctx.eq("inverse", O.qmul(inv[i], a[i]), [1, 0, 0, 0])
        ctx.eq("product", out[i], O.qmul(O.qmul(a[i], b[i]), c[i]))


@case("Q02", params=SIZES,
      bounds="16 to 1100 quaternions or vectors, three of them symbolic: "
             "pairwise, one rotation for all, all rotations of one vector, "
             "and every combination of 16 by 24")
def many_vectors(ctx, n):
    r = ctx.rbm
    how = ctx.choose("how", ["pairs", "one rotation", "one vector", "all"])
    m = n
    if how == "all":
        n, m = 16, 24
    q, v = fixed(ctx, n, 4), fixed(ctx, m, 3)
    for i in spots(n):
        q[i] = nz(ctx, "q%d" % i)
    for i in spots(m):
        v[i] = ctx.vec3("v%d" % i)
    if how == "one rotation":
        q = q[:1]
    if how == "one vector":
        v = v[:1]
    lay = ctx.choose("layout", ["rows", "columns"])
    V, ax = laid(ctx, v, lay)
    Q, qax = laid(ctx, q, ctx.choose("qlayout", ["rows", "columns"]))
    if how == "all":
        out = r.rotate_vectors(Q, V, axis=ax, qaxis=qax, one_to_one=False)
        if lay == "columns":
            out = out.swapaxes(1, 2)
        ctx.shape("all", out, (n, m, 3))
        todo = [((i, j), i, j) for i in range(n) for j in (0, 1, 12, 23)]
    else:
        out = r.rotate_vectors(Q, V, axis=ax, qaxis=qax)
        k = max(len(q), len(v))
        ctx.shape("each", out, (k, 3) if lay == "rows" else (3, k))
        out = unlaid(out, lay, k)
        todo = [(i, i if len(q) > 1 else 0, i if len(v) > 1 else 0)
                for i in looked_at(k)]
    for at, i, j in todo:
        ctx.eq("q v q^-1", [O.norm2(q[i]) * x for x in ctx.nested(out[at])],
               rotn(q[i], v[j]))


@case("Q04", params=[dict(n=n) for n in (20, 150)],
      bounds="long series: 20 and 150 samples, three of them symbolic, "
             "interpolated at all samples, at every third and at as many "
             "times again in between; rows, columns and quaternion dtype, "
             "float and calendar times")
def long_interpolation(ctx, n):
    r = ctx.rbm
    t = ragged(n, 3, ctx.choose("calendar", [False, True]))
    q = [ctx.exact(TURNS[(3 * i) % 5]) for i in range(n)]
    for i in spots(n):
        q[i] = ctx.unit("q%d" % i)
    what = ctx.choose("times", ["samples", "third", "more"])
    if what == "more":
        u = _np.sort(_np.concatenate([t, t[1:] - (t[1:] - t[:-1]) / 4]))
    else:
        u = t[::3] if what == "third" else t.copy()
    how = ctx.choose("layout", ["rows", "columns", "quat"])
    if how == "quat":
        out = ctx.comp(r.qinterp(ctx.quat(q), t, u))
    elif how == "rows":
        out = ctx.nested(r.qinterp(ctx.array(q), t, u))
    else:
        out = columns(ctx.nested(r.qinterp(ctx.array(columns(q)), t, u,
                                           axis=1, qaxis=0)))
    ctx.eq("one rotation per time", len(out), len(u))
    at = {x: i for i, x in enumerate(t)}
    for k, x in enumerate(u):
        if x in at:
            ctx.eq("the sample", out[k], q[at[x]])
        elif k % 7 == 0:
            ctx.eq("unit length", O.norm2(out[k]), 1)


@case("Q05", params=SIZES,
      bounds="16 to 1100 triples of angles, three of them symbolic and the "
             "others zero, all six orders, as rows and columns, both result "
             "forms")
def many_angles(ctx, n):
    import itertools

    r = ctx.rbm
    order = ctx.choose("order", ["".join(p) for p in
                                 itertools.permutations("rpy")])
    rows = [ctx.exact([0.0] * 3) for _ in range(n)]
    for i in spots(n):
        rows[i] = [ang(ctx, "%s%d" % (c, i)) for c in "rpy"]
    lay = ctx.choose("layout", ["rows", "columns"])
    x, ax = laid(ctx, rows, lay)
    if ctx.choose("quat", [False, True]):
        out = ctx.comp(r.from_euler_angles(x, axis=ax, order=order,
                                           return_quaternion=True))
    else:
        out = ctx.nested(unlaid(
            r.from_euler_angles(x, axis=ax, order=order), lay, n))
    for i in range(n):
        ctx.eq("product of rotations", out[i],
               euler(ctx, dict(zip("rpy", rows[i])), order)
               if i in spots(n) else [1, 0, 0, 0])


def _coordinates(ctx, n, d, forth, back, to, inside, conv):
    r = ctx.rbm
    rows = [ctx.exact([0.0] * (d - 1) + [float(i % 5)]) for i in range(n)]
    for i in spots(n):
        rows[i] = ctx.reals("p%d" % i, d)
    lay = ctx.choose("layout", LAYOUTS)
    a, ax = laid(ctx, rows, lay)
    out = getattr(r, forth)(a, axis=ax)
    again = getattr(r, back)(out, axis=ax)
    out, again = [ctx.nested(unlaid(x, lay, n)) for x in (out, again)]
    for i in range(n):
        if i in spots(n):
            inside(ctx, rows[i], out[i])
        ctx.eq("there and back", again[i], rows[i], tol=1e-6)


@case("C01", params=SIZES,
      bounds="16 to 1100 points, three of them symbolic, to polar and back, "
             "as rows, columns and blocks")
def many_points(ctx, n):
    _coordinates(ctx, n, 2, "cartesian_to_polar", "polar_to_cartesian",
                 "polar", is_polar, from_polar)


@case("C02", params=SIZES,
      bounds="16 to 1100 points, three of them symbolic, to spherical and "
             "back, as rows, columns and blocks")
def many_points_spherical(ctx, n):
    _coordinates(ctx, n, 3, "cartesian_to_spherical",
                 "spherical_to_cartesian", "spherical", is_spherical,
                 from_spherical)


@case("E01", params=SIZES,
      bounds="16 to 1100 pairs of vectors, one of them symbolic and the "
             "others parallel, as rows and columns")
def many_arcs(ctx, n):
    r = ctx.rbm
    a = [ctx.exact(x) for x in ([2, 0, 0], [0, 3, 0], [0, 0, 4])]
    b = [ctx.exact(x) for x in ([4, 0, 0], [0, 0.5, 0], [0, 0, 1])]
    v, w = [a[i % 3] for i in range(n)], [b[i % 3] for i in range(n)]
    k = ctx.choose("at", list(spots(n)))
    v[k], w[k] = pair(ctx)
    lay = ctx.choose("layout", ["rows", "columns"])
    (V, ax), (W, _) = laid(ctx, v, lay), laid(ctx, w, lay)
    out = ctx.nested(unlaid(r.shortest_arc_rotation(V, W, axis=ax), lay, n))
    one = ctx.nested(r.shortest_arc_rotation(ctx.array(v[k]),
                                             ctx.array(w[k])))
    for i in range(n):
        ctx.eq("vector by vector", out[i], one if i == k else [1, 0, 0, 0])


@case("V01", params=[dict(n=n) for n in (40, 200)],
      bounds="long series: 40 and 200 positions on an irregular grid, three "
             "of them symbolic, as rows and columns, plain and labelled, "
             "float and calendar times")
def long_track(ctx, n):
    import xarray as xr

    r = ctx.rbm
    t = ragged(n, 2, False)
    p = fixed(ctx, n, 3)
    for i in spots(n):
        p[i] = ctx.vec3("p%d" % i)
    ts = ragged(n, 2, True) if ctx.choose("calendar", [False, True]) else t
    lay = ctx.choose("layout", ["rows", "columns"])
    a, ax = laid(ctx, p, lay)
    if ctx.choose("labelled", [False, True]):
        dims = ("time", "q") if lay == "rows" else ("q", "time")
        v = r.estimate_linear_velocity(xr.DataArray(a, {"time": ts}, dims),
                                       dim="q", timestamps="time").data
    else:
        v = r.estimate_linear_velocity(a, axis=ax, timestamps=ts,
                                       time_axis=0 if lay == "rows" else 1)
    v = ctx.nested(unlaid(v, lay, n))
    e = gradient(p, ctx.exact(t - t[0]))
    for i in range(n):
        ctx.eq("gradient", v[i], e[i], tol=1e-5)


@case("V02", params=[dict(n=n) for n in (20, 60)],
      bounds="long series: 20 and 60 rotations on an irregular grid, one of "
             "them symbolic, as rows and columns, plain and labelled")
def long_turn(ctx, n):
    import xarray as xr

    r = ctx.rbm
    t = ragged(n, 2, False)
    q = [ctx.exact(TURNS[(3 * i) % 5]) for i in range(n)]
    q[n // 2] = ctx.unit("q")
    lay = ctx.choose("layout", ["rows", "columns"])
    a, ax = laid(ctx, q, lay)
    if ctx.choose("labelled", [False, True]):
        dims = ("time", "q") if lay == "rows" else ("q", "time")
        w = r.estimate_angular_velocity(xr.DataArray(a, {"time": t}, dims),
                                        dim="q", timestamps="time").data
    else:
        w = r.estimate_angular_velocity(a, axis=ax, timestamps=t,
                                        time_axis=0 if lay == "rows" else 1)
    w = ctx.nested(unlaid(w, lay, n))
    ctx.eq("body rate", w, body_rate(ctx, q, ctx.exact(t)), tol=1e-6)
