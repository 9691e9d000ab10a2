"""V: velocities estimated from, looked up in and transformed between frames.
"""
import itertools
import math

import numpy as _np

from sx import oracle as O
from sx.props.a_tree import apply, tf
from sx.props.t_time import moving, static
from sx.runner import case

T4 = _np.array([0.0, 1.0, 2.5, 3.0])


def gradient(p, t):
    """Finite differences: parabola inside, straight at the ends."""
    n = len(p)
    s = [O.scale(1 / (t[i + 1] - t[i]), O.sub(p[i + 1], p[i]))
         for i in range(n - 1)]
    out = [s[0]]
    for i in range(1, n - 1):
        a, b = t[i] - t[i - 1], t[i + 1] - t[i]
        # slope at i of the parabola through three samples
        out.append(O.scale(1 / (a + b), O.add(O.scale(b, s[i - 1]),
                                              O.scale(a, s[i]))))
    return out + [s[-1]]


# ---------------------------------------------------------------- V01
@case("V01", params=[dict(n=n, _tier="quick" if n < 5 else "thorough")
                     for n in (2, 3, 4, 5, 6)],
      bounds="gradient of 2-4 (6 in the thorough tier) samples at symbolic, "
             "irregular times")
def linear_gradient(ctx, n):
    r = ctx.rbm
    t = ctx.times("t", n)
    p = ctx.mat("p", n, 3)
    v = r.estimate_linear_velocity(ctx.array(p), timestamps=ctx.array(t))
    ctx.eq("gradient", v, gradient(p, t))


@case("V01", params=[dict(n=n, _tier="quick" if n < 5 else "thorough")
                     for n in (2, 3, 4, 5)],
      bounds="uniform and quadratic motion, sums and rescaled time; 2-4 (5 in "
             "the thorough tier) samples at symbolic times")
def linear_laws(ctx, n):
    r = ctx.rbm
    t = ctx.times("t", n)
    a, b, c = ctx.vec3("a"), ctx.vec3("b"), ctx.vec3("c")

    def est(p, s):
        return ctx.nested(r.estimate_linear_velocity(
            ctx.array(p), timestamps=ctx.array(s)))

    p = [O.add(a, O.scale(x, b)) for x in t]
    ctx.eq("constant velocity", est(p, t), [b] * n)
    p = [O.add(u, O.scale(x * x, c)) for u, x in zip(p, t)]
    ctx.eq("accelerated motion, inner samples", est(p, t)[1:-1],
           [O.add(b, O.scale(2 * x, c)) for x in t[1:-1]])
    p, q = ctx.mat("p", n, 3), ctx.mat("q", n, 3)
    k = ctx.real("k")
    ctx.eq("linear",
           est([O.add(O.scale(k, x), y) for x, y in zip(p, q)], t),
           [O.add(O.scale(k, x), y) for x, y in zip(est(p, t), est(q, t))])
    ctx.assume(k > 0)
    ctx.eq("time scale", [O.scale(k, v) for v in
                          est(p, [k * x for x in t])], est(p, t))


UNITS = ("s", "ms", "us", "ns")


def stamps(unit, n=4):
    return (_np.datetime64("2000-01-01T00:00:00", unit)
            + (T4[:n] * 1000).astype("timedelta64[ms]")).astype(
                f"datetime64[{unit}]")


def whole(unit, n=4):
    """Whole seconds, exactly representable in every resolution."""
    return (_np.datetime64("2000-01-01T00:00:00")
            + _np.array([0, 1, 3, 4])[:n].astype("timedelta64[s]")).astype(
                f"datetime64[{unit}]")


@case("V01", bounds="calendar timestamps of second to nanosecond resolution, "
      "plain and labelled")
def linear_calendar(ctx):
    import xarray as xr

    r = ctx.rbm
    p = ctx.mat("p", 4, 3)
    unit = ctx.choose("unit", UNITS)
    if ctx.choose("labelled", [False, True]):
        da = xr.DataArray(ctx.array(p), {"time": whole(unit)}, ("time", "q"))
        v = r.estimate_linear_velocity(
            da, **ctx.choose("ts", [{}, {"timestamps": "time"}])).data
    else:
        v = r.estimate_linear_velocity(ctx.array(p), timestamps=whole(unit))
    ctx.eq("per second", v, gradient(p, ctx.exact([0, 1, 3, 4])), tol=1e-5)


def layouts_of(ctx, nd, n, d, vals):
    """An (n, [m], d) block in every axis order, plain or labelled.

    Returns (argument, keyword arguments, permutation, labelled).
    """
    import xarray as xr

    perm = ctx.choose("perm", list(itertools.permutations(range(nd))))
    a = _np.array(vals, dtype=object).transpose(perm)
    ax, tax = perm.index(nd - 1), perm.index(0)
    if ctx.choose("labelled", [False, True]):
        names = ["time"] + ["n"] * (nd - 2) + ["q"]
        dims = [names[i] for i in perm]
        da = xr.DataArray(
            ctx.array(a.tolist()),
            {"time": T4[:n], "q": list("wxyz"[4 - d:])}, dims, "thing",
            {"units": "m"})
        how = ctx.choose("how", ["dim", "axis"])
        kw = {"dim": "q"} if how == "dim" else {"axis": ax}
        if tax and how == "axis":
            kw["time_axis"] = tax
        elif tax or ctx.choose("named", [False, True]):
            kw["timestamps"] = "time"
        return da, kw, perm, True
    if ctx.choose("negative", [False, True]):
        # a negative time axis counts from the end
        ax, tax = ax - nd, tax - nd
    return ctx.array(a.tolist()), dict(
        axis=ax, time_axis=tax, timestamps=T4[:n]), perm, False


@case("V01", params=[dict(nd=2), dict(nd=3)],
      bounds="2- and 3-dimensional position arrays of 3 samples in every axis "
             "order, plain and labelled")
def linear_layouts(ctx, nd):
    r = ctx.rbm
    shape = (3,) + (2,) * (nd - 2) + (3,)
    vals = ctx.block("p", shape)
    arr, kw, perm, lab = layouts_of(ctx, nd, 3, 3, vals)
    v = r.estimate_linear_velocity(arr, **kw)
    flat = [[x for m in (row if nd == 3 else [row]) for x in m]
            for row in vals]
    want = _np.array(gradient(flat, ctx.exact(T4[:3])),
                     dtype=object).reshape(shape).transpose(perm)
    labelled_result(ctx, v, arr, lab, want)


def labelled_result(ctx, v, arr, lab, want, spatial=("x", "y", "z"),
                    dim="q"):
    if lab:
        dims = tuple(dim if x == "q" else x for x in arr.dims)
        ctx.same("dimensions", tuple(v.dims), dims)
        ctx.same("times", list(v.coords["time"].values),
                 list(arr.coords["time"].values))
        ctx.same("axis labels", list(v.coords[dim].values), list(spatial))
        ctx.same("name and attributes", (v.name, dict(v.attrs)),
                 (arr.name, dict(arr.attrs)))
        v = v.data
    ctx.eq("values", v, want.tolist())


def between(t, v, keep, k):
    """Interpolation at sample k of the kept samples; None outside."""
    lo = [i for i in keep if i <= k]
    hi = [i for i in keep if i >= k]
    if not lo or not hi:
        return None
    i, j = lo[-1], hi[0]
    if i == j:
        return v[i]
    w = (t[k] - t[i]) / (t[j] - t[i])
    return O.lerp(v[i], v[j], w)


@case("V01", params=[dict(n=4), dict(n=5),
                     dict(n=6, _tier="thorough")],
      bounds="outlier suppression in 4-5 (6) samples of motion along one "
             "direction and any threshold, all axis orders, plain and "
             "labelled")
def linear_outliers(ctx, n):
    suppressed(ctx, n)


@case("V01", params=[dict(n=4, k=k) for k in (0, 1, 2)]
      + [dict(n=5, k=k, _tier="thorough") for k in range(4)],
      bounds="outlier suppression with the change of a sample exactly at "
             "the threshold, positions that are whole numbers")
def linear_outlier_limit(ctx, n, k):
    suppressed(ctx, n, k)


def suppressed(ctx, n, tie=None):
    r = ctx.rbm
    import xarray as xr

    ts = _np.array([0.0, 1.0, 2.5, 3.0, 4.0, 6.0][:n])
    t = ctx.exact(ts)
    x = ctx.reals("x", n) if tie is None else ctx.ints("x", n)
    u = [0.0, 3.0, -4.0]
    p = [O.scale(v, u) for v in x]
    bend = [abs_(ctx, 5 * (x[i + 2] - 2 * x[i + 1] + x[i]))
            for i in range(n - 2)]
    change = []
    for k in range(n):
        s = 0.0
        if k < n - 2:
            s = s + bend[k]
        if 1 <= k < n - 1:
            s = s + bend[k - 1]
        change.append(s)
    if tie is None:
        th = ctx.real("threshold")
    else:
        th = change[tie]
    ctx.assume(th > 0)
    form = ctx.choose("form", ["plain", "columns", "labelled"])
    kind = {}
    if form == "plain":
        v = ctx.outcome(r.estimate_linear_velocity, ctx.array(p),
                        timestamps=ts.copy(), outlier_thresh=th)
    elif form == "columns":
        v = ctx.outcome(
            r.estimate_linear_velocity, ctx.array(O_T(p)), axis=0,
            time_axis=1, timestamps=ts.copy(), outlier_thresh=th)
    else:
        v = ctx.outcome(
            r.estimate_linear_velocity,
            xr.DataArray(ctx.array(O_T(p)), {"time": ts},
                         ("q", "time")),
            dim="q", timestamps="time", outlier_thresh=th)
    keep = []
    for k, s in enumerate(change):
        if not ctx.sym and tie is None:
            ctx.assume(abs(s - th) > 1e-9)
        if ctx.decide(s <= th):
            keep.append(k)
    kind, v = v
    # the last sample is never flagged
    if len(keep) < 2:
        return
    ctx.check(f"estimated {v!r}"[:80] if kind != "ok" else "estimated",
              kind == "ok")
    if kind != "ok":
        return
    v = ctx.nested(v.data if form == "labelled" else v)
    if form != "plain":
        v = O_T(v)
    g = gradient(p, t)
    for k in range(n):
        e = between(t, g, keep, k)
        if e is None:
            ctx.eq(f"sample {k} is unknown", v[k], [math.nan] * 3)
        else:
            ctx.eq(f"sample {k}" + ("" if k in keep else ", suppressed"),
                   v[k], e)


def smoothing(n, cutoff):
    """Zero-phase 7th-order Butterworth low-pass as an n x n matrix."""
    import scipy.signal as S

    return S.filtfilt(*S.butter(7, cutoff), _np.eye(n), axis=0).tolist()


def smoothed(ctx, rows, cutoff):
    f = smoothing(len(rows), cutoff)
    out = []
    for w in f:
        w = ctx.exact(w)
        out.append([sum((a * b for a, b in zip(w, c)), 0.0)
                    for c in zip(*rows)])
    return out


def long_times(n):
    """Regular but for two gaps."""
    t = _np.arange(float(n))
    t[5:] += 0.5
    t[17:] += 1.0
    return t


@case("V01", params=[dict(n=25), dict(n=30, _tier="thorough")],
      bounds="low-pass filtering of 25 (30) samples of motion along one "
             "direction, two cut-off frequencies, all axis orders, plain and "
             "labelled")
def linear_filtered(ctx, n):
    import xarray as xr

    r = ctx.rbm
    ts = long_times(n)
    x = ctx.reals("x", n)
    p = [[v, 3.0, -2 * v] for v in x]
    c = ctx.choose("cutoff", [0.1, 0.45])
    form = ctx.choose("form", ["plain", "columns", "labelled"])
    kw = dict(cutoff=c)
    if form == "plain":
        v = r.estimate_linear_velocity(ctx.array(p), timestamps=ts, **kw)
    elif form == "columns":
        v = r.estimate_linear_velocity(
            ctx.array(O_T(p)), axis=0, time_axis=1, timestamps=ts, **kw)
    else:
        v = r.estimate_linear_velocity(
            xr.DataArray(ctx.array(O_T(p)), {"time": ts}, ("q", "time")),
            dim="q", timestamps="time", **kw).data
    v = ctx.nested(v)
    if form != "plain":
        v = O_T(v)
    ctx.eq("filtered gradient", v,
           smoothed(ctx, gradient(p, ctx.exact(ts)), c), tol=1e-6)


def O_T(rows):
    return [list(c) for c in zip(*rows)]


def abs_(ctx, v):
    return v if ctx.decide(v >= 0) else -v


# ---------------------------------------------------------------- V02
def body_rate(ctx, q, t):
    """Twice the conjugate times the derivative, vector part."""
    d = ctx.derivative(q, t)
    return [O.scale(2, O.qmul(O.qconj(a), b)[1:]) for a, b in zip(q, d)]


@case("V02", params=[dict(n=4), dict(n=5),
                     dict(n=6, _tier="thorough"),
                     dict(n=8, _tier="thorough")],
      bounds="unit quaternion series of 4-5 (8) samples at symbolic times")
def angular_formula(ctx, n):
    r = ctx.rbm
    t = ctx.times("t", n)
    q = ctx.units("q", n)

    def est(x, **k):
        return r.estimate_angular_velocity(
            ctx.array(x), timestamps=ctx.array(t), **k)

    w = est(q)
    ctx.eq("estimate", w, body_rate(ctx, q, t))
    ctx.eq("constant rotation", est([q[0]] * n), [[0, 0, 0]] * n)
    c = ctx.unit("c")
    ctx.eq("reference offset", est([O.qmul(c, x) for x in q]), w)
    ctx.eq("moving offset", est([O.qmul(x, c) for x in q]),
           [O.rot(O.qconj(c), x) for x in ctx.nested(w)])


@case("V02", params=[dict(n=2), dict(n=3), dict(n=4)],
      bounds="rotation-vector mode on 2-4 samples")
def angular_rotvec(ctx, n):
    r = ctx.rbm
    t = ctx.times("t", n)
    q = ctx.units("q", n)
    w = r.estimate_angular_velocity(
        ctx.array(q), timestamps=ctx.array(t), mode="rotation_vector")
    ctx.eq("estimate", w, gradient([ctx.rotvec(x) for x in q], t))
    ctx.raises("unknown mode", ValueError, r.estimate_angular_velocity,
               ctx.array(q), timestamps=ctx.array(t), mode="other")


@case("V02", params=[dict(n=5), dict(n=6)],
      bounds="one or two missing samples of 5-6, wholly or partly missing, "
             "both layouts")
def angular_missing(ctx, n):
    r = ctx.rbm
    t = ctx.times("t", n)
    q = ctx.units("q", n)
    gone = ctx.choose("gone", [(i,) for i in range(n)] + (
        list(itertools.combinations(range(n), 2)) if n > 5 else []))
    part = ctx.choose("part", ["all", "one"])
    a = [list(x) for x in q]
    for i in gone:
        a[i] = [math.nan if part == "all" or j == i % 4 else v
                for j, v in enumerate(a[i])]
    if ctx.choose("columns", [False, True]):
        w = O_T(ctx.nested(r.estimate_angular_velocity(
            ctx.array(O_T(a)), timestamps=ctx.array(t), axis=0,
            time_axis=1)))
    else:
        w = ctx.nested(r.estimate_angular_velocity(
            ctx.array(a), timestamps=ctx.array(t)))
    ok = [i for i in range(n) if i not in gone]
    ctx.eq("others", [w[i] for i in ok],
           body_rate(ctx, [q[i] for i in ok], [t[i] for i in ok]))
    ctx.eq("missing", [w[i] for i in gone], [[math.nan] * 3] * len(gone))


@case("V02", bounds="calendar timestamps of second to nanosecond resolution, "
      "plain and labelled")
def angular_calendar(ctx):
    import xarray as xr

    r = ctx.rbm
    q = ctx.units("q", 4)
    unit = ctx.choose("unit", UNITS)
    mode = ctx.choose("mode", ["quaternion", "rotation_vector"])
    if ctx.choose("labelled", [False, True]):
        da = xr.DataArray(ctx.array(q), {"time": whole(unit)}, ("time", "q"))
        w = r.estimate_angular_velocity(da, mode=mode).data
    else:
        w = r.estimate_angular_velocity(ctx.array(q), timestamps=whole(unit),
                                        mode=mode)
    t = ctx.exact([0, 1, 3, 4])
    want = body_rate(ctx, q, t) if mode == "quaternion" else gradient(
        [ctx.rotvec(x) for x in q], t)
    ctx.eq("per second", w, want, tol=1e-5)


@case("V02", params=[dict(nd=2, mode="quaternion"),
                     dict(nd=3, mode="quaternion"),
                     dict(nd=2, mode="rotation_vector"),
                     dict(nd=3, mode="rotation_vector")],
      bounds="2- and 3-dimensional quaternion arrays of 4 samples in every "
             "axis order, plain and labelled")
def angular_layouts(ctx, nd, mode):
    r = ctx.rbm
    shape = (4,) + (2,) * (nd - 2) + (4,)
    k = 2 if nd == 3 else 1
    q = [ctx.units(f"q{i}_", k) for i in range(4)]
    vals = q if nd == 3 else [x[0] for x in q]
    arr, kw, perm, lab = layouts_of(ctx, nd, 4, 4, vals)
    w = r.estimate_angular_velocity(arr, mode=mode, **kw)
    t = ctx.exact(T4)
    each = []
    for j in range(k):
        s = [x[j] for x in q]
        each.append(body_rate(ctx, s, t) if mode == "quaternion"
                    else gradient([ctx.rotvec(x) for x in s], t))
    want = _np.array([[each[j][i] for j in range(k)] for i in range(4)],
                     dtype=object).reshape(shape[:-1] + (3,)).transpose(perm)
    labelled_result(ctx, w, arr, lab, want, dim="cartesian_axis")


@case("V02", params=[dict(mode="quaternion"), dict(mode="rotation_vector")],
      bounds="low-pass filtering of 25 samples of which one has any "
             "rotation, two cut-off frequencies, both layouts")
def angular_filtered(ctx, mode):
    r = ctx.rbm
    n = 25
    ts = long_times(n)
    q = [[1.0, 0.0, 0.0, 0.0] for _ in range(n)]
    q[ctx.choose("turned", [0, 9])] = ctx.unit("q")
    c = ctx.choose("cutoff", [0.1, 0.45])
    kw = dict(timestamps=ts, cutoff=c, mode=mode)
    if ctx.choose("columns", [False, True]):
        w = O_T(ctx.nested(r.estimate_angular_velocity(
            ctx.array(O_T(q)), axis=0, time_axis=1, **kw)))
    else:
        w = r.estimate_angular_velocity(ctx.array(q), **kw)
    t = ctx.exact(ts)
    want = body_rate(ctx, q, t) if mode == "quaternion" else gradient(
        [ctx.rotvec(x) for x in q], t)
    ctx.eq("filtered", w, smoothed(ctx, want, c), tol=1e-6)


SPINS = [
    # angles about one axis, in rad
    ([0.0, 0.0, 0.0, 1.1, 0.0, 0.0], (0, 0, 1)),
    ([0.0, 0.1, 0.25, 0.9, 0.5, 0.55], (0, 0, 1)),
    ([0.5, 0.45, 0.1, 0.15, 0.6, -0.4, 0.3], (0, -0.8, 0.6)),
]


@case("V02", params=[dict(s=s, mode=m, tie=False) for s in range(len(SPINS))
                     for m in ("quaternion", "rotation_vector")]
      + [dict(s=s, mode="quaternion", tie=True) for s in (0,)],
      bounds="outlier suppression with any threshold, also exactly the "
             "change of a sample, in three series of 6-7 rotations about "
             "one axis, both layouts, plain and labelled")
def angular_outliers(ctx, s, mode, tie):
    import quaternion as Q
    import xarray as xr

    r = ctx.rbm
    angles, axis = SPINS[s]
    n = len(angles)
    ts = _np.array([0.0, 1.0, 2.5, 3.0, 4.0, 6.0, 6.5][:n])
    q = _np.array([[math.cos(a / 2)] + [math.sin(a / 2) * x for x in axis]
                   for a in angles])
    rv = Q.as_rotation_vector(Q.as_quat_array(q))
    bend = _np.linalg.norm(_np.diff(rv, n=2, axis=0), axis=-1)
    change = [0.0] * n
    for k in range(n):
        if k < n - 2:
            change[k] += bend[k]
        if 1 <= k < n - 1:
            change[k] += bend[k - 1]
    if tie:
        th = float(ctx.choose("tie", sorted(set(change) - {0.0})))
    else:
        th = ctx.real("threshold")
        ctx.assume(th > 0)
        # rounding of the changes aside
        for c in change:
            ctx.assume(ctx.Or(c - th > 1e-6, th - c > 1e-6))
    form = ctx.choose("form", ["plain", "columns", "labelled"])
    kw = dict(outlier_thresh=th, mode=mode)
    if form == "plain":
        kind, v = ctx.outcome(r.estimate_angular_velocity, q.copy(),
                              timestamps=ts.copy(), **kw)
    elif form == "columns":
        kind, v = ctx.outcome(r.estimate_angular_velocity, q.T.copy(),
                              axis=0, time_axis=1, timestamps=ts.copy(), **kw)
    else:
        kind, v = ctx.outcome(
            r.estimate_angular_velocity, xr.DataArray(
                q.T.copy(), {"time": ts}, ("q", "time")),
            dim="q", timestamps="time", **kw)
    keep = [k for k, c in enumerate(change) if ctx.decide(c <= th)]
    if len(keep) < 2:
        return
    ctx.check("estimated" if kind == "ok" else f"estimated {v!r}"[:80],
              kind == "ok")
    if kind != "ok":
        return
    v = ctx.nested(v.data if form == "labelled" else v)
    if form != "plain":
        v = O_T(v)
    t = ctx.exact(ts)
    g = ctx.nested(body_rate(
        ctx, [ctx.exact(x) for x in q], t)) if mode == "quaternion" \
        else gradient([ctx.exact(x) for x in rv], t)
    for k in range(n):
        e = between(t, g, keep, k)
        ctx.eq(f"sample {k}" + ("" if k in keep else ", suppressed"), v[k],
               [math.nan] * 3 if e is None else e, tol=1e-6)


# ---------------------------------------------------------------- V03
FIXED = {"S": [0.5, -0.5, 0.5, 0.5], "D": [0.5, 0.5, 0.5, -0.5]}
TURNS = _np.array([[0.5, 0.5, -0.5, 0.5], [1, 0, 0, 0],
                   [0.5, -0.5, -0.5, -0.5], [0, 0.0, -1, 0]])


def scene(ctx, free=True):
    """w - S - N(t), w - M(t) - D: S and D static.

    With ``free`` false, S, D and N turn in one particular way (their
    offsets stay arbitrary), which keeps the polynomials small.
    """
    r = ctx.rbm
    r.register_frame("w")

    def rest(name, parent):
        if free:
            static(ctx, name, parent)
        else:
            r.register_frame(name, parent, ctx.array(ctx.vec3("t" + name)),
                             _np.array(FIXED[name]))

    rest("S", "w")
    moving(ctx, "M", T4.copy(), "w")
    rest("D", "M")
    if free:
        moving(ctx, "N", T4.copy(), "S")
    else:
        r.register_frame("N", "S", ctx.array(ctx.mat("tN", 4, 3)),
                         TURNS.copy(), T4.copy())
    return T4.tolist()


TRIPLES = [("M", "w", "w"), ("M", "w", "S"), ("M", "w", "M"),
           ("M", "w", "D"), ("D", "w", "w"), ("w", "M", "M"),
           ("w", "M", "S"), ("M", "S", "w"), ("M", "N", "w"),
           ("M", "N", "N"), ("D", "N", "S"), ("M", "w", "N"),
           ("N", "D", "M")]


def truth(ctx, frame, ref, rep, n=4):
    """Velocities from the looked-up transform, nested lists."""
    r = ctx.rbm
    f = r.registry[frame]
    t = ctx.exact(T4[:n])

    def every(x, k):
        x = ctx.nested(x)
        return x if isinstance(x[0], list) else [x] * k

    tr, q, _ = f.lookup_transform(ref)
    tr, q = every(tr, n), every(q, n)
    a = every(r.registry[ref].lookup_transform(rep)[1], n)
    b = every(f.lookup_transform(rep)[1], n)
    lin = [O.rot(x, v) for x, v in zip(a, gradient(tr, t))]
    ang = [O.rot(x, v) for x, v in zip(b, body_rate(ctx, q, t))] \
        if n >= 4 else None
    return lin, ang


@case("V03", params=[dict(triple=i, free=f,
                          _tier="thorough" if f else "quick")
                     for i in range(len(TRIPLES)) for f in (False, True)],
      bounds="13 combinations of moving, reference and representation frame "
             "in a tree with two moving branches of 4 samples on a common "
             "grid; function and method forms, all output forms")
def lookups(ctx, triple, free):
    r = ctx.rbm
    t = scene(ctx, free)
    f, ref, rep = TRIPLES[triple]
    lin, ang = truth(ctx, f, ref, rep)
    form = ctx.choose("form", ["function", "objects", "method", "labelled"])
    if form == "labelled":
        ds = r.lookup_twist(f, ref, rep, as_dataset=True)
        a = r.lookup_linear_velocity(f, ref, rep, as_dataarray=True)
        b = r.lookup_angular_velocity(f, ref, rep, as_dataarray=True)
        for da in (ds, a, b):
            ctx.same("times", [float(x) for x in da.coords["time"].values],
                     t)
        ctx.eq("linear of twist", ds.linear_velocity.data, lin)
        ctx.eq("angular of twist", ds.angular_velocity.data, ang)
        ctx.eq("linear", a.data, lin)
        ctx.eq("angular", b.data, ang)
        ctx.same("units", (a.attrs["units"], b.attrs["units"]),
                 ("m/s", "rad/s"))
        return
    if form == "function":
        fns = [lambda *x, m=m, **k: getattr(r, m)(f, ref, rep, *x, **k)
               for m in LOOK]
    elif form == "objects":
        o = [r.registry[x] for x in (f, ref, rep)]
        fns = [lambda *x, m=m, **k: getattr(r, m)(*o, *x, **k)
               for m in LOOK]
    else:
        fns = [lambda *x, m=m, **k: getattr(r.registry[f], m)(
            ref, rep, *x, **k) for m in LOOK]
    if ctx.choose("stamped", [True, False]):
        l2, a2, t2 = fns[0](return_timestamps=True)
        l1, tl = fns[1](return_timestamps=True)
        a1, ta = fns[2](return_timestamps=True)
        for x in (t2, tl, ta):
            ctx.same("times", [float(v) for v in ctx.nested(x)], t)
    else:
        l2, a2 = fns[0]()
        l1, a1 = fns[1](), fns[2]()
    ctx.eq("linear of twist", l2, lin)
    ctx.eq("angular of twist", a2, ang)
    ctx.eq("linear", l1, lin)
    ctx.eq("angular", a1, ang)


LOOK = ("lookup_twist", "lookup_linear_velocity", "lookup_angular_velocity")


@case("V03", bounds="defaults of reference and representation frame, in "
      "function and method form, by name and as object")
def lookup_defaults(ctx):
    r = ctx.rbm
    scene(ctx, False)
    m = ctx.choose("method", LOOK)
    f = ctx.choose("frame", ["M", "N", "D"])
    if f == "D":
        # parent M at rest: reference given, representation defaults
        got = getattr(r, m)("D", "w")
        lin, ang = truth(ctx, "D", "w", "w")
        form = "function"
    else:
        par = {"M": "w", "N": "S"}[f]
        form = ctx.choose("form", ["function", "method", "half", "method2"])
        rep = par
        if form == "function":
            got = getattr(r, m)(f)
        elif form == "half":
            rep = "w"
            got = getattr(r, m)(f, represent_in="w")
        elif form == "method":
            got = getattr(r.registry[f], m)()
        else:
            got = getattr(r.registry[f], m)("w")
            par, rep = "w", par
        lin, ang = truth(ctx, f, par, rep)
    if m == LOOK[0]:
        ctx.eq("linear of twist", got[0], lin)
        ctx.eq("angular of twist", got[1], ang)
    else:
        ctx.eq("velocity", got, lin if m == LOOK[1] else ang)


@case("V03", bounds="frames at rest to each other, refused or allowed")
def lookup_static(ctx):
    r = ctx.rbm
    scene(ctx, False)
    m = ctx.choose("method", LOOK)
    f, ref = ctx.choose("frames", [("S", "w"), ("D", "M"), ("w", "S"),
                                   ("S", "S"), ("M", "M"), ("D", "D")])
    rep = ctx.choose("rep", ["w", "M"])
    ctx.raises("function", ValueError, getattr(r, m), f, ref, rep)
    o = getattr(r.registry[f], m)
    ctx.raises("method", ValueError, o, ref, rep)
    got = o(ref, rep, allow_static=True, return_timestamps=True)
    for g in got[:-1]:
        ctx.eq("zero", g, [0, 0, 0])
    ctx.check("no time", got[-1] is None)
    ctx.raises("root has no parent", (ValueError, TypeError),
               getattr(r.registry["w"], m))


@case("V03", params=[dict(mode="linear"), dict(mode="rotation_vector"),
                     dict(mode="turns"), dict(mode="filter")],
      bounds="optional outlier suppression, rotation-vector mode and low-pass "
             "filter reach the estimates; 4-6 samples, 25 if filtered")
def lookup_options(ctx, mode):
    r = ctx.rbm
    r.register_frame("w")
    if mode == "linear":
        # one spike, of any size, in a resting frame
        h = ctx.real("h")
        ctx.assume(h > 1)
        n = 6
        p = [[0.0, 0.0, 0.0] for _ in range(n)]
        p[3] = [h, 0.0, 0.0]
        t = _np.arange(float(n))
        r.register_frame("M", "w", ctx.array(p), ctx.array(
            ctx.units("q", n)), t)
        want = r.estimate_linear_velocity(ctx.array(p), timestamps=t,
                                          outlier_thresh=0.5)
        ctx.eq("suppressed", want, [[0, 0, 0]] * n)
        form = ctx.choose("form", ["f", "m", "twist", "mtwist"])
        M = r.registry["M"]
        if form == "f":
            v = r.lookup_linear_velocity("M", outlier_thresh=0.5)
        elif form == "m":
            v = M.lookup_linear_velocity(outlier_thresh=0.5)
        elif form == "twist":
            v = r.lookup_twist("M", outlier_thresh=0.5)[0]
        else:
            v = M.lookup_twist(outlier_thresh=0.5)[0]
        ctx.eq("option passed on", v, want)
        return
    if mode == "turns":
        # one jump of the rotation, and any positions: the threshold of a
        # twist is one for positions, that of an angular velocity for
        # rotations
        n = 6
        p = [[ctx.real("x"), 0.0, 0.0]] * n
        q = _np.zeros((n, 4))
        q[:, 0] = 1.0
        q[3] = [0.0, 0.0, 0.6, 0.8]
        t = _np.arange(float(n))
        r.register_frame("M", "w", ctx.array(p), q, t)
        M = r.registry["M"]
        form = ctx.choose("form", ["f", "m", "twist", "mtwist"])
        kw = dict(represent_in="M", outlier_thresh=0.5)
        want = r.estimate_angular_velocity(
            q, timestamps=t,
            outlier_thresh=None if "twist" in form else 0.5)
        if form == "f":
            v = r.lookup_angular_velocity("M", **kw)
        elif form == "m":
            v = M.lookup_angular_velocity(**kw)
        else:
            lin, v = (r.lookup_twist("M", **kw) if form == "twist"
                      else M.lookup_twist(**kw))
            ctx.eq("at rest", lin, [[0, 0, 0]] * n)
        ctx.eq("threshold for rotations", v, want)
        return
    if mode == "filter":
        n = 25
        p = [[x, 1.0, 2.0] for x in ctx.reals("x", n)]
        q = _np.zeros((n, 4))
        q[:, 0] = 1.0
        q[3] = [0.0, 0.0, 0.0, 1.0]
        t = _np.arange(float(n))
        r.register_frame("M", "w", ctx.array(p), q, t)
        M = r.registry["M"]
        kw = dict(represent_in="M", cutoff=0.3)
        form = ctx.choose("form", ["linear", "angular", "twist"])
        who = ctx.choose("method", [False, True])
        f = getattr(M if who else r, "lookup_" + (
            form if form == "twist" else form + "_velocity"))
        out = f(**kw) if who else f("M", **kw)
        tw = form == "twist"
        if form != "angular":
            lin = r.estimate_linear_velocity(ctx.array(p), timestamps=t,
                                             cutoff=0.3)
            k = [O.rot(O.qconj(x), v)
                 for x, v in zip(q.tolist(), ctx.nested(lin))]
            ctx.eq("filtered linear", out[0] if tw else out, k, tol=1e-6)
        if form != "linear":
            ang = r.estimate_angular_velocity(q, timestamps=t, cutoff=0.3)
            ctx.eq("filtered angular", out[1] if tw else out, ang, tol=1e-6)
        return
    q = ctx.units("q", 4)
    r.register_frame("M", "w", ctx.array(ctx.mat("p", 4, 3)), ctx.array(q),
                     T4.copy())
    want = gradient([ctx.rotvec(x) for x in q], ctx.exact(T4))
    form = ctx.choose("form", ["f", "m", "twist", "mtwist"])
    M = r.registry["M"]
    kw = dict(mode="rotation_vector", represent_in="M")
    if form == "f":
        v = r.lookup_angular_velocity("M", **kw)
    elif form == "m":
        v = M.lookup_angular_velocity(**kw)
    elif form == "twist":
        v = r.lookup_twist("M", **kw)[1]
    else:
        v = M.lookup_twist(**kw)[1]
    ctx.eq("mode passed on", v, want)


@case("V03", bounds="moving branches on different grids (4 and 5 samples): "
      "twist, linear and angular velocity agree at common times")
def lookup_grids(ctx):
    r = ctx.rbm
    r.register_frame("w")
    moving(ctx, "M", _np.arange(5.0), "w")
    moving(ctx, "N", _np.array([0.5, 1.0, 2.0, 3.0]), "w")
    static(ctx, "D", "M")
    f, ref, rep = ctx.choose("frames", [
        ("M", "w", "N"), ("D", "w", "N"), ("N", "w", "M")])
    lin, ang, ts = r.lookup_twist(f, ref, rep, return_timestamps=True)
    l1, tl = r.lookup_linear_velocity(f, ref, rep, return_timestamps=True)
    a1, ta = r.lookup_angular_velocity(f, ref, rep, return_timestamps=True)
    ts, tl, ta = [[float(x) for x in ctx.nested(x)] for x in (ts, tl, ta)]
    ctx.check("times", set(ts) <= set(tl) & set(ta) and len(ts) > 1)
    for i, x in enumerate(ts):
        ctx.eq("linear", ctx.nested(lin)[i], ctx.nested(l1)[tl.index(x)])
        ctx.eq("angular", ctx.nested(ang)[i], ctx.nested(a1)[ta.index(x)])
    # each is the estimate on the frame's own samples, rotated
    own = r.lookup_linear_velocity(f, ref, return_timestamps=True)
    v, tv = r.transform_vectors(own[0], rep, ref, timestamps=own[1],
                                return_timestamps=True)
    ctx.eq("linear in its frame", l1, v)


# ---------------------------------------------------------------- V04
def relative(ctx, a, b, n=4):
    """Velocity of a with respect to b, in b; zero if at rest."""
    r = ctx.rbm
    tr, q, ts = r.registry[a].lookup_transform(b)
    if ts is None:
        return [[0, 0, 0]] * n, [[0, 0, 0]] * n
    t = ctx.exact(T4[:n])
    tr, q = ctx.nested(tr), ctx.nested(q)
    return gradient(tr, t), [O.rot(x, w) for x, w in
                             zip(q, body_rate(ctx, q, t))]


def series(ctx, a, b, n=4):
    """Translation and rotation from a to b at every time."""
    t, q, ts = ctx.rbm.registry[a].lookup_transform(b)
    t, q = ctx.nested(t), ctx.nested(q)
    return ([t] * n, [q] * n) if ts is None else (t, q)


PAIRS = [("M", "w"), ("w", "M"), ("S", "w"), ("w", "S"), ("M", "D"),
         ("D", "w"), ("S", "M"), ("w", "w"), ("M", "N")]


@case("V04", params=[dict(pair=i, what=w, free=f, _tier="thorough" if f
                          and i in (5, 6, 8) else "quick")
                     for i in range(len(PAIRS))
                     for w in ("reference_frame", "moving_frame",
                               "representation_frame")
                     for f in ((False, True) if i in (5, 6, 8)
                               else (True,))],
      bounds="angular velocities, 4 samples or one vector, between 9 pairs "
             "of frames at rest or moving on a common grid")
def angular_kinematics(ctx, pair, what, free):
    scene(ctx, free)
    a, b = PAIRS[pair]
    w = ctx.mat("w", 4, 3)
    _, q = series(ctx, a, b)
    want = [O.rot(x, v) for x, v in zip(q, w)]
    if what == "reference_frame":
        want = [O.add(x, y) for x, y in zip(want, relative(ctx, a, b)[1])]
    elif what == "moving_frame":
        # b with respect to a, in b
        want = [O.add(x, y) for x, y in zip(want, [
            O.rot(p, v) for p, v in zip(q, relative(ctx, b, a)[1])])]
    check_forms(ctx, "transform_angular_velocity", w, a, b, want,
                {"what": what})


def check_forms(ctx, fn, w, a, b, want, kw):
    """Function, method and labelled form with timestamps."""
    import xarray as xr

    r = ctx.rbm
    form = ctx.choose("form", ["function", "method", "labelled"])
    if form == "function":
        out, ts = getattr(r, fn)(
            ctx.array(w), b, a, timestamps=T4.copy(),
            return_timestamps=True, **kw)
    elif form == "method":
        out, ts = getattr(r.registry[a], fn)(
            ctx.array(w), b, timestamps=T4.copy(),
            return_timestamps=True, **kw)
    else:
        da = xr.DataArray(ctx.array(w), {"time": T4.copy()}, ("time", "q"))
        out = getattr(r, fn)(da, b, a, **kw)
        ts, out = out.coords["time"].values, out.data
    ctx.same("times", [float(x) for x in ctx.nested(ts)],
             [float(x) for x in T4])
    ctx.eq("velocity", out, want)


# (from, to, other frame)
LINEAR = [("M", "w", "D"), ("w", "M", "D"), ("S", "w", "M"),
          ("w", "S", "S"), ("M", "D", "w"), ("D", "w", "N"),
          ("w", "w", "M"), ("M", "N", "D"), ("D", "M", "D"),
          ("w", "S", "N")]


@case("V04", params=[dict(triple=i, what=w, free=f,
                          _tier="thorough" if f else "quick")
                     for i in range(len(LINEAR))
                     for w in ("reference_frame", "moving_frame",
                               "representation_frame")
                     for f in (False, True)],
      bounds="linear velocities, 4 samples, 10 triples of frames")
def linear_kinematics(ctx, triple, what, free):
    scene(ctx, free)
    a, b, c = LINEAR[triple]
    v = ctx.mat("v", 4, 3)
    _, q = series(ctx, a, b)
    want = [O.rot(x, y) for x, y in zip(q, v)]
    kw = {"what": what}
    if what == "reference_frame":
        # c moves; a's velocity and rotation with respect to b, in b
        lin, ang = relative(ctx, a, b)
        lever = [O.rot(x, y) for x, y in zip(q, series(ctx, c, a)[0])]
        kw["moving_frame"] = c
    elif what == "moving_frame":
        # b moves with respect to a, both observed from c
        lin = [O.rot(x, y) for x, y in zip(q, relative(ctx, b, a)[0])]
        _, to_b = series(ctx, c, b)
        ang = [O.rot(x, y) for x, y in zip(to_b, relative(ctx, a, c)[1])]
        lever = [O.rot(x, y) for x, y in zip(q, series(ctx, b, a)[0])]
        kw["reference_frame"] = c
    if what != "representation_frame":
        want = [O.add(x, O.add(y, O.cross(w, z)))
                for x, y, w, z in zip(want, lin, ang, lever)]
    check_forms(ctx, "transform_linear_velocity", v, a, b, want, kw)


@case("V04", params=[dict(fn=f, what=w) for f in ("angular", "linear")
                     for w in ("reference_frame", "moving_frame",
                               "representation_frame")],
      bounds="arrays of 1-3 dimensions between static and moving frames, "
             "every axis order, negative axes; 4 samples, 2 or 4 extra "
             "entries")
def velocity_layouts(ctx, fn, what):
    r = ctx.rbm
    scene(ctx, False)
    kw = {"what": what}
    if fn == "linear" and what != "representation_frame":
        kw[{"reference_frame": "moving_frame",
            "moving_frame": "reference_frame"}[what]] = "D"
    f = getattr(r, f"transform_{fn}_velocity")
    a, b = ctx.choose("pair", [("w", "M"), ("S", "w")])
    m = ctx.choose("m", [None, 2, 4])
    k = m or 1
    v = [ctx.mat(f"v{i}_", 4, 3) for i in range(k)]
    each = [ctx.nested(f(ctx.array(x), b, a, timestamps=T4.copy(), **kw))
            for x in v]
    if m is None:
        block = _np.array(v[0], dtype=object)
        want = _np.array(each[0], dtype=object)
    else:
        block = _np.array(v, dtype=object).swapaxes(0, 1)
        want = _np.array(each, dtype=object).swapaxes(0, 1)
    nd = block.ndim
    perm = ctx.choose("perm", list(itertools.permutations(range(nd))))
    ax, tax = perm.index(nd - 1), perm.index(0)
    if ctx.choose("negative", [False, True]):
        ax, tax = ax - nd, tax - nd
    out = f(ctx.array(block.transpose(perm).tolist()), b, a, axis=ax,
            time_axis=tax, timestamps=T4.copy(), **kw)
    ctx.eq("velocity", out, want.transpose(perm).tolist())


@case("V04", params=[dict(fn=f, what=w) for f in ("angular", "linear")
                     for w in ("reference_frame", "moving_frame")],
      bounds="one or two constant velocities without time through static "
             "and moving frames, every axis")
def velocity_untimed(ctx, fn, what):
    r = ctx.rbm
    scene(ctx, False)
    kw = {"what": what}
    f = getattr(r, f"transform_{fn}_velocity")
    v = ctx.vec3("v")
    other = None
    if fn == "linear":
        other = ctx.choose("other", ["S", "D"])
        kw[{"reference_frame": "moving_frame",
            "moving_frame": "reference_frame"}[what]] = other
    a, b = ctx.choose("pair", [("w", "M"), ("S", "w"), ("w", "w")])
    if a != "w" and other != "D" or a == b and other == "S" \
            or a == b and fn == "angular":
        # nothing moves
        n = ctx.choose("n", [None, 2])
        if n is None:
            out = f(ctx.array(v), b, a, **kw)
            timed = ctx.nested(f(ctx.array([v] * 4), b, a,
                                 timestamps=T4.copy(), **kw))
            ctx.eq("constant", out, timed[0])
        else:
            u = ctx.vec3("u")
            ax = ctx.choose("axis", [0, 1, -1, -2])
            rows = [v, u]
            x = rows if ax in (1, -1) else O_T(rows)
            out = ctx.nested(f(ctx.array(x), b, a, axis=ax, **kw))
            out = out if ax in (1, -1) else O_T(out)
            ctx.eq("each", out, [ctx.nested(f(ctx.array(y), b, a, **kw))
                                 for y in rows])
        return
    if ctx.choose("many", [False, True]):
        rows = [v, ctx.vec3("u")]
        ax = ctx.choose("axis", [0, -1])
        out = f(ctx.array(O_T(rows) if ax == 0 else rows), b, a, axis=ax,
                **kw)
        want = _np.array([ctx.nested(f(
            ctx.array([x] * 4), b, a, timestamps=T4.copy(), **kw))
            for x in rows], dtype=object)
        ctx.eq("each as a constant series", out, want.transpose(
            (1, 2, 0) if ax == 0 else (1, 0, 2)).tolist())
        return
    out, ts = f(ctx.array(v), b, a, return_timestamps=True, **kw)
    want = f(ctx.array([v] * 4), b, a, timestamps=T4.copy(), **kw)
    ctx.same("times", [float(x) for x in ctx.nested(ts)],
             [float(x) for x in T4])
    ctx.eq("as a constant series", out, ctx.nested(want))


@case("V04", bounds="velocity data of 2-3 samples inside the range of the "
      "moving frame, not on its grid")
def velocity_grids(ctx):
    r = ctx.rbm
    scene(ctx, False)
    own = ctx.choose("grid", [_np.array([0.5, 2.0]),
                              _np.array([0.0, 2.75, 3.0])])
    fn = ctx.choose("fn", ["angular", "linear"])
    v = ctx.mat("v", len(own), 3)
    kw = {"moving_frame": "S"} if fn == "linear" else {}
    a, b = "M", "w"
    f = getattr(r, f"transform_{fn}_velocity")
    out, ts = f(ctx.array(v), b, a, timestamps=own.copy(),
                return_timestamps=True, **kw)
    ctx.same("times", [float(x) for x in ctx.nested(ts)], own.tolist())
    turned = ctx.nested(r.transform_vectors(
        ctx.array(v), b, a, timestamps=own.copy()))
    lin, ang = relative(ctx, a, b)
    t = ctx.exact(T4)

    def at(rows, x):
        for i in range(3):
            if T4[i] <= x <= T4[i + 1]:
                return O.lerp(rows[i], rows[i + 1], (ctx.exact([x])[0] - t[i])
                              / (t[i + 1] - t[i]))

    if fn == "angular":
        want = [O.add(u, at(ang, x)) for u, x in zip(turned, own)]
    else:
        _, q = series(ctx, a, b)
        lever = [O.rot(x, y) for x, y in zip(q, series(ctx, "S", a)[0])]
        want = [O.add(u, O.add(at(lin, x), O.cross(at(ang, x),
                                                  at(lever, x))))
                for u, x in zip(turned, own)]
    ctx.eq("velocity", out, want)


@case("V04", params=[dict(fn=f) for f in ("angular", "linear")],
      bounds="method form without timestamps in the result, on moving and "
             "static frames; unknown kinds of frame are refused")
def velocity_methods(ctx, fn):
    r = ctx.rbm
    scene(ctx, False)
    a, b = ctx.choose("pair", [("w", "M"), ("S", "w"), ("M", "D")])
    what = ctx.choose("what", ["reference_frame", "moving_frame",
                               "representation_frame", None])
    kw = {} if what is None else {"what": what}
    if fn == "linear" and what != "representation_frame":
        kw["reference_frame" if what == "moving_frame"
           else "moving_frame"] = ctx.choose("other", ["D", "S"])
    v = ctx.mat("v", 4, 3)
    f = getattr(r, f"transform_{fn}_velocity")
    m = getattr(r.registry[a], f"transform_{fn}_velocity")
    want, ts = f(ctx.array(v), b, a, timestamps=T4.copy(),
                 return_timestamps=True, **kw)
    want = ctx.nested(want)
    for to in (b, r.registry[b]):
        got = m(ctx.array(v), to, timestamps=T4.copy(), **kw)
        ctx.eq("velocity alone", got, want)
    got, times = m(ctx.array(v), b, timestamps=T4.copy(),
                   return_timestamps=True, **kw)
    ctx.eq("velocity", got, want)
    ctx.eq("timestamps", times, ts)
    ctx.eq("function form alone", f(
        ctx.array(v), b, a, timestamps=T4.copy(), **kw), want)
    for bad in ("reference", "frame", "", "moving"):
        ctx.raises("kind of frame " + bad, ValueError, m, ctx.array(v), b,
                   what=bad, timestamps=T4.copy())
        ctx.raises("kind of frame " + bad, ValueError, f, ctx.array(v), b,
                   a, what=bad, timestamps=T4.copy())
