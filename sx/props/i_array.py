"""I: the array and labelled-array interface of the transforms."""
import itertools

import numpy as _np

from sx import oracle as O
from sx.props.a_tree import apply, tf
from sx.props.t_time import moving, static
from sx.runner import case

KINDS = ("points", "vectors", "quaternions")


def take(nested, idx):
    for i in idx:
        nested = nested[i]
    return nested


def expected(kind, data, shp, ax, tax, keep, trs):
    """Nested list: every vector along `ax` transformed on its own.

    trs: one transform, or {input time index: transform}; keep: input time
    indices that remain.
    """
    nd = len(shp)
    oshape = list(shp)
    if tax is not None:
        oshape[tax] = len(keep)
    out = _np.empty(oshape, dtype=object)
    rest = [range(n) if i != ax else [None] for i, n in enumerate(oshape)]
    for idx in itertools.product(*rest):
        src = list(idx)
        if tax is not None:
            src[tax] = keep[idx[tax]]
            tr = trs[src[tax]] if isinstance(trs, dict) else trs
        else:
            tr = trs
        vec = []
        for k in range(shp[ax]):
            src[ax] = k
            vec.append(take(data, src))
        res = apply(kind, tr, vec)
        o = list(idx)
        for k in range(shp[ax]):
            o[ax] = k
            out[tuple(o)] = res[k]
    return out.tolist()


SHAPES = {
    # other dimensions, in order; the spatial axis is inserted
    "v": (),
    "n": (2,),
    "n3": (3,),
    "n4": (4,),
    "nm": (2, 4),
    "mn": (4, 2),
    "n1": (1,),
    "n1m": (1, 2),
}


@case("I01", params=[dict(kind=k, other=o) for k in KINDS for o in SHAPES],
      bounds="arrays of 1-3 dimensions, extra dimensions of length 1-4, "
             "every spatial axis from either end, static frames, both "
             "directions, functions and methods")
def static_layouts(ctx, kind, other):
    r = ctx.rbm
    r.register_frame("w")
    S = static(ctx, "S", "w")
    d = 4 if kind == "quaternions" else 3
    shp = SHAPES[other]
    nd = len(shp) + 1
    ax = ctx.choose("axis", list(range(nd)))
    neg = ctx.choose("neg", [False, True])
    shp = shp[:ax] + (d,) + shp[ax:]
    data = ctx.block("p", shp)
    p = ctx.array(data)
    src, dst = ctx.choose("dir", [("S", "w"), ("w", "S")])
    tr = S if src == "S" else O.inverse(S)
    form = ctx.choose("form", ["function", "method"])
    axis = ax - nd if neg else ax
    kw = {}
    if form == "function":
        if ax == nd - 1 and neg and ctx.choose("omit", [True, False]):
            pass
        else:
            kw["axis"] = axis
        # a time axis without timestamps has no meaning
        if nd > 1 and ctx.choose("stray", [False, True]):
            kw["time_axis"] = 1 if ax != 1 else 0
        out = tf(r, kind)(p, into=dst, outof=src, **kw)
    else:
        out = getattr(r.registry[src], "transform_" + kind)(
            p, dst, axis=axis)
    ctx.eq("every vector on its own", out,
           expected(kind, data, shp, ax, None, None, tr))


@case("I01", params=[dict(kind=k, other=o, frame=f) for k in KINDS
                     for o in ("t", "tn", "nt", "t4", "4t")
                     for f in ("static", "moving", "events")],
      bounds="timestamped arrays of 2-3 dimensions (time length 3, extra "
             "dimension 2 or 4), every placement of spatial and time axis "
             "from either end, static, moving and event frames")
def timed_layouts(ctx, kind, other, frame):
    r = ctx.rbm
    r.register_frame("w")
    t_in = _np.array([0.0, 1.0, 2.0])
    if frame == "static":
        S = static(ctx, "S", "w")
        trs, keep = {i: S for i in range(3)}, [0, 1, 2]
    elif frame == "moving":
        A = moving(ctx, "S", _np.array([-1.0, 0.0, 1.0]), "w")
        trs = {0: (A[0][1], A[1][1]), 1: (A[0][2], A[1][2])}
        keep = [0, 1]
    else:
        A = moving(ctx, "S", _np.array([1.0, 5.0]), "w", discrete=True)
        a = (A[0][0], A[1][0])
        trs, keep = {i: a for i in range(3)}, [0, 1, 2]
    d = 4 if kind == "quaternions" else 3
    other = {"t": (3,), "tn": (3, 2), "nt": (2, 3), "t4": (3, 4),
             "4t": (4, 3)}[other]
    tpos = other.index(3)
    nd = len(other) + 1
    ax = ctx.choose("axis", list(range(nd)))
    shp = other[:ax] + (d,) + other[ax:]
    tax = tpos if tpos < ax else tpos + 1
    neg = ctx.choose("neg", [(0, 0), (1, 0), (0, 1), (1, 1)])
    data = ctx.block("p", shp)
    form = ctx.choose("form", ["function", "method"])
    src, dst = ctx.choose("dir", [("S", "w"), ("w", "S")])
    if src == "w":
        trs = {k: O.inverse(v) for k, v in trs.items()}
    kw = dict(axis=ax - nd if neg[0] else ax,
              time_axis=tax - nd if neg[1] else tax, timestamps=t_in,
              return_timestamps=True)
    if form == "function":
        out, ts = tf(r, kind)(ctx.array(data), into=dst, outof=src, **kw)
    else:
        out, ts = getattr(r.registry[src], "transform_" + kind)(
            ctx.array(data), dst, **kw)
    ctx.same("timestamps", list(ts), [t_in[i] for i in keep])
    ctx.eq("every vector on its own", out,
           expected(kind, data, shp, ax, tax, keep, trs))


@case("I01", params=[dict(kind=k) for k in KINDS],
      bounds="arrays of 1-3 dimensions without timestamps through a frame of "
             "2-3 samples, every spatial axis from either end")
def untimed_through_motion(ctx, kind):
    r = ctx.rbm
    r.register_frame("w")
    n = ctx.choose("n", [2, 3])
    disc = ctx.choose("discrete", [False, True])
    A = moving(ctx, "A", _np.arange(float(n)), "w", discrete=disc)
    d = 4 if kind == "quaternions" else 3
    other = ctx.choose("other", [(), (1,), (2,), (3,), (2, 1), (3, 2)])
    nd = len(other) + 1
    ax = ctx.choose("axis", list(range(nd)))
    shp = other[:ax] + (d,) + other[ax:]
    data = ctx.block("p", shp)
    src, dst = ctx.choose("dir", [("A", "w"), ("w", "A")])
    neg = ctx.choose("neg", [False, True])
    axis = ax - nd if neg else ax
    if nd == 1 and neg:
        out, ts = getattr(r.registry[src], "transform_" + kind)(
            ctx.array(data), dst, return_timestamps=True)
    else:
        out, ts = tf(r, kind)(ctx.array(data), into=dst, outof=src,
                              axis=axis, return_timestamps=True)
    trs = [(A[0][i], A[1][i]) for i in range(n)]
    if src == "w":
        trs = [O.inverse(x) for x in trs]
    ctx.same("timestamps", list(ts), [float(i) for i in range(n)])
    ctx.eq("every sample", out,
           [expected(kind, data, shp, ax, None, None, x) for x in trs])


def spelled(x, form):
    """Nested lists as lists or tuples."""
    if isinstance(x, (list, tuple)):
        return (tuple if form == "tuples" else list)(
            spelled(y, form) for y in x)
    return x


@case("I01", params=[dict(kind=k, frame=f) for k in KINDS
                     for f in ("static", "moving", "events")],
      bounds="frames, timestamps and data of one or 3 samples given as "
             "lists or tuples; both directions, functions and methods")
def sequences(ctx, kind, frame):
    r = ctx.rbm
    form = ctx.choose("form", ["lists", "tuples"])

    def f(x):
        return spelled(x, form)

    inv = ctx.choose("inverse", [False, True])
    d = 4 if kind == "quaternions" else 3
    r.register_frame("w")
    n = 1 if frame == "static" else 2
    t, q = ctx.mat("t", n, 3), ctx.units("q", n)
    kw = {"inverse": inv}
    ft = [-1.0, 1.0]
    if frame == "static":
        r.register_frame("S", "w", f(t[0]), f(q[0]), **kw)
    else:
        if frame == "events":
            kw["discrete"] = True
        else:
            ft = [0.0, 2.0]
        r.register_frame("S", "w", f(t), f(q), f(ft), **kw)
    trs = [(a, b) for a, b in zip(t, q)]
    if inv:
        trs = [O.inverse(x) for x in trs]
    src, dst = ctx.choose("dir", [("S", "w"), ("w", "S")])
    if src == "w":
        trs = [O.inverse(x) for x in trs]
    what = ctx.choose("data", ["one", "many", "timed"])
    call = tf(r, kind) if ctx.choose("by", ["function", "method"]) == \
        "function" else None

    def go(x, **kw):
        if call is None:
            return getattr(r.registry[src], "transform_" + kind)(
                x, dst, **kw)
        return call(x, into=dst, outof=src, **kw)

    if what == "one":
        p = ctx.reals("p", d)
        e = [apply(kind, x, p) for x in trs]
        ctx.eq("one", go(f(p)), e[0] if frame == "static" else e)
    elif what == "many":
        p = ctx.mat("p", 3, d)
        e = [[apply(kind, x, y) for y in p] for x in trs]
        ctx.eq("many", go(f(p)), e[0] if frame == "static" else e)
    else:
        p = ctx.mat("p", 3, d)
        ts = [0.0, 1.0, 2.0] if frame != "moving" else [0.0, 2.0, 2.5]
        k = {"static": [0, 0, 0], "moving": [0, 1], "events": [0, 1, 1]}[
            frame]
        ctx.eq("timed", go(f(p), timestamps=f(ts)),
               [apply(kind, trs[j], y) for j, y in zip(k, p)])
