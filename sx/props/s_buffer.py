"""S02: the ROS transform buffer."""
import numpy as _np

from sx import oracle as O
from sx import ros
from sx.props.s_msg import head, leaves, q4, v3
from sx.runner import case

UNITS = ("s", "ms", "us", "ns")


def clock(ctx, n, unit, start):
    """n calendar times in the given resolution and their seconds."""
    s = [start, start + 1, start + 3, start + 4][:n]
    return (_np.array(s).astype("timedelta64[s]")
            + _np.datetime64("1970-01-01", "s")).astype(
                f"datetime64[{unit}]"), s


TREES = {
    "static": [("a", "w", 0), ("b", "a", 0), ("c", "w", 0)],
    "moving": [("a", "w", 2), ("b", "a", 3), ("c", "w", 0)],
    "mixed": [("a", "w", 0), ("b", "a", 2), ("c", "b", 0)],
    "single": [("a", "w", 3)],
    "one sample": [("a", "w", 1), ("b", "a", 2), ("c", "w", 1)],
    "root": [],
}


def build(ctx, tree, unit, inverse=False):
    """name -> (parent, ts, [seconds], [(t, q)]), static: seconds None."""
    r = ctx.rbm
    r.register_frame("w")
    out = {}
    for i, (n, p, k) in enumerate(tree):
        if k == 0:
            t, q = ctx.vec3("t" + n), ctx.unit("q" + n)
            r.register_frame(n, p, ctx.array(t), ctx.array(q))
            out[n] = p, None, None, [(t, q)]
            continue
        if unit == "symbolic":
            s = ctx.times("s" + n, k)
            ts = ctx.array(s)
        elif unit == "number":
            s = [1.0 + i, 2.5 + i, 3.0 + i][:k]
            ts = _np.array(s)
        else:
            ts, s = clock(ctx, k, unit, 5 + 2 * i)
        t, q = ctx.mat("t" + n, k, 3), ctx.units("q" + n, k)
        if ctx.choose("event " + n, [False, True]):
            kw = {"discrete": True}
        else:
            kw = {}
        r.register_frame(n, p, ctx.array(t), ctx.array(q), ts, **kw)
        out[n] = p, ts, s, list(zip(t, q))
    return out


@case("S02", params=[dict(tree=t, unit=u) for t in TREES
                     for u in UNITS + ("number", "symbolic")
                     if u == "s" or t in ("moving", "mixed", "one sample")],
      table=ros.table, weight=2,
      bounds="trees of up to 4 frames, static, moving and event-like with "
             "up to 3 samples at calendar times of any resolution, numeric "
             "or symbolic times; exported from any frame of the tree")
def export(ctx, tree, unit):
    r = ctx.rbm
    spec = TREES[tree]
    fr = build(ctx, spec, unit)
    T = ctx.mod("ros.transformer").Transformer
    start = ctx.choose("from", ["w"] + [n for n, p, k in spec])
    T.from_reference_frame(r.registry[start])
    ctx.check("one buffer", len(ctx.ros.buffers) == 1)
    b = ctx.ros.buffers[0]
    static = {n: f for n, f in fr.items() if f[1] is None}
    moving = {n: f for n, f in fr.items() if f[1] is not None}
    ctx.same("static frames",
             sorted(s.d["child_frame_id"] for s in b.static),
             sorted(static))
    for s in b.static:
        n = s.d["child_frame_id"]
        p, ts, sec, ((t, q),) = fr[n]
        leaves(ctx, "static " + n, s, {
            **head(p, 0), "child_frame_id": n,
            **v3("transform.translation", t),
            **q4("transform.rotation", q)})
    ctx.same("moving samples",
             sorted(s.d["child_frame_id"] for s in b.moving),
             sorted(n for n, f in moving.items() for _ in f[2]))
    for n, (p, ts, sec, tq) in moving.items():
        mine = [s for s in b.moving if s.d["child_frame_id"] == n]
        for s, x, (t, q) in zip(mine, sec, tq):
            leaves(ctx, "moving " + n, s, {
                **head(p, x), "child_frame_id": n,
                **v3("transform.translation", t),
                **q4("transform.rotation", q)})
    if moving:
        ctx.check("limited history", b.cache_time is not None)
        if b.cache_time is not None:
            for f in moving.values():
                for g in moving.values():
                    ctx.check("history long enough",
                              b.cache_time.sec >= g[2][-1] - f[2][0]
                              - (0 if ctx.sym else 1e-6))
    else:
        ctx.check("default history", b.cache_time is None)


@case("S02", table=ros.table,
      bounds="a buffer with any given history, filled by hand from static "
             "and moving frames")
def by_hand(ctx):
    r = ctx.rbm
    fr = build(ctx, [("a", "w", 0), ("b", "a", 2)], "ns")
    T = ctx.mod("ros.transformer").Transformer
    c = ctx.real("cache")
    ctx.assume(c > 0)
    tr = T(cache_time=c) if ctx.choose("cache", [True, False]) else T()
    b = ctx.ros.buffers[0]
    if ctx.ros.ctx.choose("cache", [True, False]):
        ctx.eq("history", [b.cache_time.sec], [c])
    else:
        ctx.check("default history", b.cache_time is None)
    tr.set_transforms(r.registry["b"])
    ctx.same("samples", len(b.moving), 2)
    tr.set_transform_static(r.registry["a"])
    ctx.same("statics", len(b.static), 1)
    ctx.eq("static", b.static[0].vec("transform.translation"),
           fr["a"][3][0][0])


STATIC = [("a", "w", 0), ("b", "a", 0), ("c", "w", 0)]


@case("S02", params=[dict(kind=k) for k in (
    "transform", "vector", "point", "quaternion", "pose", "can")],
    table=ros.table,
    bounds="queries of every kind between any two frames of a tree of 4 "
           "static frames, at any or no time, against the package's own "
           "transforms")
def queries(ctx, kind):
    r = ctx.rbm
    build(ctx, STATIC, "ns")
    T = ctx.mod("ros.transformer").Transformer
    tr = T.from_reference_frame(r.registry["a"])
    b = ctx.ros.buffers[0]
    target, source = ctx.choose("frames", [
        ("w", "a"), ("a", "w"), ("c", "a"), ("a", "b"), ("a", "a")])
    time = ctx.real("time")
    how = ctx.choose("how", ["none", "named", "positional"])
    kw = {"time": time} if how == "named" else {}
    tail = (time,) if how == "positional" else ()
    at = 0 if how == "none" else time
    v, q = ctx.vec3("v"), ctx.unit("p")
    if kind == "can":
        ctx.same("possible", tr.can_transform(
            target, source, *tail, **kw), True)
        ctx.same("impossible", tr.can_transform(
            target, "unknown", *tail, **kw), False)
        got = []
    elif kind == "transform":
        got = tr.lookup_transform(target, source, *tail, **kw)
        want = r.lookup_transform(source, target)
    elif kind == "pose":
        got = tr.transform_pose(v, q, target, source, *tail, **kw)
        want = (r.transform_points(ctx.array(v), target, source),
                r.transform_quaternions(ctx.array(q), target, source))
    elif kind == "quaternion":
        got = [tr.transform_quaternion(q, target, source, *tail, **kw)]
        want = [r.transform_quaternions(ctx.array(q), target, source)]
    else:
        fn, ref = {"vector": (tr.transform_vector, r.transform_vectors),
                   "point": (tr.transform_point, r.transform_points)}[kind]
        got = [fn(v, target, source, *tail, **kw)]
        want = [ref(ctx.array(v), target, source)]
    for i, g in enumerate(got):
        ctx.eq(f"{kind} {i}", list(g), ctx.nested(want[i]))
    for qt, qs, s in b.queries[:1]:
        ctx.same("queried frames", (qt, qs), (target, source))
        ctx.eq("queried time", [s], [at])
    # what is handed over for transformation says where and when it is
    ctx.same("handed over", len(ctx.ros.turned),
             int(kind not in ("can", "transform")))
    for frame, s in ctx.ros.turned:
        ctx.same("data in", frame, source)
        ctx.eq("data at", [s], [at])


@case("S02", table=ros.table,
      bounds="queries at the sample times of a moving frame")
def queries_in_time(ctx):
    r = ctx.rbm
    unit = ctx.choose("unit", ["ns", "symbolic"])
    fr = build(ctx, [("a", "w", 2), ("b", "w", 0)], unit)
    tr = ctx.mod("ros.transformer").Transformer.from_reference_frame(
        r.registry["w"])
    k = ctx.choose("sample", [0, 1])
    if unit == "symbolic":
        ctx.assume(fr["a"][2][0] > 0)
    s = fr["a"][2][k]
    t, q = fr["a"][3][k]
    bt, bq = fr["b"][3][0]
    got = tr.lookup_transform("b", "a", s)
    e = O.compose(O.inverse((bt, bq)), (t, q))
    ctx.eq("translation", list(got[0]), e[0])
    ctx.eq("rotation", list(got[1]), e[1])
    v = ctx.vec3("v")
    ctx.eq("point", list(tr.transform_point(v, "b", "a", time=s)),
           O.add(O.rot(e[1], v), e[0]))
