"""Long recordings in the ROS tools: a few samples of them symbolic."""
import numpy as _np

from sx import oracle as O
from sx import ros
from sx.props.a_tree import TURNS
from sx.props.s_broadcast import verify
from sx.props.s_marker import points, verify_path
from sx.props.o_track import STARTS, judge, load
from sx.props.o_track import table as track_table
from sx.props.o_track import write as track_file
from sx.props.p_plot import arrow, axes
from sx.props.p_plot import table as plot_table
from sx.props.q_quat import dominant, known, lim_perms
from sx.props.s_bag import (ODO, TF, fill, labelled, reader,
                            same_values, written)
from sx.props.s_bag import table as bag_table
from sx.props.s_msg import head, leaves, q4, v3
from sx.runner import case


def positions(ctx, name, n):
    """n different positions, three of them in two unknown coordinates."""
    rows = [ctx.exact([10 * i, (3 * i) % 11 - 5, (5 * i) % 7 - 3])
            for i in range(n)]
    for i in {0, n // 2, n - 1}:
        rows[i] = [rows[i][0], *ctx.reals(f"{name}{i}", 2)]
    return rows


def turns(n, start=0):
    return [list(TURNS[(start + i) % len(TURNS)]) for i in range(n)]


def seconds(n, start=5):
    """Whole seconds with steps of 1 to 3."""
    out, t = [], start
    for i in range(n):
        out.append(t)
        t += 1 + (i * i) % 3
    return out


def calendar(sec, unit="ns"):
    return (_np.array(sec).astype("timedelta64[s]")
            + _np.datetime64("1970-01-01", "s")).astype(
                f"datetime64[{unit}]")


def below(ctx, n, ts=None):
    """w <- a (static) <- m (moving, n samples) <- s (static)"""
    r = ctx.rbm
    r.register_frame("w")
    r.register_frame("a", "w", ctx.array(ctx.vec3("ta")),
                     ctx.array([0.5, 0.5, 0.5, 0.5]))
    r.register_frame("m", "a", ctx.array(positions(ctx, "m", n)),
                     ctx.array(turns(n)),
                     _np.arange(float(n)) if ts is None else ts)
    r.register_frame("s", "m", ctx.array([1.0, 2.0, 3.0]))


@case("S04", params=[dict(n=n) for n in (12, 33, 100)] + [
          dict(n=400, _tier="thorough")], table=ros.table,
      bounds="paths of 12 to 100 (400 in the thorough tier) samples, limits "
             "from one to beyond the number of samples")
def long_paths(ctx, n):
    r = ctx.rbm
    below(ctx, n)
    M = ctx.mod("ros.visualization").ReferenceFrameMarkerPublisher
    most = ctx.choose("most", [1, 2, 5, n // 2, n // 2 + 1, n - 2, n - 1, n,
                               n + 1, None])
    frame, base = ctx.choose("pair", [("m", None), ("s", "w")])
    p = M(frame, base) if most is None else M(frame, base, max_points=most)
    base = base or r.registry[frame].parent.name
    rows = ctx.nested(r.lookup_transform(frame, base)[0])
    p.publish()
    ctx.same("sent", [t for t, s in ctx.ros.sent], [f"/{frame}/path"])
    for t, s in ctx.ros.sent:
        verify_path(ctx, "path", points(s), rows, most or 1000,
                    True)


@case("S03", params=[dict(unit=u) for u in ("ns", "ms", "number")],
      table=ros.table,
      bounds="publishing by index and on incoming messages at any time out "
             "of 40 samples at uneven times")
def long_publish(ctx, unit):
    r = ctx.rbm
    n = 40
    sec = seconds(n)
    below(ctx, n, _np.array(sec, dtype=float) if unit == "number"
          else calendar(sec, unit))
    B = ctx.mod("ros.transformer").ReferenceFrameTransformBroadcaster
    b = B("m", "w", publish_pose=True)
    tr = [ctx.nested(x) for x in r.lookup_transform("m", "w")[:2]]
    for k in (0, 1, 19, 38, 39):
        del ctx.ros.sent[:]
        b.publish(k)
        verify(ctx, f"sample {k}", ctx.ros.sent, "m", "w", tr, k, sec, True,
               False)
    u = ctx.real("u")
    lo = ctx.choose("between", [0, 7, 20, 37, 38, None])
    if lo is None:
        ctx.assume(u > sec[-1])
    else:
        ctx.assume(u >= sec[lo])
        ctx.assume(u <= sec[lo + 1])
    B("m", "w", subscribe=True)
    from sx.props.s_broadcast import tf_message

    del ctx.ros.sent[:]
    ctx.ros.subscribers[-1].callback(tf_message(["w"], [u]))
    ctx.same("answers", len(ctx.ros.sent), 1)
    k = n - 1
    if lo is not None:
        # either neighbour at equal distance
        d, e = u - sec[lo], sec[lo + 1] - u
        stamp = ctx.ros.sent[0][1].d["header.stamp"]
        k = lo if ctx.decide(stamp == sec[lo]) else lo + 1
        m = 0 if ctx.sym else 1e-6
        ctx.check("nearest", d <= e + m if k == lo else e <= d + m)
    verify(ctx, "nearest", ctx.ros.sent, "m", "w", tr, k, sec, False, False)


@case("S03", table=ros.table,
      bounds="spinning 60 steps over 25 samples, wrapping around twice")
def long_spin(ctx):
    r = ctx.rbm
    n = 25
    sec = seconds(n)
    below(ctx, n, calendar(sec))
    B = ctx.mod("ros.transformer").ReferenceFrameTransformBroadcaster
    b = B("m", "w")
    tr = [ctx.nested(x) for x in r.lookup_transform("m", "w")[:2]]
    left = [60]

    def count():
        left[0] -= 1
        if left[0] == 0:
            b.stop()
        if left[0] < -3:
            raise ros.RosStop("does not stop")

    ctx.ros.on_sleep = count
    b.spin(block=True)
    ctx.same("messages", len(ctx.ros.sent), 60)
    for i, s in enumerate(ctx.ros.sent):
        k = i % n
        verify(ctx, f"step {i}", [s], "m", "w", tr, k, sec, False, False)
        nxt = (k + 1) % n
        if i < len(ctx.ros.slept):
            ctx.eq(f"pause {i}", [ctx.ros.slept[i]],
                   [sec[nxt] - sec[k] if nxt else 0])


@case("S02", params=[dict(shape=s) for s in ("chain", "star", "mixed")],
      table=ros.table,
      bounds="trees of 12 frames in a chain, around the root or both, half "
             "of them moving with 15 to 25 samples")
def large_tree(ctx, shape):
    r = ctx.rbm
    r.register_frame("w")
    names = [f"f{i}" for i in range(12)]
    fr = {}
    for i, n in enumerate(names):
        p = {"chain": names[i - 1] if i else "w", "star": "w",
             "mixed": names[i // 2 - 1] if i > 1 else "w"}[shape]
        if i % 2:
            k = 15 + i - 1
            sec = seconds(k, 3 + i)
            t, q = positions(ctx, n, k), turns(k, i)
            kw = {"discrete": True} if i % 4 == 1 else {}
            r.register_frame(n, p, ctx.array(t), ctx.array(q),
                             calendar(sec, ("ns", "s", "ms")[i % 3]), **kw)
        else:
            sec, t, q = None, [ctx.vec3("t" + n)], [ctx.unit("q" + n)]
            r.register_frame(n, p, ctx.array(t[0]), ctx.array(q[0]))
        fr[n] = p, sec, t, q
    T = ctx.mod("ros.transformer").Transformer
    T.from_reference_frame(r.registry[ctx.choose("from", [
        "w", names[0], names[5], names[11]])])
    b = ctx.ros.buffers[0]
    still = [n for n in names if fr[n][1] is None]
    ctx.same("static", sorted(s.d["child_frame_id"] for s in b.static),
             sorted(still))
    for s in b.static:
        n = s.d["child_frame_id"]
        p, sec, t, q = fr[n]
        leaves(ctx, "static", s, {
            **head(p, 0), "child_frame_id": n,
            **v3("transform.translation", t[0]),
            **q4("transform.rotation", q[0])})
    for n in names:
        p, sec, t, q = fr[n]
        mine = [s for s in b.moving if s.d["child_frame_id"] == n]
        ctx.same("samples of " + n, len(mine), len(sec or []))
        for s, x, a, c in zip(mine, sec or [], t, q):
            leaves(ctx, "moving", s, {
                **head(p, x), "child_frame_id": n,
                **v3("transform.translation", a),
                **q4("transform.rotation", c)})
    span = [x for f in fr.values() for x in f[1] or []]
    ctx.check("history", b.cache_time is not None
              and b.cache_time.sec >= max(span) - min(span)
              - (0 if ctx.sym else 1e-6))


@case("S05", params=[dict(n=n, kind=k) for n in (12, 70)
                     for k in ("plain", "labelled")], table=bag_table,
      bounds="two interleaved topics of 12 and 70 messages each, all "
             "contents, uneven header times, partly decreasing")
def long_topics(ctx, n, kind):
    ctx.rbm
    sec = [t + 0.25 for t in seconds(n)]
    if ctx.choose("times", ["in order", "mixed"]) == "mixed":
        sec = sec[::2] + sec[1::2]
    want = fill(ctx, "/x/r.bag", {"/o": (ODO, n), "/t": (TF, n - 5)},
                times=sec)
    with reader(ctx, "/x/r.bag") as r:
        for topic, w in want.items():
            if kind == "plain":
                got = r.load_messages(topic)
                same_values(ctx, topic, got, w)
                ctx.eq(topic + " times", list(got["timestamps"]), w[1])
            else:
                labelled(ctx, topic, r.load_dataset(topic), w)


@case("S05", params=[dict(n=n) for n in (12, 70)], table=bag_table,
      bounds="12 and 70 written transforms, plain and labelled, of uneven "
             "times")
def long_writing(ctx, n):
    import xarray as xr
    ctx.rbm
    sec = [t + 0.25 for t in seconds(n)]
    p, q = ctx.mat("p", n, 3), ctx.mat("q", n, 4)
    with ctx.mod("ros.io").RosbagWriter("/x/w.bag") as w:
        if ctx.choose("kind", ["plain", "labelled"]) == "plain":
            w.write_transform_stamped(_np.array(sec), ctx.array(p),
                                      ctx.array(q), "/k", "world", "body")
        else:
            ms = (_np.array(sec) * 1000).astype("datetime64[ms]")
            w.write_transform_stamped_dataset(xr.Dataset(
                {"position": (("time", "c"), ctx.array(p)),
                 "orientation": (("time", "d"), ctx.array(q))},
                {"time": ms.astype("datetime64[ns]")}), "/k", "world",
                "body")
    written(ctx, "/x/w.bag", "/k", n, sec, p, q)


@case("O01", params=[dict(bodies=b, frames=f, fmt=x) for b, f, x in (
          (7, 3, "numpy"), (2, 25, "pandas"), (12, 2, "xarray"))],
      table=track_table,
      bounds="files of 2 to 12 rigid bodies with markers between them and 2 "
             "to 25 frames, all coordinates and angles")
def large_files(ctx, bodies, frames, fmt):
    ctx.rbm
    pose = [("Rotation", "XYZ"), ("Position", "XYZ")]
    lay = []
    for i in range(bodies):
        # not in alphabetical order
        lay.append(("Rigid Body", f"Body {(5 * i + 3) % 13}",
                    pose if i % 3 else pose[::-1]))
        if i % 2:
            lay.append(("Marker", f"Body {(5 * i + 3) % 13}:Marker{i}",
                        [("Position", "XYZ")]))
    times = [0.5 * t for t in seconds(frames, 0)]
    units = "Centimeters"
    start = next(iter(STARTS))
    d, p, want = track_file(ctx, lay, times, units, "ZYX", start)
    import shutil
    from fractions import Fraction
    try:
        got = load(ctx, p, fmt)
    finally:
        shutil.rmtree(d)
    judge(ctx, got, want, times, start, "ZYX",
          Fraction(1, 100) if ctx.sym else 0.01, fmt)


@case("P01", params=[dict(n=n) for n in (9, 40)], table=plot_table,
      bounds="9 and 40 points or vectors with base points, of any values")
def many(ctx, n):
    what = ctx.choose("what", ["points", "vectors", "vectors with bases"])
    rows = ctx.mat("p", n, 3)
    ax = axes(ctx)
    a = rows if ctx.choose("as", ["array", "list"]) == "list" \
        else ctx.array(rows)
    if what == "points":
        ctx.rbm.plot.points(a, ax=ax)
        ctx.check("drawn once", len(ax.drawn) == 1)
        for i in range(3):
            ctx.eq("coordinate " + "xyz"[i], list(ax.drawn[0][1][i]),
                   [p[i] for p in rows])
        return
    base = [[0, 0, 0]] * n
    kw = {}
    if what != "vectors":
        base = positions(ctx, "b", n)
        kw["base"] = base if isinstance(a, list) else ctx.array(base)
    ctx.rbm.plot.vectors(a, ax=ax, **kw)
    ctx.check("drawn once", len(ax.drawn) == 1)
    arrow(ctx, "vectors", ax.drawn[0], base, rows, {})


@case("Q03", params=[dict(n=n) for n in (9, 40, 130)],
      bounds="9 to 130 copies of one rotation with mixed signs, of which a "
             "third may be replaced by one other rotation at a right angle")
def mean_of_many(ctx, n):
    from fractions import Fraction

    r = ctx.rbm
    q = ctx.unit("q")
    other = ctx.choose("others", [0, n // 3])
    lim_perms(ctx)
    f = Fraction(other, n) if ctx.sym else other / n
    known(ctx, q, [1 - f, 0, f, 0])
    p = O.qmul(q, [0, 0, 1, 0])
    rows = []
    for i in range(n):
        # the others last, first or in between
        rows.append(O.scale((-1) ** (i // 2), p if i < other else q))
    how = ctx.choose("order", ["first", "last"])
    if how == "last":
        rows.reverse()
    form = ctx.choose("form", ["float", "quat", "columns"])
    if form == "float":
        m = ctx.nested(r.qmean(ctx.array(rows)))
    elif form == "quat":
        m = ctx.comp(r.qmean(ctx.quat(rows)))
    else:
        m = ctx.nested(r.qmean(ctx.array(
            [list(c) for c in zip(*rows)]), qaxis=0))
    dominant(ctx, "mean", m, q)


@case("R01", params=[dict(n=n) for n in (20, 120)],
      bounds="20 and 120 frames registered in a chain or below one, some of "
             "them replaced and removed; transforms between the ends")
def many_frames(ctx, n):
    r = ctx.rbm
    chain = ctx.choose("tree", ["chain", "star"]) == "chain"
    r.register_frame("w")
    t = {}
    for i in range(n):
        t[i] = ctx.vec3(f"t{i}_") if i in (0, n // 2, n - 1) \
            else ctx.exact([i, 1, -i])
        r.register_frame(f"f{i}", f"f{i - 1}" if i and chain else "w",
                         ctx.array(t[i]))
    gone = [i for i in range(1, n - 1) if i % 5 == 2]
    for i in gone:
        r.deregister_frame(f"f{i}")
    ctx.same("names", sorted(r.registry), sorted(
        ["w"] + [f"f{i}" for i in range(n) if i not in gone]))
    for i in range(n):
        name = f"f{i}"
        if i in gone:
            ctx.raises("removed", ValueError, r.register_frame, "x", name)
            ctx.raises("not there", ValueError, r.deregister_frame, name)
        else:
            ctx.check("its own", r.registry[name].name == name)
            ctx.raises("taken", ValueError, r.register_frame, name)
    v = ctx.vec3("v")
    last = f"f{n - 1}"
    s = [0, 0, 0]
    for i in (range(n) if chain else [n - 1]):
        s = O.add(s, t[i])
    ctx.eq("from the last", r.transform_points(ctx.array(v), "w", last),
           O.add(v, s))
    ctx.eq("into the last", r.transform_points(ctx.array(v), last, "w"),
           O.sub(v, s))
    new = ctx.vec3("new")
    r.register_frame(last, "w", ctx.array(new), update=True)
    ctx.eq("replaced", r.transform_points(ctx.array(v), "w", last),
           O.add(v, new))
    ctx.same("as many", len(r.registry), n + 1 - len(gone))
    r.clear_registry()
    ctx.same("cleared", len(r.registry), 0)
    ctx.raises("cleared", ValueError, r.transform_points, ctx.array(v), "w",
               "f0")
