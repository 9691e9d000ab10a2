"""S03: the transform broadcaster."""
import numpy as _np

from sx import ros
from sx.props.s_buffer import UNITS, clock
from sx.props.s_msg import head, leaves, q4, v3
from sx.runner import case

N = 3


def scene(ctx, unit):
    """w <- a (static) <- m (moving) <- s (static), seconds of m."""
    r = ctx.rbm
    r.register_frame("w")
    r.register_frame("a", "w", ctx.array(ctx.vec3("ta")),
                     ctx.array([0.5, 0.5, 0.5, 0.5]))
    if unit == "symbolic":
        sec = ctx.times("s", N)
        ts = ctx.array(sec)
    elif unit == "number":
        sec = [1.0, 1.5, 3.0]
        ts = _np.array(sec)
    else:
        ts, sec = clock(ctx, N, unit, 7)
    r.register_frame("m", "a", ctx.array(ctx.mat("tm", N, 3)),
                     ctx.array(ctx.units("qm", N)), ts)
    r.register_frame("s", "m", ctx.array(ctx.vec3("ts")),
                     ctx.array([0.5, 0.5, -0.5, 0.5]))
    return sec


def expected(ctx, name, e, snap_t, frame, base, t, q, time):
    leaves(ctx, name, snap_t, {
        **head(base, time), "child_frame_id": frame,
        **v3("transform.translation", t), **q4("transform.rotation", q)})


def verify(ctx, name, sent, frame, base, tr, k, time, pose, twist):
    """``sent``: the messages of one publish; returns those left over."""
    moving = k is not None
    t, q = (tr[0][k], tr[1][k]) if moving else tr[:2]
    time = time[k] if moving else 0
    got = dict()
    kinds = ["tf" if moving else "static"]
    if pose:
        kinds.append(f"/{frame}/pose")
    if twist:
        kinds.append(f"/{frame}/twist")
    ctx.same(f"{name} kinds", sorted(x for x, _ in sent), sorted(kinds))
    got = dict(sent)
    for n in kinds[1:]:
        last = [m for k, m in ctx.ros.sent if k == n][-1:]
        ctx.check(f"{name} kept for later subscribers",
                  [ctx.ros.kept.get(n)] == last or not last)
    if kinds[0] in got:
        leaves(ctx, f"{name} transform", got[kinds[0]], {
            **head(base, time), "child_frame_id": frame,
            **v3("transform.translation", t),
            **q4("transform.rotation", q)})
    if pose and f"/{frame}/pose" in got:
        leaves(ctx, f"{name} pose", got[f"/{frame}/pose"], {
            **head(base, time), **v3("pose.position", t),
            **q4("pose.orientation", q)})
    if twist and f"/{frame}/twist" in got:
        v, w = ((twist[0][k], twist[1][k]) if moving
                else ([0, 0, 0], [0, 0, 0]))
        leaves(ctx, f"{name} twist", got[f"/{frame}/twist"], {
            **head(frame, time), **v3("twist.linear", v),
            **v3("twist.angular", w)})


def by(ctx, name, f):
    """A frame by name or as object."""
    return f if ctx.choose(name, ["name", "object"]) == "name" \
        else ctx.rbm.registry[f]


PAIRS = {"own": ("m", None), "base": ("m", "w"), "below": ("s", "w"),
         "up": ("w", "m"), "parent": ("s", None), "static": ("a", None),
         "static_base": ("a", "w"), "two": ("n", "w"), "near": ("n", None),
         "across": ("n", "m")}


@case("S03", params=[dict(pair=p, unit=u) for p in PAIRS
                     for u in (("ns", "symbolic") if p in (
                         "own", "base", "up") else ("ns",))
                     if p not in ("two", "near", "across")] + [dict(pair="own", unit=u)
                          for u in UNITS[:3] + ("number",)],
      table=ros.table,
      bounds="a moving frame of 3 samples below a static one, a static frame "
             "below it; published with respect to parent or any base, by "
             "every index, with and without pose")
def publish(ctx, pair, unit):
    r = ctx.rbm
    sec = scene(ctx, unit)
    frame, base = PAIRS[pair]
    B = ctx.mod("ros.transformer").ReferenceFrameTransformBroadcaster
    pose = ctx.choose("pose", [False, True])
    kw = {"publish_pose": True} if pose else {}
    if base:
        b = B(by(ctx, "frame", frame), by(ctx, "base", base), **kw)
    else:
        b = B(by(ctx, "frame", frame), **kw)
        base = r.registry[frame].parent.name
    ctx.check("nothing sent yet", ctx.ros.sent == [])
    tr = [ctx.nested(x) for x in r.lookup_transform(frame, base)[:2]]
    moving = pair not in ("static", "static_base", "parent")
    idx = ctx.choose("idx", [None, 0, 1, 2] if moving
                     else [None, 0, 1])
    how = ctx.choose("how", ["named", "positional"])
    if idx is None and how == "named":
        b.publish()
    elif how == "named":
        b.publish(idx=idx)
    else:
        b.publish(idx)
    k = (idx or 0) if moving else None
    verify(ctx, "first", ctx.ros.sent, frame, base, tr, k, sec, pose, False)
    # publishing an index does not disturb the default
    del ctx.ros.sent[:]
    b.publish()
    verify(ctx, "second", ctx.ros.sent, frame, base, tr,
           0 if moving else None, sec, pose, False)
    # nor after the position was moved
    del ctx.ros.sent[:]
    b.idx = 2
    b.publish()
    verify(ctx, "third", ctx.ros.sent, frame, base, tr,
           2 if moving else None, sec, pose, False)
    del ctx.ros.sent[:]
    b.publish(0)
    verify(ctx, "fourth", ctx.ros.sent, frame, base, tr,
           0 if moving else None, sec, pose, False)


@case("S03", params=[dict(pair=p) for p in (
          "own", "base", "static", "two", "near", "across")],
      table=ros.table,
      bounds="twists published with every index, with and without pose; of "
             "a moving frame, of one in a moving frame, and of a static one, "
             "with respect to parent or base")
def publish_twist(ctx, pair):
    r = ctx.rbm
    r.register_frame("w")
    r.register_frame("a", "w", ctx.array(ctx.vec3("ta")),
                     ctx.array([0.5, 0.5, 0.5, 0.5]))
    unit = ctx.choose("unit", ["ns", "number"])
    ts, sec = clock(ctx, 4, "ns", 7)
    if unit == "number":
        ts = _np.array(sec, dtype=float)
    h = 0.5
    q = [[h, h, h, h], [h, -h, h, h], [1.0, 0.0, 0.0, 0.0],
         [h, h, h, -h]]
    r.register_frame("m", "a", ctx.array(ctx.mat("tm", 4, 3)),
                     ctx.array(q), ts)
    if pair in ("two", "near", "across"):
        r.register_frame("n", "m", ctx.array(ctx.mat("tn", 4, 3)),
                         ctx.array(q[2:] + q[:2]), ts)
    frame, base = PAIRS[pair]
    B = ctx.mod("ros.transformer").ReferenceFrameTransformBroadcaster
    pose = ctx.choose("pose", [False, True])
    b = B(frame, base, publish_twist=True, publish_pose=pose)
    base = base or r.registry[frame].parent.name
    tr = [ctx.nested(x) for x in r.lookup_transform(frame, base)[:2]]
    moving = pair != "static"
    tw = True
    if moving:
        tw = [ctx.nested(x) for x in r.lookup_twist(frame, base, frame)[:2]]
    idx = ctx.choose("idx", [None, 0, 1, 2])
    b.publish(idx)
    verify(ctx, "twist", ctx.ros.sent, frame, base, tr,
           (idx or 0) if moving else None, sec, pose, tw)


@case("S03", params=[dict(option=o) for o in ("twist_cutoff",
                                              "twist_outlier_thresh")],
      table=ros.table,
      bounds="low-pass filtered twists of 25 samples of which one has any "
             "position, two cut-off frequencies; twists of 6 samples with "
             "one outlier of any size, two thresholds")
def publish_twist_options(ctx, option):
    r = ctx.rbm
    r.register_frame("w")
    n = 25 if option == "twist_cutoff" else 6
    h = ctx.real("h")
    ctx.assume(h > 1)
    p = [[0.0, 0.0, 0.0] for _ in range(n)]
    p[3] = [h, 0.0, 0.0]
    q = _np.zeros((n, 4))
    q[:, 0] = 1.0
    q[2] = [0.0, 0.6, 0.8, 0.0]
    ts = _np.arange(float(n))
    r.register_frame("m", "w", ctx.array(p), q, ts)
    v = ctx.choose("value", [0.1, 0.4] if option == "twist_cutoff"
                   else [0.5, 0.25])
    B = ctx.mod("ros.transformer").ReferenceFrameTransformBroadcaster
    b = B("m", publish_twist=True, **{option: v})
    tr = [ctx.nested(x) for x in r.lookup_transform("m", "w")[:2]]
    tw = [ctx.nested(x) for x in r.lookup_twist(
        "m", "w", "m", **{option[6:]: v})[:2]]
    for k in ctx.choose("indices", [(0, 3), (2, 4), (3, 2)]):
        del ctx.ros.sent[:]
        b.publish(k)
        verify(ctx, f"twist {k}", ctx.ros.sent, "m", "w", tr, k,
               ts.tolist(), False, tw)


@case("S03", params=[dict(unit=u) for u in ("ns", "us", "number",
                                            "symbolic")],
      table=ros.table,
      bounds="spinning for up to 5 steps over 3 samples, blocking or in a "
             "thread, ended by shutdown or stop(), from any start index; "
             "spinning again after a stop")
def spin(ctx, unit):
    r = ctx.rbm
    sec = scene(ctx, unit)
    B = ctx.mod("ros.transformer").ReferenceFrameTransformBroadcaster
    b = B("m", "w")
    tr = [ctx.nested(x) for x in r.lookup_transform("m", "w")[:2]]
    steps = ctx.choose("steps", [1, 2, 3, 5])
    end = ctx.choose("end", ["shutdown", "stop"])
    start = ctx.choose("start", [0, 1, 2])
    b.idx = start
    ros_ = ctx.ros

    def count(n):
        left = [n]

        def f():
            left[0] -= 1
            if left[0] <= 0:
                if end == "stop":
                    b.stop()
                else:
                    ros_.shut = True
            if left[0] < -3:
                raise ros.RosStop("does not stop")
        return f

    ros_.on_sleep = count(steps)
    block = ctx.choose("block", [True, False])
    b.spin(block=True) if block else b.spin()
    ctx.same("threads", len(ros_.threads), 0 if block else 1)
    ctx.same("messages", len(ros_.sent), steps)
    ctx.same("pauses", len(ros_.slept), steps)
    k = start
    for i, s in enumerate(ros_.sent):
        verify(ctx, f"step {i}", [s], "m", "w", tr, k, sec, False, False)
        n = (k + 1) % N
        if i < len(ros_.slept):
            ctx.eq(f"pause {i}", [ros_.slept[i]],
                   [sec[n] - sec[k] if n else 0])
        k = n
    if end == "stop":
        ctx.same("stopped", b.stopped, True)
        del ros_.sent[:]
        ros_.on_sleep = count(1)
        b.spin(block=True)
        ctx.same("resumed", len(ros_.sent), 1)
        for s in ros_.sent:
            verify(ctx, "resumed", [s], "m", "w", tr, k, sec, False, False)


@case("S03", table=ros.table,
      bounds="spinning of static frames and of subscribed ones")
def spin_without_loop(ctx):
    r = ctx.rbm
    scene(ctx, "ns")
    B = ctx.mod("ros.transformer").ReferenceFrameTransformBroadcaster
    what = ctx.choose("what", ["static", "subscribed"])
    block = ctx.choose("block", [True, False])
    if what == "static":
        b = B("a", publish_pose=True,
              subscribe=ctx.choose("subscribe", [False, True]))
        b.spin(block=block)
        tr = [ctx.nested(x) for x in r.lookup_transform("a", "w")]
        verify(ctx, "static", ctx.ros.sent, "a", "w", tr, None, None, True,
               False)
    else:
        b = B("m", subscribe=True)
        b.spin(block=block)
        ctx.same("waits for messages", ctx.ros.spun, 1)
        ctx.same("nothing sent", len(ctx.ros.sent), 0)


def tf_message(frames, times):
    m = ros.tfMessage()
    for f, t in zip(frames, times):
        x = ros.TransformStamped()
        x.header.stamp = ros.Time(t)
        x.header.frame_id = "elsewhere"
        x.child_frame_id = f
        m.transforms.append(x)
    return m


@case("S03", params=[dict(unit=u) for u in ("s", "ns", "number",
                                            "symbolic")],
      table=ros.table,
      bounds="incoming messages of two transforms at any times with respect "
             "to 3 samples, of the awaited or another frame; subscribed to "
             "the base or a named frame")
def incoming(ctx, unit):
    r = ctx.rbm
    sec = scene(ctx, unit)
    B = ctx.mod("ros.transformer").ReferenceFrameTransformBroadcaster
    sub = ctx.choose("subscribe", [True, "thing"])
    b = B("m", "w", publish_pose=True, subscribe=sub)
    tr = [ctx.nested(x) for x in r.lookup_transform("m", "w")[:2]]
    ctx.same("subscriptions", [(s.name, s.data_class)
                               for s in ctx.ros.subscribers],
             [("/tf", ros.tfMessage)])
    awaited = "w" if sub is True else "thing"
    u, v = ctx.real("u"), ctx.real("v")
    ctx.assume(u >= 0)
    ctx.assume(v >= 0)
    frames = ctx.choose("frames", [
        (awaited, "other"), ("other", awaited), ("m", "a")])
    cb = ctx.ros.subscribers[0].callback
    cb(tf_message(frames, (u, v)))
    if awaited not in frames:
        ctx.same("ignored", len(ctx.ros.sent), 0)
        return
    at = u if frames[0] == awaited else v
    ctx.same("answers", len(ctx.ros.sent), 2)
    stamp = ctx.ros.sent[0][1].d["header.stamp"]
    m = 0 if ctx.sym else 1e-6
    k = None
    for i in range(N):
        if ctx.decide(stamp == sec[i]):
            k = i
    ctx.check("a sample", k is not None)
    if k is None:
        return
    verify(ctx, "sample", ctx.ros.sent, "m", "w", tr, k, sec, True, False)
    for i in range(N):
        d, e = at - sec[k], at - sec[i]
        ctx.check(f"nearest, compared with {i}", d * d <= e * e + m)
    # a second message of both
    del ctx.ros.sent[:]
    cb(tf_message([awaited, awaited], [sec[2], sec[0]]))
    ctx.same("answers to both", len(ctx.ros.sent), 4)
    if len(ctx.ros.sent) == 4:
        verify(ctx, "exact", ctx.ros.sent[:2], "m", "w", tr, 2, sec, True,
               False)
        verify(ctx, "exact", ctx.ros.sent[2:], "m", "w", tr, 0, sec, True,
               False)
    # the default stays the first sample
    cb(tf_message([awaited], [sec[1]]))
    del ctx.ros.sent[:]
    b.publish()
    verify(ctx, "default", ctx.ros.sent, "m", "w", tr, 0, sec, True, False)


@case("S03", table=ros.table,
      bounds="incoming messages answered with a static frame")
def incoming_static(ctx):
    r = ctx.rbm
    scene(ctx, "ns")
    B = ctx.mod("ros.transformer").ReferenceFrameTransformBroadcaster
    sub = ctx.choose("subscribe", [True, "thing"])
    B("a", subscribe=sub)
    tr = [ctx.nested(x) for x in r.lookup_transform("a", "w")]
    cb = ctx.ros.subscribers[0].callback
    u = ctx.real("u")
    awaited = "w" if sub is True else "thing"
    cb(tf_message(["other", awaited], [u, u]))
    verify(ctx, "static", ctx.ros.sent, "a", "w", tr, None, None, False,
           False)
