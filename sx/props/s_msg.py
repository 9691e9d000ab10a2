"""S01: ROS messages."""
from sx import ros
from sx.runner import case


def leaves(ctx, name, snap, expected):
    """All leaves of a message are as expected, defaults elsewhere."""
    exp = dict(expected)
    for p, v in snap.d.items():
        if p in exp:
            e = exp.pop(p)
            if isinstance(e, str):
                ctx.same(f"{name} {p}", v, e)
            else:
                ctx.eq(f"{name} {p}", [v], [e])
        elif isinstance(v, str):
            ctx.same(f"{name} {p}", v, "")
        else:
            ctx.eq(f"{name} {p}", [v], [0])
    ctx.check(f"{name} fields", not exp)


def v3(path, v):
    return {f"{path}.{c}": x for c, x in zip("xyz", v)}


def q4(path, q):
    return {f"{path}.{c}": x for c, x in zip("wxyz", q)}


def head(frame, time):
    return {"header.frame_id": frame, "header.stamp": time}


def form(ctx, x):
    """A list, tuple or array of numbers."""
    how = ctx.choose("form", ["array", "tuple", "list"])
    return {"array": ctx.array, "tuple": tuple, "list": list}[how](x)


KINDS = {
    "transform": ("TransformStamped", "transform",
                  ("translation", "rotation")),
    "pose": ("PoseStamped", "pose", ("position", "orientation")),
    "twist": ("TwistStamped", "twist", ("linear", "angular")),
    "vector": ("Vector3Stamped", "vector", None),
    "point": ("PointStamped", "point", None),
    "quaternion": ("QuaternionStamped", "quaternion", None),
}


@case("S01", params=[dict(kind=k) for k in KINDS], table=ros.table,
      bounds="one message of every kind with arbitrary components, names and "
             "time; packed from lists, tuples and arrays, with and without "
             "time; unpacked from stamped and plain messages")
def packing(ctx, kind):
    m = ctx.mod("ros.msg")
    cls, body, parts = KINDS[kind]
    frame, child = ctx.choose("names", [
        ("the_base", "the_child"), ("/map", "/Robot 1/arm/"), ("W", "w")])
    timed = ctx.choose("time", [True, False])
    t = ctx.real("t")
    kw = {}
    if timed:
        kw["time"] = t
    make = getattr(m, f"make_{kind}_msg")
    unpack = getattr(m, f"unpack_{kind}_msg")
    exp = head(frame, t if timed else 0)
    if parts:
        a = ctx.vec3("a")
        b = ctx.vec3("b") if kind == "twist" else ctx.reals("b", 4)
        args = [form(ctx, a), form(ctx, b), frame]
        if kind == "transform":
            args.append(child)
            exp["child_frame_id"] = child
        exp.update(v3(f"{body}.{parts[0]}", a))
        exp.update((v3 if kind == "twist" else q4)(f"{body}.{parts[1]}", b))
        want = [a, b]
    else:
        a = ctx.reals("a", 4) if kind == "quaternion" else ctx.vec3("a")
        args = [form(ctx, a), frame]
        exp.update((q4 if kind == "quaternion" else v3)(body, a))
        want = a
    if timed and ctx.choose("positional", [False, True]):
        args.append(kw.pop("time"))
    msg = make(*args, **kw)
    ctx.same("type", type(msg), ros.GEOMETRY[cls])
    leaves(ctx, kind, ros.Snap(msg), exp)
    inner = getattr(msg, body)

    def check(name, got):
        if parts:
            ctx.check(name + " pair", len(got) == 2)
            ctx.eq(name + " 0", list(got[0]), want[0])
            ctx.eq(name + " 1", list(got[1]), want[1])
        else:
            ctx.eq(name, list(got), want)

    check("stamped", unpack(msg, stamped=True))
    check("plain", unpack(inner))
    check("plain, stated", unpack(inner, stamped=False))
    # a message that was not packed by the package
    other = ros.GEOMETRY[cls]()
    if parts:
        setattr(getattr(other, body), parts[0],
                getattr(inner, parts[0]))
        setattr(getattr(other, body), parts[1],
                getattr(inner, parts[1]))
    else:
        setattr(other, body, inner)
    check("foreign", unpack(other, stamped=True))


@case("S01", table=ros.table,
      bounds="any static frame, inverse option included, below any frame; "
             "default and given time")
def static_frame(ctx):
    r = ctx.rbm
    m = ctx.mod("ros.msg")
    t, q = ctx.vec3("t"), ctx.unit("q")
    r.register_frame("w")
    r.register_frame("a", "w", ctx.array(t), ctx.array(q))
    r.register_frame("b", "a", ctx.array(t), ctx.array(q), inverse=True)
    f = ctx.choose("frame", ["a", "b"])
    rf = r.registry[f]
    kw, time = ctx.choose("time", [0, 1]), 0
    if kw:
        time = ctx.real("s")
        msg = m.static_rf_to_transform_msg(rf, time=time)
    else:
        msg = m.static_rf_to_transform_msg(rf)
    st, sq = r.lookup_transform(f, rf.parent)
    leaves(ctx, "frame", ros.Snap(msg), {
        **head(rf.parent.name, time), "child_frame_id": f,
        **v3("transform.translation", ctx.nested(st)),
        **q4("transform.rotation", ctx.nested(sq))})
