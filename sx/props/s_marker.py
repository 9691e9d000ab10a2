"""S04: path markers."""
import numpy as _np

from sx import engine as E
from sx import ros
from sx.props.s_msg import head, leaves, v3
from sx.runner import case


class Hex:
    """A colour string of unknown digits."""

    def __init__(self, digits, mark=False):
        self.digits = list(digits)
        self.mark = mark

    def lstrip(self, c=None):
        return Hex(self.digits)

    strip = lstrip

    def removeprefix(self, c):
        return Hex(self.digits)

    def startswith(self, c):
        return self.mark and c == "#"

    def replace(self, a, b):
        return Hex(self.digits)

    def __len__(self):
        return len(self.digits) + self.mark

    def __getitem__(self, i):
        d = [None] * self.mark + self.digits
        d = d[i] if isinstance(i, slice) else [d[i]]
        if d and d[0] is None:
            return Hex(d[1:], True)
        return Hex(d)

    def sx_int(self, base=10):
        if base != 16 or self.mark:
            raise ValueError("invalid literal for int()")
        v = E.SymReal.lift(0)
        for d in self.digits:
            v = v * 16 + d
        return v


def colour(ctx):
    """(colour string, its four components)"""
    d = ctx.reals("digit", 8)
    if ctx.sym:
        for x in d:
            ctx.assume(ctx.Or(*[x == k for k in range(16)]))
        s = Hex(d, True)
    else:
        d = [int(x) % 16 for x in d]
        s = "#" + "".join("0123456789abcdef"[x] for x in d)
    return s, [(16 * d[i] + d[i + 1]) / 255 for i in range(0, 8, 2)]


def rgba(path, c):
    return {f"{path}.{k}": v for k, v in zip("rgba", c)}


@case("S04", table=ros.table, validate=0,
      bounds="every colour of eight hexadecimal digits")
def colours(ctx):
    m = ctx.mod("ros.visualization")
    s, c = colour(ctx)
    msg = m.hex_to_rgba(s)
    ctx.same("type", type(msg), ros.ColorRGBA)
    leaves(ctx, "colour", ros.Snap(msg), rgba("rgba", c) and {
        k: v for k, v in zip("rgba", c)})
    mk = m.get_marker(color=s)
    leaves(ctx, "marker", ros.Snap(mk), {
        **head("world", 0), "type": 4, "points.length": 0,
        "colors.length": 0, **rgba("color", c), **v3("scale", [1, 1, 1]),
        **v3("pose.position", [0, 0, 0]),
        "pose.orientation.w": 1})


TYPES = [None] + list(range(12))


@case("S04", table=ros.table,
      bounds="markers of every type, any scale (one or three numbers), "
             "position and orientation (x, y, z, w)")
def marker(ctx):
    m = ctx.mod("ros.visualization")
    ty = ctx.choose("type", TYPES)
    kw, exp = {}, {**head("world", 0), "type": 4, "points.length": 0,
                   "colors.length": 0, **rgba("color", [1, 1, 1, 1]),
                   **v3("scale", [1, 1, 1]), "pose.orientation.w": 1}
    if ty is not None:
        kw["marker_type"] = ty
        exp["type"] = ty
    if ctx.choose("frame", [False, True]):
        kw["frame_id"] = "base"
        exp.update(head("base", 0))
    sc = ctx.choose("scale", ["default", "number", "int", "three"])
    if sc == "number":
        s = ctx.real("s")
        kw["scale"] = s
        exp.update(v3("scale", [s, s, s]))
    elif sc == "int":
        kw["scale"] = 2
        exp.update(v3("scale", [2, 2, 2]))
    elif sc == "three":
        s = ctx.vec3("s")
        kw["scale"] = tuple(s)
        exp.update(v3("scale", s))
    if ctx.choose("pose", [False, True]):
        p, o = ctx.vec3("p"), ctx.reals("o", 4)
        kw.update(position=tuple(p), orientation=tuple(o))
        exp.update(v3("pose.position", p))
        exp.update({f"pose.orientation.{c}": x for c, x in zip("xyzw", o)})
    leaves(ctx, "marker", ros.Snap(m.get_marker(**kw)), exp)


def path(ctx, n):
    r = ctx.rbm
    r.register_frame("w")
    r.register_frame("a", "w", ctx.array(ctx.vec3("ta")),
                     ctx.array([0.5, 0.5, 0.5, 0.5]))
    r.register_frame("m", "a", ctx.array(ctx.mat("tm", n, 3)),
                     ctx.array([[0.5, 0.5, 0.5, 0.5]] * n),
                     _np.arange(float(n)))
    r.register_frame("s", "m", ctx.array(ctx.vec3("ts")))


def points(snap):
    n = snap.d["points.length"]
    return [snap.vec(f"points[{i}]") for i in range(n)]


def verify_path(ctx, name, pts, rows, most, spread=False):
    """Points are samples in order, the first included, within the limit.

    spread: the samples differ from each other, so that their spacing is
    known and is judged as well.
    """
    n = len(rows)
    ctx.check(f"{name}: at most the maximum", len(pts) <= most)
    if n <= most:
        ctx.eq(f"{name}: all", pts, rows)
        return
    ctx.check(f"{name}: not empty", len(pts) >= 1)
    if not pts:
        return
    ctx.eq(f"{name}: first", pts[0], rows[0])
    # every point is a sample after the previous one (trajectories with
    # distinct samples: exactly which is decided by the solver)
    k, last = 0, 0
    for p in pts[1:]:
        k += 1
        while k < n and not ctx.decide(ctx.all_eq(p, rows[k])):
            k += 1
        ctx.check(f"{name}: a later sample", k < n)
        if k >= n:
            return
        if spread:
            ctx.check(f"{name}: no long stretch left out",
                      (k - last) * most <= 2 * n)
        last = k
    if spread:
        ctx.check(f"{name}: reaches the end", (n - last) * most <= 2 * n)


@case("S04", params=[dict(n=n, _tier="quick" if n <= 5 else "thorough")
                     for n in range(1, 9)], table=ros.table,
      bounds="paths of 1-5 (8 in the thorough tier) samples and limits 1-8, "
             "relative to the parent or another base")
def sampling(ctx, n):
    r = ctx.rbm
    path(ctx, n)
    M = ctx.mod("ros.visualization").ReferenceFrameMarkerPublisher
    most = ctx.choose("most", list(range(1, 9)))
    frame, base = ctx.choose("pair", [("m", None), ("m", "w"), ("s", "w"),
                                      ("w", "m")])
    sc = ctx.real("scale")
    p = M(frame, base, max_points=most, scale=sc)
    base = base or r.registry[frame].parent.name
    rows = ctx.nested(r.lookup_transform(frame, base)[0])
    ctx.same("nothing sent yet", len(ctx.ros.sent), 0)
    p.publish()
    ctx.same("sent", [t for t, s in ctx.ros.sent], [f"/{frame}/path"])
    ctx.check("kept for later subscribers",
              ctx.ros.kept.get(f"/{frame}/path") is ctx.ros.sent[-1][1])
    for t, s in ctx.ros.sent:
        pts = points(s)
        verify_path(ctx, "path", pts, rows, most)
        exp = {**head(base, 0), "type": 4, "points.length": len(pts),
               "colors.length": 0, **rgba("color", [1, 1, 1, 1]),
               "scale.x": sc, "pose.orientation.w": 1}
        for i, x in enumerate(pts):
            exp.update(v3(f"points[{i}]", x))
        leaves(ctx, "marker", s, exp)


@case("S04", table=ros.table,
      bounds="the path of a static frame")
def static_path(ctx):
    r = ctx.rbm
    path(ctx, 2)
    M = ctx.mod("ros.visualization").ReferenceFrameMarkerPublisher
    frame, base = ctx.choose("pair", [("a", None), ("a", "w"), ("w", "a"),
                                      ("s", None)])
    p = M(frame, base, max_points=ctx.choose("most", [1, 2]))
    base = base or r.registry[frame].parent.name
    p.publish()
    ctx.same("sent", len(ctx.ros.sent), 1)
    for t, s in ctx.ros.sent:
        ctx.eq("the position", points(s),
               [ctx.nested(r.lookup_transform(frame, base)[0])])


@case("S04", table=ros.table,
      bounds="options of the path publisher: topic, colour, scale, name or "
             "object")
def options(ctx):
    r = ctx.rbm
    path(ctx, 2)
    M = ctx.mod("ros.visualization").ReferenceFrameMarkerPublisher
    f, b = (("m", "w") if ctx.choose("names", [True, False])
            else (r.registry["m"], r.registry["w"]))
    kw = {}
    if ctx.choose("topic", [False, True]):
        kw["topic"] = "/my/topic"
    if ctx.choose("verbose", [False, True]):
        kw["verbose"] = True
    p = M(f, b, color="#ff003380", **kw)
    ctx.same("publisher", [(q.name, q.data_class)
                           for q in ctx.ros.publishers],
             [(kw.get("topic", "/m/path"), ros.Marker)])
    p.publish()
    for t, s in ctx.ros.sent:
        ctx.same("topic", t, kw.get("topic", "/m/path"))
        ctx.eq("colour", s.get("color.r", "color.g", "color.b", "color.a"),
               [1, 0, 0.2, 128 / 255])
        ctx.eq("scale", s.vec("scale"), [0.1, 0, 0])


def mutate(ctx, k, m):
    """Change one part of a marker to an arbitrary value; the value."""
    what = ctx.choose(f"change{k}", ["none", "position", "point", "colour",
                                     "type", "more"])
    x = ctx.real(f"x{k}")
    if what == "position":
        m.pose.position.y = x
    elif what == "point":
        m.points[0].z = x
    elif what == "colour":
        m.color.a = x
    elif what == "type":
        m.type = 5
    elif what == "more":
        m.points.append(ros.Point(x, x, x))


@case("S04", table=ros.table,
      bounds="three publications with arbitrary changes of one part of the "
             "marker in between, possibly to the same value")
def only_changes(ctx):
    V = ctx.mod("ros.visualization")
    m = V.get_marker(scale=0.5)
    m.points = [ros.Point(*ctx.vec3("p"))]
    p = V.BaseMarkerPublisher(m, "/topic")
    last, n = None, 0
    for k in range(3):
        if k:
            mutate(ctx, k, m)
        now = ros.Packed(ros.flat_msg(m))
        new = last is None or ctx.decide(now != last)
        p.publish()
        n += new
        ctx.same(f"publication {k}", len(ctx.ros.sent), n)
        if new and len(ctx.ros.sent) == n:
            ctx.check("content", ros.Packed(list(
                ctx.ros.sent[-1][1].d.items())) == now)
        last = now


@case("S04", table=ros.table,
      bounds="spinning up to 4 steps with a change before one of them, any "
             "interval, blocking or in a thread, ended by shutdown or stop")
def spin(ctx):
    V = ctx.mod("ros.visualization")
    m = V.get_marker(scale=0.5)
    dt = ctx.real("dt")
    kw = {"publish_interval": dt}
    if ctx.choose("default", [False, True]):
        dt, kw = 0, {}
    p = V.BaseMarkerPublisher(m, "/topic", **kw)
    R = ctx.ros
    steps = ctx.choose("steps", [1, 2, 4])
    at = ctx.choose("change", [None, 1, 2])
    end = ctx.choose("end", ["stop", "shutdown"])
    block = ctx.choose("block", [True, False])
    left = [0]

    def on_sleep():
        left[0] += 1
        if at == left[0]:
            m.pose.position.x = 3.0
        if left[0] >= steps:
            p.stop() if end == "stop" else setattr(R, "shut", True)
        if left[0] > 6:
            raise ros.RosStop("does not stop")

    R.on_sleep = on_sleep
    p.spin(block=True) if block else p.spin()
    ctx.same("threads", len(R.threads), 0 if block else 1)
    ctx.same("messages", len(R.sent), 2 if at and at < steps else 1)
    ctx.eq("pauses", R.slept, [dt] * steps)
