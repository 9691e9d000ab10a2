"""S06: playback controls."""
import numpy as _np

from sx import ros
from sx.loader import module
from sx.props.s_buffer import UNITS
from sx.runner import case


class Widget:
    kind = ""

    def __init__(self, *args, **kw):
        self.__dict__["watchers"] = []
        self.__dict__["links"] = []
        self.args = args
        for k, v in kw.items():
            setattr(self, k, v)

    def __setattr__(self, k, v):
        old = self.__dict__.get(k)
        self.__dict__[k] = v
        for n, f in self.watchers:
            if n == k and not bool(old == v):
                f({"name": k, "old": old, "new": v, "owner": self})
        for n, (w, m) in self.links:
            if n == k and not bool(getattr(w, m) == v):
                setattr(w, m, v)

    def observe(self, f, names="value"):
        for n in names if isinstance(names, (list, tuple)) else [names]:
            self.watchers.append((n, f))


class Bounded(Widget):
    """An integer widget; values are kept within its bounds."""

    value, min, max, step = 0, 0, 100, 1

    def __init__(self, **kw):
        b = {k: kw.pop(k) for k in ("min", "max", "step") if k in kw}
        super().__init__(**b, **kw)

    def __setattr__(self, k, v):
        if k == "value":
            if bool(v < self.min):
                v = self.min
            elif bool(v > self.max):
                v = self.max
        super().__setattr__(k, v)


class IntSlider(Bounded):
    pass


class Play(Bounded):
    interval = 100


class Layout(Widget):
    pass


class Button(Widget):
    def on_click(self, f):
        self.clicked = f

    def click(self):
        self.clicked(self)


class Box(Widget):
    def __init__(self, children=(), **kw):
        super().__init__(children=list(children), **kw)


def table(ctx):
    ctx.ros = ros.Ros(ctx)
    t = ctx.ros.table()
    made = ctx.made = []
    shown = ctx.shown = []

    def keep(cls):
        class W(cls):
            def __init__(self, *a, **k):
                super().__init__(*a, **k)
                made.append(self)
        W.kind = cls.__name__
        return W

    def jslink(a, b):
        a[0].links.append((a[1], b))
        b[0].links.append((b[1], a))

    def interactive_output(f, controls):
        def update(change=None):
            f(**{k: w.value for k, w in controls.items()})
        for w in controls.values():
            w.observe(update, "value")
        update()
        return "output"

    names = dict(IntSlider=keep(IntSlider), Play=keep(Play),
                 Button=keep(Button), Layout=Layout, HBox=keep(Box),
                 VBox=keep(Box), jslink=jslink, link=jslink,
                 interactive_output=interactive_output)
    w = module("ipywidgets.widgets", **names)
    t["ipywidgets"] = module("ipywidgets", widgets=w, **names)
    t["ipywidgets.widgets"] = w

    def display(*a):
        shown.append(a)

    t["IPython"] = module("IPython")
    t["IPython.core"] = module("IPython.core")
    t["IPython.core.display"] = module("IPython.core.display",
                                       display=display)
    t["IPython.display"] = module("IPython.display", display=display)
    return t


class Recorder:
    def __init__(self, ts=None):
        self.got = []
        if ts is not None:
            self.timestamps = ts

    def publish(self, idx=None):
        self.got.append(idx)


def one(ctx, cls):
    """The widgets of one class."""
    return [w for w in ctx.made if isinstance(w, cls)]


def stamps(ctx, unit, n):
    s = [0.0, 1.0, 1.5, 4.0][:n]
    if unit == "symbolic":
        s = ctx.times("s", n)
        return ctx.array(s), s
    if unit == "number":
        return _np.array(s), s
    if unit == "s":
        s = [0.0, 1.0, 3.0, 4.0][:n]
    return (_np.datetime64("2020-01-01T00:00:00", unit)
            + (_np.array(s) * 1000).astype("timedelta64[ms]")).astype(
                f"datetime64[{unit}]"), s


def play(ctx, unit="ns", n=4, **kw):
    ts, s = stamps(ctx, unit, n)
    u = ctx.mod("ros.utils")
    given = ctx.choose("given", [False, True])
    if given:
        p = Recorder()
        u.play_publisher(p, timestamps=ts, **kw)
    else:
        p = Recorder(ts)
        u.play_publisher(p, **kw)
    return p, s


@case("S06", params=[dict(unit=u) for u in UNITS + ("number", "symbolic")],
      table=table,
      bounds="recordings of 2-4 messages with any mean interval, calendar "
             "times of every resolution and numeric ones, any positive step "
             "and speed")
def interval(ctx, unit):
    n = ctx.choose("n", [2, 4])
    kw = {}
    step, speed = 1, 1
    if ctx.choose("step", [False, True]):
        step = kw["step"] = ctx.real("step")
        ctx.assume(step >= 1)
    if ctx.choose("speed", [False, True]):
        speed = kw["speed"] = ctx.real("speed")
        ctx.assume(speed > 0)
    p, s = play(ctx, unit, n, **kw)
    sl, pl = one(ctx, IntSlider), one(ctx, Play)
    ctx.check("one slider, one player", len(sl) == 1 and len(pl) == 1)
    sl, pl = sl[0], pl[0]
    for name, w in (("slider", sl), ("player", pl)):
        ctx.eq(name + " range", [w.min, w.max], [0, n - 1])
        ctx.eq(name + " start", [w.value], [0])
    ctx.eq("player step", [pl.step], [step])
    want = (s[-1] - s[0]) / (n - 1) * 1000 * step / speed
    m = 1e-6 * (1 + want)
    ctx.check("interval not shorter", pl.interval > want - 1 - m)
    ctx.check("interval not longer", pl.interval < want + 1 + m)
    ctx.eq("published at first", p.got, [0])


@case("S06", params=[dict(k=1), dict(k=2), dict(k=3)], table=table,
      bounds="up to 3 presses of either button from any position of a "
             "recording, any step and any or no skip")
def buttons(ctx, k):
    n = 4
    step = ctx.real("step")
    ctx.assume(step >= 1)
    kw = dict(step=step)
    by = step
    if ctx.choose("skip", [False, True]):
        by = kw["skip"] = ctx.real("skip")
        ctx.assume(by >= 1)
    p, s = play(ctx, "ns", n, **kw)
    sl = one(ctx, IntSlider)[0]
    back, fwd = one(ctx, Button)
    pos = ctx.real("pos")
    ctx.assume(ctx.And(pos >= 0, pos <= n - 1))
    # the two buttons are told apart by what they show, left is backward
    box = [w for w in ctx.made if isinstance(w, Box)][0]
    order = [w for w in box.children if isinstance(w, Button)]
    back, fwd = order
    sl.value = pos
    for i in range(k):
        d = ctx.choose(f"press{i}", ["forward", "back"])
        count = len(p.got)
        (fwd if d == "forward" else back).click()
        new = pos + by if d == "forward" else pos - by
        if ctx.decide(new > n - 1):
            new = n - 1
        elif ctx.decide(new < 0):
            new = 0
        ctx.eq(f"position after {i}", [sl.value], [new])
        if not ctx.decide(new == pos):
            ctx.eq(f"published after {i}", p.got[count:], [new])
        pos = new


@case("S06", table=table,
      bounds="playing on: the player drives slider and publisher; all "
             "controls are shown")
def linked(ctx):
    p, s = play(ctx)
    sl, pl = one(ctx, IntSlider)[0], one(ctx, Play)[0]
    pos = ctx.real("pos")
    ctx.assume(ctx.And(pos > 0, pos <= 3))
    pl.value = pos
    ctx.eq("slider follows", [sl.value], [pos])
    ctx.eq("published", p.got, [0, pos])
    ctx.check("shown", len(ctx.shown) == 1
              and "output" in ctx.shown[0])
    shown = [w for a in ctx.shown for x in a if isinstance(x, Box)
             for w in x.children]
    ctx.check("all controls shown", all(
        any(w is x for x in shown) for w in ctx.made
        if not isinstance(w, Box)))


@case("S06", table=table,
      bounds="playing back a transform broadcaster of 4 samples from any "
             "control")
def broadcaster(ctx):
    r = ctx.rbm
    r.register_frame("w")
    t = ctx.mat("t", 4, 3)
    unit = ctx.choose("unit", ["ns", "us", "number"])
    ts, s = stamps(ctx, unit, 4)
    r.register_frame("m", "w", ctx.array(t), None, ts)
    B = ctx.mod("ros.transformer").ReferenceFrameTransformBroadcaster
    b = B("m")
    b.idx = 2
    ctx.mod("ros.utils").play_publisher(b)
    sl, pl = one(ctx, IntSlider)[0], one(ctx, Play)[0]
    ctx.eq("range", [sl.min, sl.max], [0, 3])
    ctx.check("interval", (pl.interval - (s[3] - s[0]) / 3 * 1000) ** 2 <= 1)
    k = ctx.choose("to", [1, 2, 3])
    pl.value = k
    ctx.eq("sent", [m.vec("transform.translation") for x, m in ctx.ros.sent],
           [t[0], t[k]])
