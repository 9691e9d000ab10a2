"""P01: plotting."""
import os

import numpy as _np

from sx import nshim
from sx import oracle as O
from sx.loader import module
from sx.runner import case

os.environ.setdefault("MPLBACKEND", "Agg")


class Axes:
    """3-D axes: drawn artists are recorded, autoscaling picks any limits."""

    name = "3d"

    def __init__(self, ctx):
        self.ctx = ctx
        self.lim = [(-1 / 48, 49 / 48)] * 3
        self.artists = []
        self.drawn = []
        self.after = None
        self.M = None

    def _get(self, i):
        return self.ctx.array(list(self.lim[i]))

    def _set(self, i, a, b, kw):
        lo = kw.pop(("left", "bottom", "bottom")[i], None)
        hi = kw.pop(("right", "top", "top")[i], None)
        lo = kw.pop("xyz"[i] + "min", lo)
        hi = kw.pop("xyz"[i] + "max", hi)
        a = lo if lo is not None else a
        b = hi if hi is not None else b
        kw.pop("auto", None), kw.pop("emit", None)
        kw.pop("view_margin", None)
        assert not kw, kw
        if b is None and a is not None:
            a, b = a
        old = self.lim[i]
        self.lim[i] = (old[0] if a is None else a, old[1] if b is None else b)
        return self.lim[i]

    def get_xlim3d(self):
        return self._get(0)

    def get_ylim3d(self):
        return self._get(1)

    def get_zlim3d(self):
        return self._get(2)

    def set_xlim3d(self, a=None, b=None, **kw):
        return self._set(0, a, b, kw)

    def set_ylim3d(self, a=None, b=None, **kw):
        return self._set(1, a, b, kw)

    def set_zlim3d(self, a=None, b=None, **kw):
        return self._set(2, a, b, kw)

    get_xlim, get_ylim, get_zlim = get_xlim3d, get_ylim3d, get_zlim3d
    set_xlim, set_ylim, set_zlim = set_xlim3d, set_ylim3d, set_zlim3d

    def get_w_lims(self):
        return tuple(v for p in self.lim for v in p)

    def add_artist(self, a):
        a.axes = self
        self.artists.append(a)
        return a

    add_patch = add_artist

    def _scaled(self, what, a, k):
        n = len(self.drawn)
        self.drawn.append((what, a, k))
        self.lim = []
        for c in "xyz":
            lo, hi = self.ctx.real(f"lo{c}{n}"), self.ctx.real(f"hi{c}{n}")
            self.ctx.assume(lo < hi)
            self.lim.append((lo, hi))
        self.after = list(self.lim)

    def plot(self, *a, **k):
        self._scaled("plot", a, k)
        return [("line", len(self.drawn))]

    def quiver(self, *a, **k):
        self._scaled("quiver", a, k)
        return ("lines", len(self.drawn))


class Figure:
    def __init__(self, ctx, figsize=None, **kw):
        self.ctx = ctx
        self.size = figsize
        self.axes = []
        ctx.figures.append(self)

    def add_subplot(self, *a, projection=None, **kw):
        if projection != "3d":
            raise TypeError("not 3-D axes")
        ax = Axes(self.ctx)
        self.axes.append(ax)
        return ax

    def get_size(self):
        return self.size


class Patch:
    """matplotlib.patches.FancyArrowPatch by its contract."""

    def __init__(self, posA=None, posB=None, **kw):
        self.pos = (posA, posB)
        self.kw = kw
        # matplotlib leaves out the first and last two points by default
        self.shrinkA = kw.get("shrinkA", 2)
        self.shrinkB = kw.get("shrinkB", 2)
        self.shown = []
        self.axes = None

    def set_positions(self, a, b):
        self.pos = (a, b)

    def draw(self, renderer):
        self.shown.append(self.pos)


def proj_transform(xs, ys, zs, M):
    out = [[], [], []]
    for p in zip(xs, ys, zs):
        p = list(p) + [1]
        v = [sum((M[i][j] * p[j] for j in range(4)), 0) for i in range(4)]
        for i in range(3):
            out[i].append(v[i] / v[3])
    return out


def fakes(ctx):
    ctx.figures = []
    plt = module("matplotlib.pyplot",
                 figure=lambda **k: Figure(ctx, **k))
    patches = module("matplotlib.patches", FancyArrowPatch=Patch)
    proj = module("mpl_toolkits.mplot3d.proj3d",
                  proj_transform=lambda x, y, z, M: tuple(
                      ctx.array(v) for v in proj_transform(x, y, z, M)))
    m3 = module("mpl_toolkits.mplot3d", proj3d=proj)
    return {
        "matplotlib": module("matplotlib", pyplot=plt, patches=patches),
        "matplotlib.pyplot": plt, "matplotlib.patches": patches,
        "mpl_toolkits": module("mpl_toolkits", mplot3d=m3),
        "mpl_toolkits.mplot3d": m3, "mpl_toolkits.mplot3d.proj3d": proj}


def table(ctx):
    """Stand-ins while solving, matplotlib itself on replay."""
    if not ctx.sym:
        return {}
    ctx.soft()
    return {**fakes(ctx), "builtin:max": nshim.builtin_max,
            "builtin:min": nshim.builtin_min,
            "builtin:abs": nshim.builtin_abs}


def record(ctx, ax):
    """Record what is drawn on real axes."""
    ax.drawn, ax.added = [], []

    def wrap(name):
        f = getattr(ax, name)

        def g(*a, **k):
            ax.drawn.append((name, a, k))
            r = f(*a, **k)
            ax.after = limits(ax)
            return r
        setattr(ax, name, g)

    wrap("plot")
    wrap("quiver")
    add = ax.add_artist

    def add_artist(a):
        ax.added.append(a)
        return add(a)

    ax.add_artist = add_artist
    return ax


def axes(ctx, lims=None):
    """New axes with the given limits."""
    if ctx.sym:
        ax = Axes(ctx)
    else:
        from matplotlib import pyplot as plt
        plt.close("all")
        ax = record(ctx, plt.figure().add_subplot(111, projection="3d"))
    if lims is not None:
        ax.set_xlim3d(lims[0])
        ax.set_ylim3d(lims[1])
        ax.set_zlim3d(lims[2])
    return ax


def artists(ctx, ax):
    return list(ax.artists if ctx.sym else ax.added)


def limits(ax):
    return [tuple(ax.get_xlim3d()), tuple(ax.get_ylim3d()),
            tuple(ax.get_zlim3d())]


def some_limits(ctx):
    out = []
    for c in "xyz":
        lo, hi = ctx.real("lo" + c), ctx.real("hi" + c)
        # two limits closer than the resolution of floats are moved apart
        ctx.assume(hi - lo > (0 if ctx.sym else 1e-6))
        out.append((lo, hi))
    return out


def inside(ctx, name, lim, pts):
    """All points within the limits."""
    m = 0 if ctx.sym else 1e-9
    for i, c in enumerate("xyz"):
        s = 0 if ctx.sym else m * (1 + max(map(abs, lim[i])))
        for j, p in enumerate(pts):
            ctx.check(f"{name} {c}{j}", ctx.And(
                p[i] >= lim[i][0] - s, p[i] <= lim[i][1] + s))


def equal(ctx, lim):
    r = [hi - lo for lo, hi in lim]
    ctx.eq("equal ranges", r[1:], [r[0], r[0]])


VIEWS = ((0, 1, 2), (1, 2, 0))


def verts(ctx, a):
    """Start and end of an arrow, from two parallel projections."""
    got = []
    a.set_positions = lambda p, q: got.append((list(p), list(q)))
    for v in VIEWS:
        M = [[1.0 * (j == v[i]) for j in range(4)] for i in range(3)]
        a.axes.M = _np.array(M + [[0.0, 0.0, 0.0, 1.0]])
        depth = a.do_3d_projection()
        zs = [p[1] for p in got[-1]] if v == VIEWS[1] else None
    (s1, e1), (s2, e2) = got
    # the second view shows (y, z) at depth x
    start, end = [*s1, s2[1]], [*e1, e2[1]]
    ctx.eq("views agree", [s2[0], e2[0]], [s1[1], e1[1]])
    ctx.check("depth", ctx.Or(
        near(ctx, depth, start[0]), near(ctx, depth, end[0])))
    m = 0 if ctx.sym else 1e-9
    ctx.check("nearest depth", ctx.And(
        depth <= start[0] + m, depth <= end[0] + m))
    return start, end


def near(ctx, a, b):
    return a == b if ctx.sym else abs(a - b) < 1e-9


def kind_of(ctx, a):
    if ctx.sym:
        return a.kw.get("color")
    from matplotlib import colors
    rgb = colors.to_rgb(a.get_edgecolor())
    return {(1, 0, 0): "r", (0, .5, 0): "g", (0, 0, 1): "b"}.get(rgb)


WORLDS = {"none": None, "parent": "w", "itself": "a", "child": "c",
          "sibling": "b"}


@case("P01", params=[dict(world=k) for k in WORLDS], table=table,
      bounds="every static transform of the plotted frame (one of the other "
             "frame's for sibling/child worlds), any arrow length and any "
             "previous limits (lower below upper)")
def frame(ctx, world):
    r = ctx.rbm
    r.register_frame("w")
    ident = ([0, 0, 0], ctx.exact([1, 0, 0, 0]))
    t, q = ctx.vec3("t"), ctx.unit("q")
    tr = {"a": (t, q)}
    r.register_frame("a", "w", ctx.array(t), ctx.array(q))
    half = ctx.exact([0.5, 0.5, -0.5, 0.5])
    for name, par in (("b", "w"), ("c", "a")):
        tt = ctx.vec3("t" + name)
        tr[name] = (tt, half)
        r.register_frame(name, par, ctx.array(tt), ctx.array(half))

    def pos(p):
        if world == "none" or world == "itself":
            return p
        if world == "child":
            d = O.sub(p, tr["c"][0])
            return O.rot(O.qconj(half), d)
        p = O.add(O.rot(q, p), t)
        if world == "parent":
            return p
        return O.rot(O.qconj(half), O.sub(p, tr["b"][0]))

    lims = some_limits(ctx)
    kw, n = {}, 1
    if ctx.choose("len", [False, True]):
        n = kw["arrow_len"] = ctx.real("len")
    ax = axes(ctx, lims)
    f, wf = "a", WORLDS[world]
    if ctx.choose("objects", [False, True]):
        R = r.registry
        f = R["a"]
        wf = wf if wf is None else R[wf]
    out = r.plot.reference_frame(f, world_frame=wf, ax=ax, **kw)
    o = pos(ctx.exact([0, 0, 0]))
    ends = [pos([n if i == j else 0 for j in range(3)]) for i in range(3)]
    drawn = artists(ctx, ax)
    ctx.check("three arrows", len(out) == 3 and len(drawn) == 3
              and all(x is y for x, y in zip(out, drawn)))
    for a, e, c in zip(out, ends, "rgb"):
        ctx.same("colour " + c, kind_of(ctx, a), c)
        s, d = verts(ctx, a)
        ctx.eq("start " + c, s, o)
        ctx.eq("end " + c, d, e)
        ctx.check("drawn in full length " + c,
                  (a.shrinkA, a.shrinkB) == (0, 0))
    lim = limits(ax)
    equal(ctx, lim)
    inside(ctx, "arrows visible", lim, [o, *ends])
    inside(ctx, "previous limits", lim, list(zip(*lims)))


@case("P01", table=table,
      bounds="one after another of two frames in the same axes; new axes "
             "if none are given; frames that move are refused")
def frames(ctx):
    r = ctx.rbm
    r.register_frame("w")
    ta, tb = ctx.vec3("ta"), ctx.vec3("tb")
    r.register_frame("a", "w", ctx.array(ta))
    r.register_frame("b", "w", ctx.array(tb))
    if not ctx.sym:
        from matplotlib import pyplot as plt
        plt.close("all")
    one = ctx.choose("ax", ["none", "same"])
    P = ctx.mod("plotting")
    if one == "none":
        kw = dict(figsize=(3, 4)) if ctx.choose("size", [0, 1]) else {}
        out = P.plot_reference_frame("a", "w", **kw)
        if ctx.sym:
            figs = ctx.figures
        else:
            figs = [plt.figure(i) for i in plt.get_fignums()]
        ctx.check("one figure", len(figs) == 1 and len(figs[0].axes) == 1)
        size = figs[0].size if ctx.sym else figs[0].get_size_inches()
        ctx.eq("figure size", list(size), kw.get("figsize", (6, 6)))
        ax = figs[0].axes[0]
        ctx.check("arrows on it", all(x.axes is ax for x in out))
        pts = [ta]
    else:
        ax = axes(ctx)
        P.plot_reference_frame("a", "w", ax)
        P.plot_reference_frame("b", "w", ax)
        pts = [ta, tb]
    lim = limits(ax)
    equal(ctx, lim)
    inside(ctx, "origin visible", lim, pts)
    for i in range(3):
        e = [1 if i == j else 0 for j in range(3)]
        inside(ctx, f"axis {i} visible", lim, [O.add(p, e) for p in pts])
    r.register_frame("m", "w", ctx.array([[0.0, 0, 0], [1.0, 0, 0]]), None,
                     ctx.array([0.0, 1.0]))
    ax = axes(ctx)
    ctx.raises("moving frame", NotImplementedError, P.plot_reference_frame,
               "m", "w", ax)
    ctx.check("nothing drawn", not artists(ctx, ax) and not ax.drawn)


def data(ctx, name, n, d=3):
    """(array of n vectors as passed, its rows); n=0: one plain vector"""
    rows = ctx.mat(name, max(n, 1), d)
    return (rows if n else rows[0]), rows


def column(ctx, name, got, want):
    ctx.eq(name, list(got), want)


def target(ctx):
    """Where to draw: (keyword arguments, how to find the axes)"""
    if ctx.choose("ax", ["given", "new"]) == "given":
        ax = axes(ctx)
        return dict(ax=ax), lambda: ax
    if not ctx.sym:
        from matplotlib import pyplot as plt
        plt.close("all")
        fig = plt.figure
        made = []

        def figure(*a, **k):
            f = fig(*a, **k)
            sub = f.add_subplot

            def add_subplot(*a, **k):
                made.append(record(ctx, sub(*a, **k)))
                return made[-1]
            f.add_subplot = add_subplot
            return f
        ctx.mod("plotting").plt = module("pyplot", figure=figure)
        return dict(figsize=(5, 4)), lambda: only(ctx, made)
    return dict(figsize=(5, 4)), lambda: only(ctx, [
        a for f in ctx.figures for a in f.axes])


def only(ctx, made):
    ctx.check("one new figure", len(made) == 1)
    return made[0]


def given(ctx, kind, x, name):
    return ctx.array(x) if kind == "array" else x


def visible(ctx, ax, k):
    """Equal ranges that show whatever drawing k times made visible."""
    ctx.check("drawn " + str(k), len(ax.drawn) == k)
    lim = limits(ax)
    equal(ctx, lim)
    inside(ctx, "still visible", lim, list(zip(*ax.after)))


@case("P01", table=table,
      bounds="up to 3 points, arrays or lists of any values")
def points(ctx):
    n = ctx.choose("n", [0, 1, 2, 3])
    x, rows = data(ctx, "p", n)
    kw, find = target(ctx)
    fmt = ""
    if ctx.choose("fmt", [0, 1]):
        kw.update(fmt="ro", linewidth=3)
        fmt = "ro"
    out = ctx.rbm.plot.points(
        given(ctx, ctx.choose("as", ["array", "list"]), x, "p"), **kw)
    ax = find()
    visible(ctx, ax, 1)
    what, a, k = ax.drawn[0]
    ctx.same("method", what, "plot")
    ctx.check("lines", len(out) == 1)
    for i in range(3):
        column(ctx, "coordinate " + "xyz"[i], a[i], [p[i] for p in rows])
    ctx.same("format", (a[3:] or ("",))[0], fmt)
    ctx.same("other arguments", dict(k),
             dict(linewidth=3) if "fmt" in kw else {})


@case("P01", table=table,
      bounds="up to 3 vectors with or without base points, arrays or lists "
             "of any values")
def vectors(ctx):
    n = ctx.choose("n", [0, 1, 2, 3])
    x, rows = data(ctx, "v", n)
    kw, find = target(ctx)
    as_ = ctx.choose("as", ["array", "list"])
    base = [[0, 0, 0]] * max(n, 1)
    if ctx.choose("base", [0, 1]):
        b, base = data(ctx, "b", n)
        kw["base"] = given(ctx, as_, b, "b")
    if ctx.choose("more", [0, 1]):
        kw["length"] = 0.25
    out = ctx.rbm.plot.vectors(given(ctx, as_, x, "v"), **kw)
    ax = find()
    visible(ctx, ax, 1)
    ctx.check("lines", out is not None)
    arrow(ctx, "vector", ax.drawn[0], base, rows,
          dict(length=0.25) if "length" in kw else {})


def arrow(ctx, name, drawn, base, rows, kw):
    what, a, k = drawn
    ctx.same(name + " method", what, "quiver")
    ctx.check(name + " arguments", len(a) == 6)
    for i in range(3):
        column(ctx, f"{name} base {'xyz'[i]}", a[i], [p[i] for p in base])
        column(ctx, f"{name} {'xyz'[i]}", a[3 + i], [p[i] for p in rows])
    ctx.same(name + " other arguments", dict(k), kw)


@case("P01", table=table,
      bounds="up to 2 quaternions, the first of any value and length but "
             "zero, with or without base points, arrays or lists")
def quaternions(ctx):
    n = ctx.choose("n", [0, 1, 2])
    q = ctx.unit("q")
    qs = [q, ctx.exact([0.5, -0.5, 0.5, 0.5])][:max(n, 1)]
    kw, find = target(ctx)
    as_ = ctx.choose("as", ["array", "list"])
    base = [[0, 0, 0]] * max(n, 1)
    if ctx.choose("base", [0, 1]):
        b, base = data(ctx, "b", n)
        kw["base"] = given(ctx, as_, b, "b")
    if ctx.choose("more", [0, 1]):
        kw["linewidth"] = 2
    out = ctx.rbm.plot.quaternions(
        given(ctx, as_, qs if n else q, "q"), **kw)
    ax = find()
    visible(ctx, ax, 3)
    ctx.check("lines", len(out) == 3)
    for i, c in enumerate("rgb"):
        e = [1 if i == j else 0 for j in range(3)]
        more = dict(linewidth=2) if "linewidth" in kw else {}
        arrow(ctx, c, ax.drawn[i], base, [O.rot(p, e) for p in qs],
              dict(color=c, length=0.5, **more))


@case("P01", table=table,
      bounds="points and vectors of wrong shapes up to 3 axes; base points "
             "of other shapes than the vectors")
def shapes(ctx):
    P = ctx.mod("plotting")
    what = ctx.choose("what", ["points", "vectors", "base"])
    shp = ctx.choose("shape", [(2,), (4,), (1,), (2, 2), (3, 2), (3, 4),
                               (1, 1), (1, 3, 3), (3, 3, 3), (2, 3, 1)]
                     if what != "base" else
                     [(3,), (1, 3), (3, 3), (3, 2), (2, 2), (2, 4), (2, 2, 3)])
    ax = axes(ctx)
    a = ctx.array(_np.arange(float(_np.prod(shp))).reshape(shp).tolist())
    if what == "base":
        good = ctx.array(ctx.mat("v", 2, 3))
        ctx.raises("refused", ValueError, P.plot_vectors, good, a, ax)
        if shp == (3,):
            # a single vector's base may come with or without an extra axis
            one = ctx.array(ctx.vec3("u"))
            ctx.same("accepted", ctx.outcome(
                P.plot_vectors, one, a, ax)[0], "ok")
            ctx.same("drawn", len(ax.drawn), 1)
            return
    else:
        ctx.raises("refused", ValueError, getattr(P, "plot_" + what), a, ax=ax)
    ctx.check("nothing drawn", not ax.drawn)


@case("P01", table=fakes,
      bounds="arrows between any points under any projection matrix with "
             "constant perspective row or parallel projection")
def drawing(ctx):
    P = ctx.mod("plotting")
    a, b = ctx.vec3("a"), ctx.vec3("b")
    ar = P.Arrow3D([a[0], b[0]], [a[1], b[1]], [a[2], b[2]], color="k",
                   mutation_scale=3)
    ctx.same("arguments", ar.kw, dict(color="k", mutation_scale=3))
    ax = Axes(ctx)
    ax.add_artist(ar)
    M = ctx.mat("M", 3, 4)
    ax.M = M + [[0, 0, 0, 1]]
    want = proj_transform([a[0], b[0]], [a[1], b[1]], [a[2], b[2]], ax.M)
    how = ctx.choose("how", ["draw", "project"])
    if how == "draw":
        ar.draw("renderer")
        ctx.check("drawn once", len(ar.shown) == 1)
        pos = ar.shown[0]
    else:
        d = ar.do_3d_projection()
        pos = ar.pos
        ctx.check("nearest depth", ctx.And(
            d <= want[2][0], d <= want[2][1],
            ctx.Or(near(ctx, d, want[2][0]), near(ctx, d, want[2][1]))))
    for i in range(2):
        ctx.eq(f"end {i}", list(pos[i]), [want[0][i], want[1][i]])
