"""T: time-dependent frames and data."""
import numpy as _np

from sx import oracle as O
from sx.props.a_tree import TURNS, apply, tf
from sx.runner import case


def moving(ctx, name, times, parent, discrete=False, inverse=False):
    """Register a moving frame; returns its samples."""
    n = len(times)
    t = ctx.mat("t" + name, n, 3)
    q = ctx.units("q" + name, n)
    ctx.rbm.register_frame(
        name, parent, ctx.array(t), ctx.array(q),
        timestamps=times if isinstance(times, _np.ndarray)
        else ctx.array(times), discrete=discrete, inverse=inverse)
    return t, q


def static(ctx, name, parent, inverse=False):
    t, q = ctx.vec3("t" + name), ctx.unit("q" + name)
    ctx.rbm.register_frame(name, parent, ctx.array(t), ctx.array(q),
                           inverse=inverse)
    return t, q


def within(ctx, primary, spans):
    """The samples of `primary` inside all [first, last] spans (forks)."""
    out = []
    for t in primary:
        ok = True
        for s in spans:
            ok = ctx.And(ok, s[0] <= t, t <= s[-1])
        if ctx.decide(ok):
            out.append(t)
    return out


def check_times(ctx, got, want):
    ctx.shape("timestamps", got, (len(want),))
    ctx.eq("timestamps", got, want)


# ---------------------------------------------------------------- T01
@case("T01", params=[dict(na=2, nb=2), dict(na=3, nb=2),
                     dict(na=2, nb=3), dict(na=1, nb=2), dict(na=1, nb=1),
                     dict(na=3, nb=3, _tier="thorough"),
                     dict(na=4, nb=2, _tier="thorough")],
      bounds="two moving frames of 1-3 samples at symbolic times, both "
             "directions, optionally a static frame and a third frame in "
             "between")
def two_frames(ctx, na, nb):
    r = ctx.rbm
    a, b = ctx.times("a", na), ctx.times("b", nb)
    r.register_frame("w")
    tree = ctx.choose("tree", ["fork", "chain", "fork_static"])
    moving(ctx, "A", a, "w")
    if tree == "fork_static":
        static(ctx, "S", "w")
        moving(ctx, "B", b, "S")
    else:
        moving(ctx, "B", b, "w" if tree == "fork" else "A")
    if tree == "chain":
        # up: source first; down: outermost first
        src, dst, first = ctx.choose(
            "dir", [("B", "w", b), ("w", "B", a)])
    else:
        src, dst, first = ctx.choose(
            "dir", [("A", "B", a), ("B", "A", b)])
    t, q, ts = r.registry[src].lookup_transform(dst)
    want = within(ctx, first, [a, b])
    check_times(ctx, ts, want)
    ctx.shape("translation", t, (len(want), 3))
    ctx.shape("rotation", q, (len(want), 4))


@case("T01", params=[dict(n=2, m=2), dict(n=3, m=2), dict(n=2, m=3),
                     dict(n=1, m=2), dict(n=2, m=1), dict(n=1, m=1),
                     dict(n=3, m=3, _tier="thorough")],
      bounds="data of 1-3 samples and a moving frame of 1-3 samples, "
             "symbolic times, all methods")
def data_and_frame(ctx, n, m):
    r = ctx.rbm
    a, b = ctx.times("a", n), ctx.times("b", m)
    r.register_frame("w")
    moving(ctx, "B", b, "w")
    kind = ctx.choose("kind", ["points", "vectors", "quaternions"])
    src, dst = ctx.choose("dir", [("B", "w"), ("w", "B")])
    p = ctx.array(ctx.units("p", n) if kind == "quaternions"
                  else ctx.mat("p", n, 3))
    out, ts = tf(r, kind)(p, into=dst, outof=src, timestamps=ctx.array(a),
                          return_timestamps=True)
    want = within(ctx, a, [a, b])
    check_times(ctx, ts, want)
    ctx.shape("result", out, (len(want), 4 if kind == "quaternions" else 3))


@case("T01", bounds="data of 2 samples, two moving frames of 2 samples, "
                    "symbolic times", weight=3)
def data_and_two_frames(ctx):
    r = ctx.rbm
    d, a, b = ctx.times("d", 2), ctx.times("a", 2), ctx.times("b", 2)
    r.register_frame("w")
    moving(ctx, "A", a, "w")
    moving(ctx, "B", b, "w")
    out, ts = r.transform_points(
        ctx.array(ctx.mat("p", 2, 3)), into="B", outof="A",
        timestamps=ctx.array(d), return_timestamps=True)
    check_times(ctx, ts, within(ctx, d, [d, a, b]))


@case("T01", bounds="data of 1-3 samples through static frames only")
def data_and_static(ctx):
    r = ctx.rbm
    n = ctx.choose("n", [1, 2, 3])
    d = ctx.times("d", n)
    r.register_frame("w")
    static(ctx, "A", "w")
    kind = ctx.choose("kind", ["points", "vectors", "quaternions"])
    src, dst = ctx.choose("dir", [("A", "w"), ("w", "A"), ("A", "A")])
    p = ctx.array(ctx.units("p", n) if kind == "quaternions"
                  else ctx.mat("p", n, 3))
    out, ts = tf(r, kind)(p, into=dst, outof=src, timestamps=ctx.array(d),
                          return_timestamps=True)
    check_times(ctx, ts, d)
    # and none at all without
    out, ts = tf(r, kind)(p, into=dst, outof=src, return_timestamps=True)
    ctx.same("no timestamps", ts, None)
    ctx.same("no timestamps in lookup",
             r.lookup_transform(src, dst, return_timestamps=True)[2], None)


@case("T01", params=[dict(n=2, m=2), dict(n=3, m=2),
                     dict(n=3, m=3, _tier="thorough")],
      bounds="two event frames of 2-3 events at symbolic times, ties "
             "included")
def events_only(ctx, n, m):
    r = ctx.rbm
    a, b = ctx.times("a", n), ctx.times("b", m)
    r.register_frame("w")
    moving(ctx, "A", a, "w", discrete=True)
    moving(ctx, "B", b, "w", discrete=True)
    src, dst = ctx.choose("dir", [("A", "B"), ("B", "A")])
    t, q, ts = r.registry[src].lookup_transform(dst)
    # merge
    want, i, j = [], 0, 0
    while i < n or j < m:
        if j == m or (i < n and ctx.decide(a[i] < b[j])):
            want.append(a[i])
            i += 1
        elif i == n or ctx.decide(b[j] < a[i]):
            want.append(b[j])
            j += 1
        else:
            want.append(a[i])
            i, j = i + 1, j + 1
    check_times(ctx, ts, want)


@case("T01", bounds="an event frame and a moving frame or data, 2-3 "
                    "samples each, symbolic times")
def events_do_not_restrict(ctx):
    r = ctx.rbm
    a, b = ctx.times("a", 2), ctx.times("b", 2)
    r.register_frame("w")
    moving(ctx, "A", a, "w", discrete=True)
    other = ctx.choose("other", ["frame", "data"])
    if other == "frame":
        moving(ctx, "B", b, "w")
        src, dst = ctx.choose("dir", [("A", "B"), ("B", "A")])
        ts = r.registry[src].lookup_transform(dst)[2]
    else:
        src, dst = ctx.choose("dir", [("A", "w"), ("w", "A")])
        _, ts = r.transform_points(
            ctx.array(ctx.mat("p", 2, 3)), into=dst, outof=src,
            timestamps=ctx.array(b), return_timestamps=True)
    check_times(ctx, ts, b)


# ---------------------------------------------------------------- T02
GRIDS = {
    # name: (grid of A, grid of B, grid of data)
    "equal": ([0, 1, 2], [0, 1, 2], [0, 1, 2]),
    "nested": ([0, 2, 4], [0, 1, 2, 3, 4], [0, 2, 4]),
    "interleaved": ([0, 2, 4], [1, 3, 5], [0, 1, 2, 4]),
    "shifted": ([0, 1, 2, 3], [1, 2, 4], [-1, 1, 3]),
    "irregular": ([0, 1, 5], [0, 4, 5, 9], [0, 3, 5]),
    "single": ([2], [0, 2, 4], [1, 2, 3]),
    "single_data": ([0, 2], [0, 2, 4], [1]),
}


def grid(ctx, values, dtype):
    a = _np.array(values)
    if dtype == "float":
        return a.astype(float) / 2
    if dtype == "int":
        return a
    return a.astype("timedelta64[s]") + _np.datetime64("2020-01-01", "ns")


def at(ctx, samples, times, t):
    """Transform of a moving frame at time t (linear / library SQUAD)."""
    tr, rot = samples
    for i, ti in enumerate(times):
        if ti == t:
            return tr[i], rot[i]
    i = max(k for k in range(len(times)) if times[k] < t)
    w = float((t - times[i]) / (times[i + 1] - times[i]))
    if ctx.sym:
        from fractions import Fraction

        w = ctx.eng.const(Fraction(w).limit_denominator(10 ** 6)) \
            if hasattr(ctx.eng, "const") else w
    return O.lerp(tr[i], tr[i + 1], w), squad_at(ctx, rot, times, t)


def squad_at(ctx, rot, times, t):
    if ctx.sym:
        from sx import qshim
        from sx import stubs

        q = stubs.squad(
            qshim.as_quat_array(ctx.array(rot)),
            ctx.array([float(x) for x in times.astype(float)]),
            ctx.array([float(_np.array([t]).astype(float)[0])]))
        return list(qshim.as_float_array(q)[0])
    import quaternion as Q

    return Q.as_float_array(Q.squad(
        Q.as_quat_array(_np.array(rot)), times.astype(float),
        _np.array([t]).astype(float)))[0].tolist()


def common(primary, spans):
    return [t for t in primary if all(s[0] <= t <= s[-1] for s in spans)]


def path_transform(steps):
    tr = O.IDENT
    for s in steps:
        tr = O.compose(s, tr)
    return tr


@case("T02", params=[dict(g=g, kind=k, _tier="quick" if g in (
    "equal", "interleaved", "irregular", "single",
    "single_data") else "thorough")
    for g in GRIDS for k in ("lookup", "points", "vectors", "quaternions")],
    bounds="paths of up to 3 frames (moving up, moving down, static), 7 "
           "relative sampling grids of up to 5 samples, all sample values, "
           "float, integer and calendar timestamps")
def pointwise(ctx, g, kind):
    r = ctx.rbm
    dtype = ctx.choose("dtype", ["float", "int", "datetime"])
    tree = ctx.choose("tree", ["fork", "chain", "fork_static", "one",
                               "one_inverse"])
    a, b, d = [grid(ctx, x, dtype) for x in GRIDS[g]]
    r.register_frame("w")
    A = moving(ctx, "A", a, "w", inverse=tree == "one_inverse")
    if tree == "one_inverse":
        # given inverted: the frame's own samples are the inverses
        inv = [O.inverse(x) for x in zip(*A)]
        A = [x[0] for x in inv], [x[1] for x in inv]
    S = None
    if tree == "fork_static":
        S = static(ctx, "S", "w")
    if tree in ("fork", "fork_static", "chain"):
        B = moving(ctx, "B", b, {"fork": "w", "fork_static": "S",
                                 "chain": "A"}[tree])
    spans, back = [a], False
    if tree == "chain":
        src, dst, back = ctx.choose("dir", [("B", "w", False),
                                            ("w", "B", True)])
    elif tree.startswith("one"):
        src, dst, back = ctx.choose("dir", [("A", "w", False),
                                            ("w", "A", True)])
    else:
        src, dst, back = ctx.choose("dir", [("A", "B", False),
                                            ("B", "A", True)])
    if not tree.startswith("one"):
        spans.append(b)

    def full(t):
        TA = at(ctx, A, a, t)
        if tree == "one":
            tr = TA
        elif tree == "one_inverse":
            tr = TA
        else:
            TB = at(ctx, B, b, t)
            if tree == "chain":
                tr = path_transform([TB, TA])
            else:
                steps = [TA]
                if S is not None:
                    steps.append(O.inverse(S))
                tr = path_transform(steps + [O.inverse(TB)])
        if back:
            if tree in ("fork", "fork_static"):
                steps = [TB]
                if S is not None:
                    steps.append(S)
                return path_transform(steps + [O.inverse(TA)])
            if tree == "chain":
                return path_transform([O.inverse(TA), O.inverse(TB)])
            return O.inverse(tr)
        return tr

    if kind == "lookup":
        first = {"fork": (a, b), "fork_static": (a, b), "chain": (b, a),
                 "one": (a, a), "one_inverse": (a, a)}[tree][back]
        t, q, ts = r.lookup_transform(src, dst, return_timestamps=True)
        want = common(first, spans)
        ctx.same("timestamps", list(ts), want)
        if len(ts) != len(want):
            return
        for i, x in enumerate(want):
            tr = full(x)
            ctx.eq(f"translation at {i}", t[i], tr[0])
            ctx.eq(f"rotation at {i}", q[i], tr[1])
        return
    n = len(d)
    data = ctx.units("p", n) if kind == "quaternions" else ctx.mat("p", n, 3)
    out, ts = tf(r, kind)(ctx.array(data), into=dst, outof=src, timestamps=d,
                          return_timestamps=True)
    want = common(d, spans + [d])
    ctx.same("timestamps", list(ts), want)
    if not ctx.shape("result", out, (len(want),
                                     4 if kind == "quaternions" else 3)):
        return
    for i, x in enumerate(want):
        k = list(d).index(x)
        ctx.eq(f"data at {i}", out[i], apply(kind, full(x), data[k]))


@case("T02", params=[dict(na=2, nb=2), dict(na=2, nb=1), dict(na=1, nb=1),
                     dict(na=1, nb=2), dict(na=3, nb=2, _tier="thorough")],
      bounds="one moving frame and data of 1-3 samples each at symbolic "
             "times in every relative order")
def symbolic_times(ctx, na, nb):
    """Linear interpolation at symbolic times."""
    r = ctx.rbm
    a, b = ctx.times("a", na), ctx.times("b", nb)
    r.register_frame("w")
    tr = ctx.mat("tA", na, 3)
    r.register_frame("A", "w", translation=ctx.array(tr),
                     timestamps=ctx.array(a))
    p = ctx.mat("p", nb, 3)
    out, ts = r.transform_points(
        ctx.array(p), into="w", outof="A", timestamps=ctx.array(b),
        return_timestamps=True)
    want = within(ctx, b, [a])
    ctx.shape("result", out, (len(want), 3))
    j = 0
    for i in range(nb):
        if j < len(want) and want[j] is b[i]:
            if na == 1:
                ctx.eq("single", out[j], O.add(p[i], tr[0]))
            for k in range(na - 1):
                if ctx.decide(ctx.And(a[k] <= b[i], b[i] <= a[k + 1])):
                    w = (b[i] - a[k]) / (a[k + 1] - a[k])
                    ctx.eq("interpolated",
                           out[j], O.add(p[i], O.lerp(tr[k], tr[k + 1], w)))
                    break
            j += 1


@case("T02", bounds="moving frames of 1-4 samples looked up alone, inverse option "
                    "included")
def lookup_at_own_samples(ctx):
    """A moving frame's lookup at its samples is the samples."""
    r = ctx.rbm
    n = ctx.choose("n", [1, 2, 3, 4])
    inv = ctx.choose("inverse", [False, True])
    a = grid(ctx, [0, 1, 4, 5][:n], ctx.choose(
        "dtype", ["float", "int", "datetime"]))
    r.register_frame("w")
    A = moving(ctx, "A", a, "w", inverse=inv)
    t, q, ts = r.lookup_transform("A", "w", return_timestamps=True)
    ctx.same("timestamps", list(ts), list(a))
    for i in range(n):
        tr = (A[0][i], A[1][i])
        if inv:
            tr = O.inverse(tr)
        ctx.eq("t", t[i], tr[0])
        ctx.eq("q", q[i], tr[1])


REPEATED = {"later": [0, 1, 1, 3], "first": [1, 1, 2], "last": [1, 2, 2],
            "pair": [2, 2], "all": [1, 1, 1], "outside": [0, 0, 1, 4, 4]}


@case("T02", params=[dict(g=g, kind=k) for g in REPEATED
                     for k in ("points", "vectors", "quaternions")],
      bounds="data whose timestamps repeat (6 patterns of up to 5 samples) "
             "through static, moving and event-like frames, both directions")
def repeated_data_times(ctx, g, kind):
    r = ctx.rbm
    dtype = ctx.choose("dtype", ["float", "datetime"])
    own = grid(ctx, REPEATED[g], dtype)
    src = ctx.choose("src", ["static", "moving", "part", "events"])
    r.register_frame("w")
    span = None
    if src == "static":
        tr = static(ctx, "A", "w")
    elif src == "events":
        ev = grid(ctx, [1, 2], dtype)
        tr = moving(ctx, "A", ev, "w", discrete=True)
    else:
        tg = [0, 1, 2, 3] if src == "moving" else [1, 2]
        span = grid(ctx, tg, dtype)
        tr = moving(ctx, "A", span, "w")
    n, d = len(own), 4 if kind == "quaternions" else 3
    p = ctx.units("p", n) if d == 4 else ctx.mat("p", n, 3)
    up = ctx.choose("up", [True, False])
    kw = dict(outof="A", into="w") if up else dict(outof="w", into="A")
    out, ts = tf(r, kind)(ctx.array(p), timestamps=own,
                          return_timestamps=True, **kw)
    keep = [i for i in range(n)
            if span is None or span[0] <= own[i] <= span[-1]]
    ctx.same("timestamps", list(ts), [own[i] for i in keep])
    if not ctx.shape("result", out, (len(keep), d)):
        return
    for j, i in enumerate(keep):
        if src == "static":
            x = tr
        elif src == "events":
            k = 1 if own[i] >= ev[1] else 0
            x = (tr[0][k], tr[1][k])
        else:
            k = list(span).index(own[i])
            x = (tr[0][k], tr[1][k])
        ctx.eq("its own sample", out[j],
               apply(kind, x if up else O.inverse(x), p[i]))


@case("T02", bounds="a moving frame whose timestamps repeat (6 patterns of up "
      "to 5 samples) looked up at its own timestamps, both directions")
def repeated_frame_times(ctx):
    r = ctx.rbm
    a = grid(ctx, REPEATED[ctx.choose("g", sorted(REPEATED))],
             ctx.choose("dtype", ["float", "datetime"]))
    r.register_frame("w")
    A = moving(ctx, "A", a, "w")
    up = ctx.choose("up", [True, False])
    t, q, ts = r.lookup_transform(*(("A", "w") if up else ("w", "A")),
                                  return_timestamps=True)
    ctx.same("timestamps", list(ts), list(a))
    for i, x in enumerate(zip(*A)):
        x = x if up else O.inverse(x)
        ctx.eq("t", t[i], x[0])
        ctx.eq("q", q[i], x[1])


UNITS = ("s", "ms", "us", "ns")


def calendar(unit, seconds):
    return (_np.datetime64("2020-01-01T00:00:00")
            + _np.array(seconds).astype("timedelta64[s]")).astype(
                f"datetime64[{unit}]")


@case("T02", params=[dict(kind=k) for k in ("points", "quaternions",
                                            "lookup")],
      bounds="calendar timestamps: every pair of resolutions from seconds to "
             "nanoseconds of frame and data, continuous or events")
def resolutions(ctx, kind):
    r = ctx.rbm
    u, v = ctx.choose("frame", UNITS), ctx.choose("data", UNITS)
    discrete = ctx.choose("events", [False, True])
    r.register_frame("w")
    A = moving(ctx, "A", calendar(u, [0, 2, 4]), "w", discrete=discrete)
    ta = calendar("ns", [0, 2, 4])
    if kind == "lookup":
        own = calendar("ns", [0, 2, 4])
        if discrete:
            moving(ctx, "B", calendar(v, [0, 2, 4]), "w")
            t, q, ts = r.registry["A"].lookup_transform("B")
        else:
            moving(ctx, "B", calendar(v, [0, 3, 4]), "A")
            t, q, ts = r.registry["B"].lookup_transform("w")
            own = calendar("ns", [0, 3, 4])
        ctx.shape("translation", t, (3, 3))
        ctx.check("times", bool((_np.asarray(ts) == own).all()))
        return
    tb = calendar(v, [1, 2, 3])
    p = ctx.mat("p", 3, 4 if kind == "quaternions" else 3)
    out, ts = tf(r, kind)(ctx.array(p), into="w", outof="A", timestamps=tb,
                          return_timestamps=True)
    ctx.check("times", bool((_np.asarray(ts) == tb).all()))
    want = []
    for x, t in zip(p, calendar("ns", [1, 2, 3])):
        if discrete:
            i = max(i for i in range(3) if ta[i] <= t)
            want.append(apply(kind, (A[0][i], A[1][i]), x))
        else:
            want.append(apply(kind, at(ctx, A, ta, t), x))
    ctx.eq("transformed", out, want)


def series(ctx, name, n, some):
    """n samples, the given ones symbolic and the others fixed."""
    tr = [ctx.exact([(i * 5) % 7 - 3, (i * i) % 11, -i % 13])
          for i in range(n)]
    rot = [ctx.exact(TURNS[(3 * i) % 5]) for i in range(n)]
    for i in some:
        tr[i] = ctx.vec3("t%s%d" % (name, i))
        rot[i] = ctx.unit("q%s%d" % (name, i))
    return tr, rot


def ragged(n, start, calendar):
    """n increasing times in steps of 1, 2 or 4 (seconds)."""
    t = _np.cumsum([start] + [2 ** (i * 7 % 5 % 3) for i in range(n - 1)])
    if calendar:
        return t.astype("timedelta64[s]") + _np.datetime64("2020-02-28", "ns")
    return t.astype(float)


@case("T02", params=[dict(kind=k, n=n) for k in (
    "lookup", "points", "vectors", "quaternions") for n in (40, 150)] + [
    dict(kind="points", n=600), dict(kind="quaternions", n=600),
    dict(kind="points", n=2100)],
      bounds="long series: moving frames of 40 and 150 samples on irregular "
             "grids, three samples symbolic, and data of as many times as "
             "fit on a grid of its own; frames of 600 and 2100 samples and "
             "data at every 47th sample and in between; float and calendar "
             "times")
def long_series(ctx, kind, n):
    r = ctx.rbm
    cal = ctx.choose("calendar", [False, True])
    a, d = ragged(n, 0, cal), ragged(n - 7, 9, cal)
    d = d[d <= a[-1]]
    if n > 150:
        # in between where there is room
        d = a[3:-1:47] + (a[4::47] - a[3:-1:47])[:len(a[3:-1:47])] / 2
        d[1::4] = a[3:-1:47][1::4]
    r.register_frame("w")
    A = series(ctx, "A", n, (0, n // 2, n - 1))
    r.register_frame("A", "w", ctx.array(A[0]), ctx.array(A[1]),
                     timestamps=a)
    S = static(ctx, "S", "w")
    src, dst = ctx.choose("dir", [("A", "S"), ("S", "A")])

    def full(t):
        steps = [at(ctx, A, a, t), O.inverse(S)]
        if src == "S":
            steps = [O.inverse(x) for x in steps[::-1]]
        return path_transform(steps)

    if kind == "lookup":
        t, q, ts = r.lookup_transform(src, dst, return_timestamps=True)
        ctx.same("timestamps", list(ts), list(a))
        for i, x in enumerate(a):
            tr = full(x)
            ctx.eq("translation", t[i], tr[0])
            ctx.eq("rotation", q[i], tr[1])
        return
    m = len(d)
    w = 4 if kind == "quaternions" else 3
    p = [ctx.exact([(i * (k + 3)) % 7 - 3 for k in range(w)])
         for i in range(m)]
    p[m // 3] = ctx.reals("p", w)
    out, ts = tf(r, kind)(ctx.array(p), into=dst, outof=src, timestamps=d,
                          return_timestamps=True)
    ctx.same("timestamps", list(ts), list(d))
    for i, x in enumerate(d):
        ctx.eq("data", out[i], apply(kind, full(x), p[i]))


# ---------------------------------------------------------------- T03
def hold(ctx, samples, times, t):
    """Latest event not after t, else the first."""
    k = 0
    for i, ti in enumerate(times):
        if ctx.decide(ti <= t):
            k = i
    return samples[0][k], samples[1][k]


@case("T03", params=[dict(m=2, n=2), dict(m=3, n=2), dict(m=1, n=2),
                     dict(m=3, n=3, _tier="thorough")],
      bounds="1-3 events at symbolic times, data at 2 symbolic times, both "
             "directions, ties included")
def events_and_data(ctx, m, n):
    r = ctx.rbm
    e, d = ctx.times("e", m), ctx.times("d", n)
    r.register_frame("w")
    E_ = moving(ctx, "E", e, "w", discrete=True)
    kind = ctx.choose("kind", ["points", "vectors", "quaternions"])
    src, dst = ctx.choose("dir", [("E", "w"), ("w", "E")])
    data = (ctx.units if kind == "quaternions" else
            lambda nm, k: ctx.mat(nm, k, 3))("p", n)
    out, ts = tf(r, kind)(ctx.array(data), into=dst, outof=src,
                          timestamps=ctx.array(d), return_timestamps=True)
    ctx.shape("result", out, (n, 4 if kind == "quaternions" else 3))
    ctx.eq("timestamps", ts, d)
    for i in range(n):
        tr = hold(ctx, E_, e, d[i])
        if src == "w":
            tr = O.inverse(tr)
        ctx.eq(f"held transform {i}", out[i], apply(kind, tr, data[i]))


@case("T03", params=[dict(m=2), dict(m=3)],
      bounds="1-3 events and 2-3 samples of a moving frame, 3 relative "
             "grids with ties, all values")
def events_and_moving(ctx, m):
    r = ctx.rbm
    e = _np.array(ctx.choose("events", [
        [0.0, 1.0, 2.0], [0.5, 1.0, 9.0], [-3.0, -1.0, 0.25],
        [5.0, 6.0, 7.0], [1.0, 1.0, 2.0]])[:m])
    a = _np.array([0.0, 1.0, 2.0])
    r.register_frame("w")
    E_ = moving(ctx, "E", e, "w", discrete=True)
    A = moving(ctx, "A", a, "w")
    src, dst = ctx.choose("dir", [("E", "A"), ("A", "E")])
    t, q, ts = r.lookup_transform(src, dst, return_timestamps=True)
    ctx.same("timestamps", list(ts), list(a))
    for i in range(3):
        TE = hold(ctx, E_, list(e), a[i])
        TA = (A[0][i], A[1][i])
        tr = path_transform([TE, O.inverse(TA)] if src == "E"
                            else [TA, O.inverse(TE)])
        ctx.eq(f"translation {i}", t[i], tr[0])
        ctx.eq(f"rotation {i}", q[i], tr[1])


@case("T03", params=[dict(m=2, n=2), dict(m=3, n=2, _tier="thorough")],
      bounds="two event frames of 2-3 events at symbolic times with ties, "
             "optionally a static frame between")
def two_event_frames(ctx, m, n):
    r = ctx.rbm
    e, f = ctx.times("e", m), ctx.times("f", n)
    r.register_frame("w")
    st = ctx.choose("static", [False, True])
    S = None
    if st:
        S = static(ctx, "S", "w")
    E_ = moving(ctx, "E", e, "w", discrete=True)
    F = moving(ctx, "F", f, "S" if st else "w", discrete=True)
    t, q, ts = r.lookup_transform("E", "F", return_timestamps=True)
    times = [x for x in ctx.nested(ts)]
    for i, x in enumerate(times):
        steps = [hold(ctx, E_, e, x)]
        if S:
            steps.append(O.inverse(S))
        steps.append(O.inverse(hold(ctx, F, f, x)))
        tr = path_transform(steps)
        ctx.eq("translation", t[i], tr[0])
        ctx.eq("rotation", q[i], tr[1])


@case("T03", bounds="1-3 events, calendar or integer times; inverse option")
def event_dtypes(ctx):
    r = ctx.rbm
    dtype = ctx.choose("dtype", ["int", "datetime"])
    e = grid(ctx, [0, 4, 6], dtype)
    d = grid(ctx, [-1, 0, 3, 4, 5, 6, 9], dtype)
    inv = ctx.choose("inverse", [False, True])
    r.register_frame("w")
    E_ = moving(ctx, "E", e, "w", discrete=True, inverse=inv)
    p = ctx.mat("p", 7, 3)
    out = r.transform_points(ctx.array(p), into="w", outof="E", timestamps=d)
    for i, k in enumerate([0, 0, 0, 1, 1, 2, 2]):
        tr = (E_[0][k], E_[1][k])
        if inv:
            tr = O.inverse(tr)
        ctx.eq(f"held {i}", out[i], apply("points", tr, p[i]))


@case("T03", params=[dict(kind=k, n=n) for k in (
    "points", "vectors", "quaternions") for n in (30, 120)],
      bounds="long series: 30 and 120 events, three of them symbolic, data "
             "of 100 times from before the first until after the last event, "
             "on and between them; both directions, calendar or float times")
def many_events(ctx, kind, n):
    r = ctx.rbm
    cal = ctx.choose("calendar", [False, True])
    e, d = ragged(n, 4, cal), ragged(100, 0, cal)
    r.register_frame("w")
    E_ = series(ctx, "E", n, (0, n // 2, n - 1))
    r.register_frame("E", "w", ctx.array(E_[0]), ctx.array(E_[1]),
                     timestamps=e, discrete=True)
    src, dst = ctx.choose("dir", [("E", "w"), ("w", "E")])
    m = len(d)
    w = 4 if kind == "quaternions" else 3
    p = [ctx.exact([(i * (k + 3)) % 7 - 3 for k in range(w)])
         for i in range(m)]
    p[m // 3] = ctx.reals("p", w)
    out, ts = tf(r, kind)(ctx.array(p), into=dst, outof=src, timestamps=d,
                          return_timestamps=True)
    ctx.same("timestamps", list(ts), list(d))
    for i, x in enumerate(d):
        k = max(0, int((e <= x).sum()) - 1)
        tr = E_[0][k], E_[1][k]
        if src == "w":
            tr = O.inverse(tr)
        ctx.eq("held transform", out[i], apply(kind, tr, p[i]))


# ---------------------------------------------------------------- T04
@case("T04", params=[dict(n=1), dict(n=2), dict(n=3),
                     dict(n=4, _tier="thorough")],
      bounds="timestamp sequences of 1-3 symbolic times in any order, on "
             "data and on frames, continuous and event-like")
def monotonic(ctx, n):
    r = ctx.rbm
    t = ctx.reals("t", n)
    r.register_frame("w")
    where = ctx.choose("where", ["data", "data_static", "frame", "events"])
    kind = ctx.choose("kind", ["points", "vectors", "quaternions"])
    p = ctx.array(ctx.units("p", n) if kind == "quaternions"
                  else ctx.mat("p", n, 3))
    if where == "data_static":
        static(ctx, "A", "w")

        def call():
            return tf(r, kind)(p, into="w", outof="A",
                               timestamps=ctx.array(t))
    elif where == "data":
        def call():
            return tf(r, kind)(p, into="w", outof="w",
                               timestamps=ctx.array(t))
    else:
        moving(ctx, "A", t, "w", discrete=where == "events")

        def call():
            return r.lookup_transform("A", "w")
    bad = False
    for a, b in zip(t, t[1:]):
        bad = ctx.Or(bad, b < a)
    got, v = ctx.outcome(call)
    if ctx.decide(bad):
        ctx.check("decreasing timestamps refused",
                  got == "err" and isinstance(v, ValueError))
    else:
        # repeated times may trouble the interpolation library itself
        strict = True
        for a, b in zip(t, t[1:]):
            strict = ctx.And(strict, a < b)
        ctx.check("increasing timestamps accepted",
                  ctx.implies(strict, got == "ok"))
        if where in ("data", "data_static", "events"):
            ctx.check("repeated timestamps accepted", got == "ok")


@case("T04", bounds="arrays of 1-3 dimensions, components of length 0-12; "
                    "timestamps of lengths 0-6 and dimension up to 2")
def shapes(ctx):
    r = ctx.rbm
    r.register_frame("w")
    static(ctx, "S", "w")
    moving(ctx, "M", _np.array([0.0, 1.0, 2.0, 3.0]), "w")
    src = ctx.choose("src", ["S", "M"])
    kind = ctx.choose("kind", ["points", "vectors", "quaternions"])
    d = 4 if kind == "quaternions" else 3
    bad = ctx.choose("bad", [
        "none", "spatial", "spatial_axis0",
        "ts_length", "ts_2d", "ts_axis", "same_axis",
        "same_axis_neg", "unknown_src", "unknown_dst", "dim_plain"])
    kw = dict(into="w", outof=src)
    shp = (2, d)
    ts = _np.array([0.0, 1.0])
    if bad == "spatial":
        k = ctx.choose("k", [i for i in range(13) if i != d])
        shp = (2, k) if ctx.choose("rows", [True, False]) else (k,)
        if len(shp) == 1:
            ts = None
            if src == "M":
                ctx.assume(False)
    elif bad == "spatial_axis0":
        shp, ts = (2, d), None
        kw["axis"] = 0
        if src == "M":
            ctx.assume(False)
    elif bad == "ts_length":
        ts = _np.arange(ctx.choose("k", [0, 1, 3, 4, 6])) * 0.5
    elif bad == "ts_2d":
        ts = _np.array([[0.0], [1.0]])
    elif bad == "ts_axis":
        shp, kw["time_axis"] = (2, 5, d), 1
    elif bad == "same_axis":
        shp, ts, kw["time_axis"] = (2, d), _np.arange(float(d)), 1
    elif bad == "same_axis_neg":
        shp, ts, kw["time_axis"] = (2, d), _np.arange(float(d)), -1
    elif bad == "unknown_src":
        kw["outof"] = "nowhere"
    elif bad == "unknown_dst":
        kw["into"] = "nowhere"
    elif bad == "dim_plain":
        kw["dim"] = "x"
    p = ctx.array(ctx.block("p", shp))
    f = tf(r, kind)
    got, v = ctx.outcome(lambda: f(p, timestamps=ts, **kw))
    if bad == "none":
        ctx.check("fitting data accepted", got == "ok")
    else:
        ctx.check(f"{bad} refused", got == "err" and isinstance(
            v, ValueError))


@case("T04", bounds="calendar times of today's dates, three at steps of "
      "between -1000 and 1000 ns, on data and on frames")
def fine_calendar(ctx):
    r = ctx.rbm
    steps = [-1000, -100, -1, 0, 1, 100, 1000]
    a, b = ctx.choose("first", steps), ctx.choose("second", steps)
    t = (_np.datetime64("2024-05-06T07:08:09.123456789", "ns")
         + _np.array([0, a, a + b]).astype("timedelta64[ns]"))
    r.register_frame("w")
    where = ctx.choose("where", ["data", "labelled", "frame", "events"])
    p = ctx.array(ctx.mat("p", 3, 3))
    if where in ("data", "labelled"):
        static(ctx, "A", "w")
        kw = {"timestamps": t}
        if where == "labelled":
            import xarray as xr
            p = xr.DataArray(p, {"time": t}, ("time", "q"))
            kw = {}
        kind, v = ctx.outcome(r.transform_points, p, into="w", outof="A",
                              **kw)
    else:
        moving(ctx, "A", t, "w", discrete=where == "events")
        kind, v = ctx.outcome(r.lookup_transform, "A", "w")
    if min(a, b) < 0:
        ctx.check("decreasing timestamps refused",
                  kind == "err" and isinstance(v, ValueError))
    else:
        ctx.same("others accepted", kind, "ok")


@case("T04", bounds="lookups of unknown frames, non-frame arguments")
def unknown_frames(ctx):
    r = ctx.rbm
    r.register_frame("w")
    static(ctx, "A", "w")
    f = getattr(r, ctx.choose("f", [
        "lookup_transform", "lookup_pose", "lookup_twist",
        "lookup_linear_velocity", "lookup_angular_velocity"]))
    args = ctx.choose("args", [("A", "x"), ("x", "A"), ("x", "y")])
    ctx.raises("unknown frame", ValueError, lambda: f(*args))


@case("T04", params=[dict(kind=k) for k in ("points", "vectors",
                                            "quaternions")],
      bounds="labelled arrays of 3 times: times that decrease anywhere, "
             "components of wrong length, a component dimension given twice "
             "or equal to the time dimension, times not given by name; "
             "transforms from and to unknown frames in every form")
def labelled_rejects(ctx, kind):
    import xarray as xr

    r = ctx.rbm
    r.register_frame("w")
    src = ctx.choose("src", ["S", "M"])
    if src == "S":
        static(ctx, "S", "w")
    else:
        moving(ctx, "M", _np.array([0.0, 1.0, 2.0, 3.0]), "w")
    f = getattr(r, "transform_" + kind)
    m = getattr(r.registry[src], "transform_" + kind)
    d = 4 if kind == "quaternions" else 3
    p = ctx.mat("p", 3, d)

    def da(times=(0.0, 1.0, 2.0), rows=p):
        return xr.DataArray(ctx.array(rows), {"time": _np.array(times)},
                            ("time", "q"))

    up = ctx.choose("up", [True, False])
    args = {"outof": src, "into": "w"} if up else {
        "outof": "w", "into": src}
    for bad in ((0.0, 2.0, 1.0), (1.0, 0.0, 2.0), (2.0, 1.0, 0.0)):
        ctx.raises(f"times {bad}", ValueError, f, da(bad), **args)
    kept = (0.0, 1.0, 1.0) if src == "S" else (0.0, 1.0, 2.0)
    k, v = ctx.outcome(f, da(kept), **args)
    ctx.same("fitting data", k, "ok")
    for n in (2, 7 - d, 5):
        rows = [list(x)[:n] + [x[0]] * (n - d) for x in p]
        ctx.raises(f"{n} components", ValueError, f, da(rows=rows), **args)
    ctx.raises("dimension and axis", ValueError, f, da(), dim="q", axis=1,
               **args)
    ctx.raises("time as component", ValueError, f, da(), dim="time", **args)
    ctx.raises("dimension of a plain array", ValueError, f, ctx.array(p),
               dim="q", **args)
    ctx.raises("times as an array", Exception, f, da(),
               timestamps=_np.array([0.0, 1.0, 2.0]), **args)
    for x in ("x", "", "W", " w", "w ", "/w", "w/", "ww", "S/w", "S.w"):
        ctx.raises("unknown target", ValueError, f, ctx.array(p[0]), into=x,
                   outof="w")
        ctx.raises("unknown source", ValueError, f, ctx.array(p[0]),
                   into="w", outof=x)
        ctx.raises("unknown target", ValueError, m, ctx.array(p[0]), x)
        ctx.raises("unknown target", ValueError, f, da(), into=x, outof=src)
    for x in ("x", ""):
        for g in ("angular", "linear"):
            g = getattr(r, f"transform_{g}_velocity")
            for what in ("reference_frame", "moving_frame",
                         "representation_frame"):
                ctx.raises("unknown frame", ValueError, g,
                           ctx.array(p[0][:3]), x, "w", what=what)
                ctx.raises("unknown frame", ValueError, g,
                           ctx.array(p[0][:3]), "w", x, what=what)
