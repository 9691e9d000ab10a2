"""S05: bag files."""
import os
import shutil
import tempfile

import numpy as _np

from sx import ros
from sx.nshim import SymArray, to_obj
from sx.props.s_buffer import UNITS
from sx.props.s_msg import head, leaves, v3
from sx.runner import case

SCALE = 1e-4


def table(ctx):
    ctx.ros = ros.Ros(ctx)
    t = ctx.ros.table()
    if ctx.sym:
        import pandas as pd

        def plain(x):
            if isinstance(x, SymArray):
                o = to_obj(x)
                return _np.array([float(v.const_value()) if hasattr(
                    v, "const_value") else float(v) for v in o.reshape(-1)]
                ).reshape(o.shape)
            return x

        t["pandas"].to_datetime = lambda x, *a, **k: pd.to_datetime(
            plain(x), *a, **k)
        t["pandas"].DatetimeIndex = pd.DatetimeIndex
        t["pandas"].Index = pd.Index
    return t


class Scratch:
    """A folder, and symbolic datasets kept as if in netCDF files."""

    def __init__(self, ctx):
        self.ctx = ctx

    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="sxbag")
        if self.ctx.sym:
            import xarray as xr
            self.xr = xr
            self.old = (xr.Dataset.to_netcdf, xr.open_dataset,
                        xr.load_dataset)
            kept = {}

            def to_netcdf(ds, path=None, mode="w", encoding=None, **kw):
                self.ctx.check("written as a new file", mode == "w")
                kept[str(path)] = self.pack(ds, encoding or {})
                with open(path, "w") as f:
                    f.write("dataset")

            def open_dataset(path, **kw):
                if not os.path.exists(path):
                    raise FileNotFoundError(path)
                return kept[str(path)].copy()

            xr.Dataset.to_netcdf = to_netcdf
            xr.open_dataset = xr.load_dataset = open_dataset
        return self

    def pack(self, ds, encoding):
        """The values a reader gets back after packing."""
        out = {}
        ctx = self.ctx
        for k, v in ds.data_vars.items():
            e = dict(encoding.get(k, {}))
            a = _np.empty(v.shape, dtype=object)
            vals = to_obj(v.data) if isinstance(
                v.data, SymArray) else v.values
            step = e.get("scale_factor", 1)
            integer = _np.dtype(e.get("dtype", float)).kind in "iu"
            for i in _np.ndindex(*v.shape):
                x = vals[i]
                if integer:
                    n = f"packed{self.count}"
                    self.count += 1
                    r = ctx.real(n)
                    h = step / 2
                    ctx.assume(ctx.And(r >= x - h, r <= x + h))
                    lim = step * _np.iinfo(e["dtype"]).max
                    ctx.check("packed values within range",
                              ctx.And(x >= -lim, x <= lim))
                    x = r
                a[i] = x
            out[k] = (v.dims, ctx.array(a.tolist()))
        return self.xr.Dataset(out, {k: v.variable for k, v in
                                     ds.coords.items()}, ds.attrs)

    count = 0

    def __exit__(self, *a):
        if self.ctx.sym:
            (self.xr.Dataset.to_netcdf, self.xr.open_dataset,
             self.xr.load_dataset) = self.old
        shutil.rmtree(self.dir)


ODO, TF = "nav_msgs/Odometry", "geometry_msgs/TransformStamped"
FIELDS = {ODO: (("position", 3), ("orientation", 4), ("linear_velocity", 3),
                ("angular_velocity", 3)),
          TF: (("position", 3), ("orientation", 4))}


def message(kind, stamp, rows):
    """One message with the given field values (scalar part first)."""
    if kind == ODO:
        m = ros.Odometry()
        p, q = m.pose.pose.position, m.pose.pose.orientation
        tw = m.twist.twist
        vs = ((tw.linear, rows["linear_velocity"]),
              (tw.angular, rows["angular_velocity"]))
    else:
        m = ros.TransformStamped()
        p, q, vs = m.transform.translation, m.transform.rotation, ()
    m.header.stamp = stamp
    for o, r in ((p, rows["position"]), *vs):
        o.x, o.y, o.z = r
    q.w, q.x, q.y, q.z = rows["orientation"]
    return m


def fill(ctx, path, topics, tag="", times=None, any_order=False):
    """Write a bag whose messages alternate between topics.

    topics: {topic: (type, count)}; returns {topic: (times, rows)}
    """
    entries, want = [], {}
    most = max(n for _, n in topics.values())
    for k, (topic, (kind, n)) in enumerate(topics.items()):
        ts = times[:n] if times else (
            ctx.reals if any_order else ctx.times)(f"t{tag}{k}", n)
        rows = []
        for i in range(n):
            rows.append({f: ctx.reals(f"{tag}{f[0]}{f[-9:]}{k}_{i}", d)
                         for f, d in FIELDS[kind]})
        want[topic] = (kind, ts, rows)
    for i in range(most):
        for topic, (kind, ts, rows) in want.items():
            if i < len(rows):
                late = ros.Time(ts[i] + 10)
                m = message(kind, ros.Time(ts[i]), rows[i])
                entries.append((topic, m, late))
    ctx.ros.bags[str(path)] = entries
    return want


def same_values(ctx, name, got, want, tol=None):
    kind, ts, rows = want
    ctx.same(name + " fields", sorted(k for k in got if k != "timestamps"),
             sorted(f for f, _ in FIELDS[kind]))
    for f, d in FIELDS[kind]:
        if f not in got:
            continue
        ctx.shape(f"{name} {f} shape", got[f], (len(rows), d))
        for i, r in enumerate(rows):
            if tol is None:
                ctx.eq(f"{name} {f} {i}", list(got[f][i]), r[f])
            else:
                g = list(got[f][i])
                ctx.check(f"{name} {f} {i}", ctx.And(*[
                    ctx.And(x - y <= tol, y - x <= tol)
                    for x, y in zip(g, r[f])]))


TOPICS = {
    "odometry": {"/o": (ODO, 2)},
    "transform": {"/t": (TF, 3)},
    "mixed": {"/o": (ODO, 1), "/t": (TF, 2)},
    "prefixes": {"/a": (TF, 2), "/a/b": (TF, 3), "/b": (ODO, 1)},
}


def reader(ctx, path):
    return ctx.mod("ros.io").RosbagReader(path)


@case("S05", params=[dict(bag=k) for k in TOPICS], table=table,
      bounds="bags of up to 3 interleaved topics of up to 3 messages, all "
             "contents and header times (in any order), received at another "
             "time")
def messages(ctx, bag):
    ctx.rbm
    want = fill(ctx, "/x/r.bag", TOPICS[bag], any_order=True)
    r = reader(ctx, "/x/r.bag")
    with r as inner:
        ctx.check("context", inner is r)
        ctx.same("topics", r.get_topics_and_types(),
                 {k: v[0] for k, v in TOPICS[bag].items()})
        for topic, w in want.items():
            got = r.load_messages(topic)
            same_values(ctx, topic, got, w)
            ctx.eq(topic + " times", list(got["timestamps"]), w[1])
    ctx.same("closed again", [b.open for b in ctx.ros.handles], [False])
    for f in (r.get_topics_and_types, lambda: r.load_messages("/o")):
        ctx.raises("closed", RuntimeError, f)


@case("S05", params=[dict(cls=c) for c in ("RosbagReader", "RosbagWriter")],
      table=table,
      bounds="bags are closed and errors passed on when the block using them "
             "fails, and can be opened again")
def failing_block(ctx, cls):
    ctx.rbm
    fill(ctx, "/x/r.bag", TOPICS["odometry"])
    b = getattr(ctx.mod("ros.io"), cls)("/x/r.bag")
    error = ctx.choose("error", [RuntimeError, KeyError, ValueError])

    def block():
        with b:
            raise error("on purpose")

    for k in range(2):
        ctx.raises("passed on", error, block)
        ctx.same("closed", [x.open for x in ctx.ros.handles],
                 [False] * (k + 1))


@case("S05", table=table, bounds="topics of other types are refused")
def types(ctx):
    ctx.rbm
    m = ros.PoseStamped()
    ctx.ros.bags["/x/r.bag"] = [("/p", m, ros.Time(1))]
    with reader(ctx, "/x/r.bag") as r:
        ctx.same("topics", r.get_topics_and_types(),
                 {"/p": "geometry_msgs/PoseStamped"})
        ctx.raises("refused", ValueError, r.load_messages, "/p")
        ctx.raises("refused", ValueError, r.load_dataset, "/p")


TIMES = [1.5, 1.75, 1000000.25]


def labelled(ctx, name, ds, w, tol=None):
    kind, ts, rows = w
    same_values(ctx, name, {k: v.values if not isinstance(v.data, SymArray)
                            else v.data for k, v in ds.data_vars.items()}, w,
                tol)
    ctx.same(name + " times", ds["time"].values.astype(
        "datetime64[ns]").astype("int64").tolist(),
        [int(t * 1e9) for t in ts])
    ctx.same(name + " dims", {k: v.dims for k, v in ds.data_vars.items()},
             {f: ("time", "quaternion_axis" if d == 4 else "cartesian_axis")
              for f, d in FIELDS[kind]})
    ctx.same(name + " labels", (
        [str(x) for x in ds["cartesian_axis"].values],
        [str(x) for x in ds["quaternion_axis"].values]),
        (["x", "y", "z"], ["w", "x", "y", "z"]))


@case("S05", params=[dict(bag=k) for k in TOPICS], table=table,
      bounds="labelled datasets of the same bags (fixed header times, in "
             "and out of order)")
def datasets(ctx, bag):
    ctx.rbm
    times = ctx.choose("times", ["in order", "out of order", "equal"])
    times = {"in order": TIMES, "out of order": [TIMES[k] for k in (1, 2, 0)],
             "equal": [TIMES[0]] * 2 + TIMES[:1]}[times]
    want = fill(ctx, "/x/r.bag", TOPICS[bag], times=times)
    with reader(ctx, "/x/r.bag") as r:
        for topic, w in want.items():
            labelled(ctx, topic, r.load_dataset(topic), w)


def bounded(ctx, want):
    """Values a packed file can hold."""
    for kind, ts, rows in want.values():
        for r in rows:
            for vs in r.values():
                for v in vs:
                    ctx.assume(ctx.And(v >= -2e5, v <= 2e5))


HISTORIES = {
    "again": [("A", "/o"), ("A", "/o"), ("A", "/o")],
    "topics": [("A", "/o"), ("A", "/t"), ("A", "/o"), ("A", "/t")],
    "folders": [("A", "/o"), ("F", "/o"), ("A", "/o"), ("F", "/o")],
    "bags": [("A", "/o"), ("B", "/o")],
    "names": [("N", "/a/b"), ("N", "/a_b")],
}
CONTENT = {"A": {"/o": (ODO, 1), "/t": (TF, 2)}, "B": {"/o": (ODO, 1)},
           "F": {"/o": (ODO, 1)}, "N": {"/a/b": (TF, 1), "/a_b": (TF, 1)}}


@case("S05", params=[dict(history=k) for k in HISTORIES], table=table,
      bounds="up to 4 cached loads over 1-2 bags in one or two folders and "
             "1-2 topics, values within +-2e5, cached values to 1e-4; with "
             "and without uncached loads in between")
def cached(ctx, history):
    ctx.rbm
    plan = HISTORIES[history]
    with Scratch(ctx) as s:
        paths = {"A": "a.bag", "B": "b.bag", "F": "f/a.bag", "N": "n.bag"}
        want = {}
        for b in dict.fromkeys(b for b, _ in plan):
            want[b] = fill(ctx, os.path.join(s.dir, paths[b]), CONTENT[b],
                           tag=b, times=TIMES)
            bounded(ctx, want[b])
        mixed = ctx.choose("uncached in between", [False, True])
        for i, (b, topic) in enumerate(plan):
            with reader(ctx, os.path.join(s.dir, paths[b])) as r:
                if mixed:
                    labelled(ctx, f"uncached {i}", r.load_dataset(topic),
                             want[b][topic])
                ds = r.load_dataset(topic, cache=True)
                labelled(ctx, f"load {i}", ds, want[b][topic], SCALE)
                ds.close()
        found = sorted(
            os.path.relpath(os.path.join(d, f), s.dir)
            for d, _, fs in os.walk(s.dir) for f in fs)
        if history in ("again", "topics", "folders"):
            ctx.same("files", found, sorted({os.path.join(
                os.path.dirname(paths[b]), "cache",
                topic.replace("/", "_") + ".nc") for b, topic in plan}))


@case("S05", table=table,
      bounds="exports to the default and to given paths, as str or path, in "
             "existing and new folders, values within +-2e5 to 1e-4")
def exported(ctx):
    import pathlib
    ctx.rbm
    with Scratch(ctx) as s:
        bag = os.path.join(s.dir, "rec.ord.bag")
        want = fill(ctx, bag, CONTENT["A"], times=TIMES)
        bounded(ctx, want)
        to = ctx.choose("to", [None, "out.nc", "new/folder/out.nc"])
        topic = ctx.choose("topic", ["/o", "/t"])
        if to is None:
            args, out = (), os.path.join(s.dir, "rec.ord.nc")
        else:
            out = os.path.join(s.dir, to)
            args = (ctx.choose("as", [str, pathlib.Path])(out),)
        with reader(ctx, bag) as r:
            r.export(topic, *args)
        ctx.check("file written", os.path.exists(out))
        import xarray as xr
        ds = xr.open_dataset(out)
        labelled(ctx, "exported", ds, want[topic], SCALE)
        ds.close()


def written(ctx, path, topic, n, t, p, q):
    got = [e for e in ctx.ros.bags[path]]
    ctx.same("topics", [e[0] for e in got], [topic] * n)
    ctx.same("closed", [b.open for b in ctx.ros.handles if b.path == path],
             [False])
    for i, (tp, m, ts) in enumerate(got[:n]):
        if m.type is not ros.TransformStamped:
            ctx.check("type", False)
        leaves(ctx, f"message {i}", m, {
            **head("world", t[i]), "child_frame_id": "body",
            **v3("transform.translation", p[i]),
            **{f"transform.rotation.{c}": x for c, x in zip("wxyz", q[i])}})


@case("S05", table=table,
      bounds="0-3 transforms written from arrays or lists; arrays of wrong "
             "shapes are refused")
def write(ctx):
    ctx.rbm
    n = ctx.choose("n", [0, 1, 2, 3])
    t = ctx.times("t", n)
    p, q = ctx.mat("p", n, 3), ctx.mat("q", n, 4)
    W = ctx.mod("ros.io").RosbagWriter
    w = W("/x/w.bag")
    a = ctx.array if ctx.choose("as", ["array", "list"]) == "array" or not n \
        else list
    with w:
        if n == 0:
            z = _np.zeros
            w.write_transform_stamped(z(0), z((0, 3)), z((0, 4)), "/k",
                                      "world", "body")
        else:
            w.write_transform_stamped(a(t), a(p), a(q), "/k", "world",
                                      "body")
    written(ctx, "/x/w.bag", "/k", n, t, p, q)
    bad = [((), (3,), (4,)), ((2,), (3,), (4,)), ((2,), (2, 4), (2, 4)),
           ((2,), (2, 3), (2, 3)), ((2,), (3, 3), (2, 4)),
           ((2,), (2, 3), (3, 4)), ((2, 1), (2, 3), (2, 4)),
           ((3,), (3, 3), (4, 3)), ((4,), (3, 4), (4, 4))]
    shp = ctx.choose("bad", bad)
    with W("/x/v.bag") as w:
        ctx.raises("refused", ValueError, w.write_transform_stamped,
                   *[_np.ones(x) for x in shp], "/k", "world", "body")
    ctx.same("nothing written", ctx.ros.bags["/x/v.bag"], [])


@case("S05", params=[dict(n=k) for k in (1, 3, 4)], table=table,
      bounds="labelled datasets of 1, 3 and 4 transforms with their "
             "dimensions in any order, calendar times of every resolution "
             "and numeric ones, default and other names")
def write_dataset(ctx, n):
    import xarray as xr
    ctx.rbm
    unit = ctx.choose("unit", UNITS + ("number",))
    s = [1.0, 3.0, 4.0, 7.0][:n] if unit == "s" else [1, 1.5, 4, 4.25][:n]
    ts = _np.array(s, float)
    if unit != "number":
        ts = (ts * 1000).astype("datetime64[ms]").astype(
            f"datetime64[{unit}]")
    p, q = ctx.mat("p", n, 3), ctx.mat("q", n, 4)
    names = ctx.choose("names", [("time", "position", "orientation"),
                                 ("t", "a", "b")])
    flip = [ctx.choose(f"flip{i}", [False, True]) for i in range(2)]

    def var(rows, ax, f):
        if f:
            return (ax, names[0]), ctx.array([list(c) for c in zip(*rows)])
        return (names[0], ax), ctx.array(rows)

    ds = xr.Dataset({names[1]: var(p, "cartesian_axis", flip[0]),
                     names[2]: var(q, "quaternion_axis", flip[1])},
                    {names[0]: ts})
    kw = {} if names[0] == "time" else dict(zip(
        ("timestamps", "translation", "rotation"), names))
    with ctx.mod("ros.io").RosbagWriter("/x/w.bag") as w:
        w.write_transform_stamped_dataset(ds, "/k", "world", "body", **kw)
    written(ctx, "/x/w.bag", "/k", n, s, p, q)


@case("S05", params=[dict(kind=k) for k in ("plain", "labelled")],
      table=table,
      bounds="written transforms (2) are read back unchanged")
def roundtrip(ctx, kind):
    import xarray as xr
    ctx.rbm
    t = [1.5, 2.25]
    p, q = ctx.mat("p", 2, 3), ctx.mat("q", 2, 4)
    m = ctx.mod("ros.io")
    with m.RosbagWriter("/x/w.bag") as w:
        if kind == "plain":
            w.write_transform_stamped(_np.array(t), ctx.array(p),
                                      ctx.array(q), "/k", "world", "body")
        else:
            w.write_transform_stamped_dataset(xr.Dataset(
                {"position": (("time", "c"), ctx.array(p)),
                 "orientation": (("time", "q"), ctx.array(q))},
                {"time": (_np.array(t) * 1e9).astype("datetime64[ns]")}),
                "/k", "world", "body")
    got = []
    for topic, snap, ts in ctx.ros.bags["/x/w.bag"]:
        got.append((topic, message(TF, ros.Time(snap.d["header.stamp"]
                                                if "header.stamp" in snap.d
                                                else 0), {
            "position": snap.vec("transform.translation"),
            "orientation": snap.quat("transform.rotation")}), ros.Time(0)))
    stamps = [e for e in ctx.ros.bags["/x/w.bag"]]
    ctx.ros.bags["/x/w.bag"] = got
    with m.RosbagReader("/x/w.bag") as r:
        g = r.load_messages("/k")
    same_values(ctx, "read", g, (TF, t, [
        {"position": a, "orientation": b} for a, b in zip(p, q)]))
    ctx.same("count", len(stamps), 2)
