"""O01: motion-capture import."""
import os
import shutil
import tempfile
from fractions import Fraction

import numpy as _np

from sx import oracle as O
from sx.loader import module
from sx.props.q_quat import ang, euler
from sx.runner import case


def table(ctx):
    """pandas reads the file; names in it then stand for unknown values."""
    ctx.tokens = {}
    ctx.tmp = None
    if not ctx.sym:
        return {}
    import pandas as pd

    def read_csv(*a, **k):
        df = pd.read_csv(*a, **k)
        for i, d in enumerate(df.dtypes):
            if d == object:
                col = df.iloc[:, i]
                v = [ctx.tokens.get(x, x) if isinstance(x, str) else x
                     for x in col]
                df.isetitem(i, pd.Series(v, index=col.index, dtype=object))
        return df

    names = {k: getattr(pd, k) for k in dir(pd) if not k.startswith("__")}
    names["read_csv"] = read_csv
    return {"pandas": module("pandas", **names)}


def cell(ctx, v):
    """The text of a value in the file."""
    if v is None:
        return ""
    if ctx.sym:
        k = f"value{len(ctx.tokens)}"
        ctx.tokens[k] = v
        return k
    return repr(float(v))


STARTS = {
    "2020-06-16 07.51.41.245 PM": "2020-06-16T19:51:41.245",
    "2021-01-01 12.00.00.000 AM": "2021-01-01T00:00:00",
    "2019-12-31 11.59.59.999 AM": "2019-12-31T11:59:59.999",
}
MARK = ("Marker", "B:Marker1", "M1", ("Position", "XYZ"))


def layouts(ctx):
    """Columns of the file: (type, name, id, [(motion, axes)])"""
    pose = [("Rotation", "XYZ"), ("Position", "XYZ")]
    swap = pose[::-1]
    return {
        "one": [("Rigid Body", "A", pose)],
        "swapped": [("Rigid Body", "A", swap)],
        "two": [("Rigid Body", "A", pose), ("Rigid Body", "B", pose)],
        "unsorted": [("Rigid Body", "B", pose), ("Rigid Body", "A", swap)],
        "markers": [("Rigid Body", "B", pose),
                    ("Marker", "B:Marker1", [("Position", "XYZ")]),
                    ("Rigid Body", "A", pose),
                    ("Marker", "A", [("Position", "XYZ")])],
        "error": [("Rigid Body", "A", pose + [("Mean Marker Error", "E")]),
                  ("Rigid Body Marker", "A:1", [("Position", "XYZ")])],
        "numbered": [("Rigid Body", "Body 10", pose),
                     ("Rigid Body", "Body 2", pose)],
    }


def deg(ctx, a):
    return a * (180 / Fraction(_np.pi)) if ctx.sym else float(
        _np.rad2deg(a))


def write(ctx, layout, times, units, order, start, missing=None,
          header="padded"):
    """Write a file; return its path and {body: (positions, angles)}."""
    meta = [("Format Version", "1.22"), ("Take Name", "t"),
            ("Capture Start Time", start)]
    if order is not None:
        meta.append(("Rotation Type", order))
    if units is not None:
        meta.append(("Length Units", units))
    meta.append(("Coordinate Space", "Global"))
    cols = [[], [], [], [], []]
    for kind, name, motions in layout:
        for motion, axes in motions:
            for ax in axes:
                for c, v in zip(cols, (kind, name, "ID" + name, motion,
                                       "" if ax == "E" else ax)):
                    c.append(v)
    n = len(cols[0])
    head = [x for kv in meta for x in kv]
    head += [""] * (n + 2 - len(head))
    width = len(head)
    pad = [""] * (width - n - 2)
    lines = [head, [""] * width]
    if header != "padded":
        lines[1] = []
    if header == "short":
        while lines[0][-1] == "":
            lines[0].pop()
    lines += [["", ""] + c + pad for c in cols[:4]]
    lines.append(["Frame", "Time (Seconds)"] + cols[4] + pad)
    out = {}
    # angles of a few bodies in few frames: each unknown costs
    for i, t in enumerate(times):
        row = [str(4 * i), repr(t)]
        for kind, name, motions in layout:
            for motion, axes in motions:
                if kind == "Rigid Body" and motion in ("Rotation",
                                                       "Position"):
                    key = f"{motion[0]}{name}{i}"
                    if missing == (name, i):
                        vals = v = [None] * 3
                    elif motion == "Position":
                        vals = v = ctx.vec3(key)
                    else:
                        v = [ang(ctx, f"{key}{c}") for c in axes]
                        vals = [deg(ctx, x) for x in v]
                    out.setdefault(name, {"Position": [], "Rotation": []})[
                        motion].append(v)
                else:
                    vals = ctx.reals(f"m{kind}{name}{motion}{i}", len(axes))
                row += [cell(ctx, v) for v in vals]
        lines.append(row + pad)
    d = tempfile.mkdtemp(prefix="sxtrack")
    p = os.path.join(d, "take.csv")
    with open(p, "w") as f:
        f.write("\n".join(",".join(x) for x in lines) + "\n")
    return d, p, out


NAN = [float("nan")] * 4


def load(ctx, p, fmt):
    """{body: (positions, orientations, times, labels)}"""
    f = ctx.mod("io").load_optitrack
    got = f(p) if fmt == "default" else f(p, fmt)
    res = {}
    for k, v in got.items():
        if fmt in ("default", "numpy"):
            res[k] = (*v, None)
        elif fmt == "pandas":
            res[k] = (v["position"].values, v["orientation"].values,
                      v.index.values, (
                          list(v["position"].columns),
                          list(v["orientation"].columns), v.index.name))
        else:
            res[k] = (v["position"].values, v["orientation"].values,
                      v["time"].values, (
                          list(v["cartesian_axis"].values),
                          list(v["quaternion_axis"].values), "time"))
            ctx.same("dims of " + k, (v["position"].dims,
                                      v["orientation"].dims),
                     (("time", "cartesian_axis"),
                      ("time", "quaternion_axis")))
    return res


def judge(ctx, got, want, times, start, order, factor, fmt):
    ctx.same("bodies", sorted(got), sorted(want))
    o = (order or "XYZ").translate(str.maketrans("XYZ", "rpy"))
    for name, w in want.items():
        if name not in got:
            continue
        pos, ori, ts, labels = got[name]
        n = len(times)
        ctx.shape("position shape", pos, (n, 3))
        ctx.shape("orientation shape", ori, (n, 4))
        for i in range(n):
            p, a = w["Position"][i], w["Rotation"][i]
            if p[0] is None:
                flags = [x != x for x in list(pos[i]) + list(ori[i])]
                ctx.check("missing stays missing", all(
                    x is True or x is _np.True_ for x in flags))
                continue
            ctx.eq(f"position of {name} at {i}", list(pos[i]),
                   [x * factor for x in p])
            ctx.eq(f"orientation of {name} at {i}", list(ori[i]),
                   euler(ctx, dict(zip("rpy", a)), o))
        base = _np.datetime64(STARTS[start], "ns")
        ctx.same("time type", _np.asarray(ts).dtype.kind, "M")
        ctx.same("times", [int(abs(x)) <= 1 for x in (
            _np.asarray(ts).astype("datetime64[ns]") - base
            - _np.array([round(t * 1e9) for t in times],
                        "timedelta64[ns]")).astype(int)], [True] * n)
        if labels is not None:
            ctx.same("labels", labels,
                     (["x", "y", "z"], ["w", "x", "y", "z"], "time"))


LAYOUTS = ("one", "swapped", "two", "unsorted", "markers", "error",
           "numbered")


def run(ctx, layout, times=(0.0, 0.016667), units="Centimeters", order="XYZ",
        start=next(iter(STARTS)), fmt="numpy", missing=None, header="padded"):
    ctx.rbm
    d, p, want = write(ctx, layouts(ctx)[layout], list(times), units, order,
                       start, missing, header)
    try:
        got = load(ctx, p, fmt)
    finally:
        shutil.rmtree(d)
    factor = {"Centimeters": Fraction(1, 100),
              "Millimeters": Fraction(1, 1000)}.get(units, 1)
    if not ctx.sym:
        factor = float(factor)
    judge(ctx, got, want, times, start, order, factor, fmt)


@case("O01", params=[dict(layout=x) for x in LAYOUTS], table=table,
      bounds="files of 1-2 rigid bodies in any order with and without "
             "markers and error columns, 2 frames, all coordinates and "
             "angles, every format")
def bodies(ctx, layout):
    run(ctx, layout, fmt=ctx.choose("format", ["numpy", "pandas", "xarray"]))


@case("O01", params=[dict(order=o) for o in (
    "XYZ", "XZY", "YXZ", "YZX", "ZXY", "ZYX", None)], table=table,
    bounds="all six axis orders and none given, all angles, 1 frame")
def orders(ctx, order):
    run(ctx, "one", times=(0.5,), order=order)


@case("O01", params=[dict(units=u) for u in (
          "Centimeters", "Millimeters", "Meters", None)],
      table=table,
      bounds="centimetres, millimetres, metres and none given, 3 frames, capture starts "
             "before and after noon")
def units(ctx, units):
    run(ctx, "one", times=(0.0, 0.004167, 3725.5), units=units,
        start=ctx.choose("start", list(STARTS)),
        fmt=ctx.choose("format", ["default", "numpy", "pandas", "xarray"]))


@case("O01", table=table,
      bounds="one body not tracked in one frame of two")
def missing(ctx):
    run(ctx, "two", missing=ctx.choose("missing", [("A", 0), ("B", 1)]),
        fmt=ctx.choose("format", ["numpy", "xarray"]))


@case("O01", params=[dict(header=h) for h in ("empty", "short")],
      table=table,
      bounds="second line of the file empty, first line without trailing "
             "commas, 2 frames")
def headers(ctx, header):
    run(ctx, ctx.choose("layout", ["one", "markers"]), header=header,
        fmt=ctx.choose("format", ["numpy", "pandas"]))


@case("O01", table=table, bounds="unknown formats are refused")
def formats(ctx):
    ctx.rbm
    d, p, want = write(ctx, layouts(ctx)["one"], [0.0], "Meters", "XYZ",
                       next(iter(STARTS)))
    try:
        ctx.raises("refused", ValueError, ctx.mod("io").load_optitrack, p,
                   "csv")
    finally:
        shutil.rmtree(d)
