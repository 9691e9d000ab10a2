"""R: the frame registry and failed registrations."""
import contextlib
import io

from sx import oracle as O
from sx.runner import case

OPS = ["reg", "reg_upd", "obj", "obj_upd", "obj_again", "dereg",
       "obj_dereg", "clear", "drop"]


class Model:
    """Reference registry: a list of (name, frame) in order."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.r = ctx.rbm
        self.entries = []
        self.frames = []     # [frame, expected parent, name]
        self.names = []

    def same(self, a, b):
        if a is b:
            return True
        return not self.ctx.decide(self.ctx.name_differs(a, b))

    def find(self, name):
        for e in self.entries:
            if self.same(e[0], name):
                return e
        return None

    def fresh(self):
        n = self.ctx.name(f"n{len(self.names)}")
        self.names.append(n)
        return n

    def put(self, name, frame):
        e = self.find(name)
        if e is None:
            self.entries.append([name, frame])
        else:
            if e[1] is not frame:
                for f in self.frames:
                    if f[0] is e[1]:
                        f[1] = None
            e[1] = frame

    def verify(self, tag):
        """Registry, resolution and parents are those of the model."""
        ctx, r = self.ctx, self.r
        reg = r.registry
        ctx.check(f"{tag}: size", len(reg) == len(self.entries))
        for n in self.names:
            e = self.find(n)
            ctx.check(f"{tag}: presence", (n in reg) == (e is not None))
            # resolution, as a parent
            kind, probe = ctx.outcome(r.ReferenceFrame, None, n)
            if e is None:
                ctx.check(f"{tag}: unknown is ValueError",
                          kind == "err" and isinstance(probe, ValueError))
            else:
                ok = kind == "ok" and probe.parent is e[1]
                ctx.check(f"{tag}: resolves to the frame", ok)
                ctx.check(f"{tag}: registry holds the frame",
                          n in reg and reg[n] is e[1])
                if kind == "ok":
                    probe.parent = None
        for f, p, n in self.frames:
            ctx.check(f"{tag}: parent", f.parent is p)
            # whatever its name is registered for, an object is itself
            probe = r.ReferenceFrame(None, parent=f)
            ctx.check(f"{tag}: an object denotes itself", probe.parent is f)
            probe.parent = None


def step(m, k, ops):
    ctx, r = m.ctx, m.r
    op = ctx.choose(f"op{k}", ops)
    old = [f for f, p, n in m.frames]
    if op in ("reg", "reg_upd"):
        name = m.fresh()
        kw = {"update": True} if op == "reg_upd" else {}
        parent = None
        if m.entries and ctx.choose(f"child{k}", [False, True]):
            pn, parent = m.entries[-1]
            how = ctx.choose(f"by{k}", ["name", "object"])
            kw["parent"] = pn if how == "name" else parent
        taken = m.find(name)
        kind, v = ctx.outcome(r.register_frame, name, **kw)
        if taken is not None and op == "reg":
            ctx.check("taken name is ValueError",
                      kind == "err" and isinstance(v, ValueError))
        else:
            ctx.check("registered", kind == "ok")
            if kind == "ok":
                f = r.registry[name]
                ctx.check("a new frame", all(f is not g for g in old))
                ctx.same("its name", f.name is name, True)
                m.put(name, f)
                m.frames.append([f, parent, name])
    elif op in ("obj", "obj_upd"):
        name = m.fresh()
        parent = None
        if m.entries and ctx.choose(f"child{k}", [False, True]):
            parent = m.entries[0][1]
        f = r.ReferenceFrame(name, parent=parent)
        m.frames.append([f, parent, name])
        m.verify(f"step {k} constructed")
        taken = m.find(name)
        kind, v = ctx.outcome(f.register, **(
            {"update": True} if op == "obj_upd" else {}))
        if taken is not None and op == "obj":
            ctx.check("taken name is ValueError",
                      kind == "err" and isinstance(v, ValueError))
        else:
            ctx.check("registered", kind == "ok")
            m.put(name, f)
    elif op == "obj_again":
        # register an existing frame object once more
        if not m.frames:
            return False
        f, p, name = m.frames[-1]
        up = ctx.choose(f"up{k}", [False, True])
        taken = m.find(name)
        kind, v = ctx.outcome(f.register, update=up)
        if taken is not None and not up:
            ctx.check("taken name is ValueError",
                      kind == "err" and isinstance(v, ValueError))
        else:
            ctx.check("registered", kind == "ok")
            m.put(name, f)
    elif op in ("dereg", "obj_dereg"):
        if op == "dereg":
            name = m.fresh()
            kind, v = ctx.outcome(r.deregister_frame, name)
        else:
            if not m.frames:
                return False
            f, p, name = m.frames[-1]
            kind, v = ctx.outcome(f.deregister)
        e = m.find(name)
        if e is None:
            ctx.check("unknown name is ValueError",
                      kind == "err" and isinstance(v, ValueError))
        else:
            ctx.check("removed", kind == "ok")
            m.entries.remove(e)
    elif op == "clear":
        r.clear_registry()
        m.entries.clear()
    elif op == "drop":
        # destroy frames nothing refers to any more
        i = next((i for i, (f, p, n) in enumerate(m.frames)
                  if p is None and all(e[1] is not f for e in m.entries)
                  and all(q is not f for g, q, n2 in m.frames)), None)
        if i is None:
            return False
        del old
        f = None
        m.frames.pop(i)
    return True


FIRST = ["reg", "obj", "obj_upd"]


@case("R01", params=[dict(first=f, second=s) for f in FIRST for s in OPS],
      bounds="all histories of three operations beginning with a "
             "registration: register, update, register an object (again), "
             "deregister by name or object, clear, destroy; every pattern "
             "of equal names; parents by name or object")
def three_operations(ctx, first, second):
    m = Model(ctx)
    step(m, 0, [first])
    m.verify("step 0")
    if step(m, 1, [second]):
        m.verify("step 1")
        if step(m, 2, OPS):
            m.verify("step 2")
    ctx.finish()


@case("R01", tier="thorough",
      params=[dict(second=s, third=t) for s in OPS for t in OPS],
      bounds="all histories of four operations beginning with a "
             "registration")
def four_operations(ctx, second, third):
    m = Model(ctx)
    step(m, 0, ["reg", "obj"])
    if step(m, 1, [second]) and step(m, 2, [third]):
        m.verify("step 2")
        if step(m, 3, OPS):
            m.verify("step 3")
    ctx.finish()


@case("R01", bounds="nothing registered: every removal and use of a name, "
      "nameless frames")
def empty_registry(ctx):
    r = ctx.rbm
    n = ctx.name("n")
    v = ctx.array(ctx.vec3("v"))
    w = r.ReferenceFrame("w")
    ctx.raises("deregister", ValueError, r.deregister_frame, n)
    ctx.raises("deregister object", ValueError, w.deregister)
    ctx.raises("parent", ValueError, r.register_frame, "x", parent=n)
    ctx.raises("into", ValueError, r.transform_points, v, n, w)
    ctx.raises("outof", ValueError, r.transform_points, v, w, n)
    ctx.raises("lookup", ValueError, r.lookup_transform, n, w)
    ctx.raises("pose", ValueError, r.lookup_pose, w, n)
    ctx.raises("render", ValueError, r.render_tree, n)
    ctx.raises("nameless", ValueError, r.register_frame, None)
    ctx.raises("nameless object", ValueError, r.ReferenceFrame().register)
    ctx.check("nothing registered", len(r.registry) == 0)


SPELLINGS = ["a", "A", "/a", "a/", " a", "a ", "a\n", "aa", "", "1", "a/a",
             "a.a", "\u00e4", "a_left", "None"]


@case("R01", bounds="two frames whose names are spelled alike: case, slashes, "
      "blanks, prefixes, repetitions, empty and numeric names")
def similar_names(ctx):
    r = ctx.rbm
    i = ctx.choose("first", list(range(len(SPELLINGS))))
    j = ctx.choose("second", [k for k in range(len(SPELLINGS)) if k != i])
    a, b = SPELLINGS[i], SPELLINGS[j]
    r.register_frame("w")
    s, t, v = ctx.vec3("s"), ctx.vec3("t"), ctx.vec3("v")
    ctx.raises("parent not there yet", ValueError, r.register_frame, "x",
               parent=a, translation=ctx.array(s))
    r.register_frame(a, "w", ctx.array(s))
    ctx.raises("not there yet", ValueError, r.deregister_frame, b)
    ctx.raises("not there yet", ValueError, r.lookup_transform, b, "w")
    r.register_frame(b, "w", ctx.array(t))
    fa, fb = r.registry[a], r.registry[b]
    ctx.same("names", (fa.name, fb.name), (a, b))
    ctx.raises("taken", ValueError, r.register_frame, a)
    ctx.eq("first", r.transform_points(ctx.array(v), "w", a), O.add(v, s))
    ctx.eq("second", r.transform_points(ctx.array(v), "w", b), O.add(v, t))
    r.register_frame("x", a, ctx.array(v))
    ctx.check("parent", r.registry["x"].parent is fa)
    r.deregister_frame(a)
    ctx.raises("removed", ValueError, r.transform_points, ctx.array(v), "w",
               a)
    ctx.check("other stays", r.registry[b] is fb)
    ctx.eq("other", r.transform_points(ctx.array(v), "w", b), O.add(v, t))


@case("R01", bounds="two frames of any, possibly equal names, the second by "
      "update; any transforms")
def latest_transform(ctx):
    """Lookups by name use the frame registered last."""
    r = ctx.rbm
    r.register_frame("w")
    a, b = ctx.name("a"), ctx.name("b")
    w = r.registry["w"]
    for n in (a, b):
        ctx.assume(ctx.name_differs(n, "w") if not ctx.sym else True)
    t1, t2 = ctx.vec3("s"), ctx.vec3("t")
    q1, q2 = ctx.unit("p"), ctx.unit("q")
    r.register_frame(a, "w", ctx.array(t1), ctx.array(q1))
    r.register_frame(b, "w", ctx.array(t2), ctx.array(q2), update=True)
    v = ctx.vec3("v")
    eq = not ctx.decide(ctx.name_differs(a, b))
    first = O.add(O.rot(q2, v), t2) if eq else O.add(O.rot(q1, v), t1)
    ctx.eq("by first name", r.transform_points(ctx.array(v), w, a), first)
    ctx.eq("by second name", r.transform_points(ctx.array(v), w, b),
           O.add(O.rot(q2, v), t2))
    r.deregister_frame(a)
    kind, out = ctx.outcome(r.transform_points, ctx.array(v), w, b)
    if eq:
        ctx.check("removed", isinstance(out, ValueError))
    else:
        ctx.eq("other frame stays", out, O.add(O.rot(q2, v), t2))


CHANGES = ("none", "update child", "update middle", "rebuild middle",
           "move under", "move child to root", "assign transform",
           "rename")


@case("R01", params=[dict(change=c) for c in CHANGES],
      bounds="a tree of 4 frames looked up, changed (frames updated, rebuilt, "
             "re-parented, given another transform) and looked up again: "
             "every direction, by name and object, points and lookups")
def lookups_after_changes(ctx, change):
    """A lookup describes the tree as it is, whatever was looked up before."""
    r = ctx.rbm
    g = {k: (ctx.vec3("t" + k), ctx.unit("q" + k)) for k in "abc"}
    par = {"w": None, "a": "w", "b": "a", "c": "w"}
    fr = {}

    def reg(n, **kw):
        if par[n] is None:
            r.register_frame(n, **kw)
        else:
            r.register_frame(n, par[n], ctx.array(g[n][0]),
                             ctx.array(g[n][1]), **kw)
        fr[n] = r.registry[n]

    for n in ("w", "a", "b", "c"):
        reg(n)
    v = ctx.vec3("v")
    src, dst = ctx.choose("pair", [("b", "w"), ("w", "b"), ("b", "c"),
                                   ("c", "a")])

    def path(n):
        out = []
        while n is not None:
            out.append(n)
            n = par[n]
        return out

    def look(tag):
        up, down = path(src), path(dst)
        if up[-1] != down[-1]:
            for f in (r.lookup_transform, lambda into, outof:
                      r.transform_points(ctx.array(v), into, outof)):
                ctx.raises(f"{tag}: separate trees", Exception,
                           f, outof=src, into=dst)
            return
        x = v
        for n in up:
            if n in g:
                x = O.add(O.rot(g[n][1], x), g[n][0])
        for n in reversed(down):
            if n in g:
                x = O.rot(O.qconj(g[n][1]), O.sub(x, g[n][0]))
        by = ctx.choose("by", ["name", "object", "method"])
        A = ctx.array(v)
        s, d = (src, dst) if by == "name" else (fr[src], fr[dst])
        if by == "method":
            p, lk = s.transform_points(A, d), s.lookup_transform(d)
        else:
            p, lk = r.transform_points(A, d, s), r.lookup_transform(s, d)
        t, q = lk[:2]
        ctx.eq(f"{tag}: points", p, x)
        ctx.eq(f"{tag}: lookup", O.add(O.rot(
            ctx.nested(q), v), ctx.nested(t)), x)

    look("before")
    new = ctx.vec3("tn"), ctx.unit("qn")
    if change == "update child":
        g["b"] = new
        reg("b", update=True)
    elif change == "update middle":
        # the children stay with the frame that was replaced
        g["a"] = new
        reg("a", update=True)
        par["b"] = "old"
        par["old"] = None
    elif change == "rebuild middle":
        g["a"] = new
        r.deregister_frame("a")
        fr["a"].parent = None
        reg("a")
        reg("b", update=True)
    elif change == "move under":
        fr["b"].parent = fr["c"]
        par["b"] = "c"
    elif change == "move child to root":
        fr["b"].parent = fr["w"]
        par["b"] = "w"
    elif change == "assign transform":
        g["a"] = new
        fr["a"].translation = ctx.array(new[0])
        fr["a"].rotation = ctx.array(new[1])
    elif change == "rename":
        r.deregister_frame("c")
        r.register_frame("c", "b", ctx.array(new[0]), ctx.array(new[1]))
        fr["c"], g["c"], par["c"] = r.registry["c"], new, "b"
    look("after")


# ---------------------------------------------------------------- R02
def bad_calls(ctx, m, k):
    """(description, function) of refused constructions."""
    r = m.r
    A = ctx.array
    t3, q4 = ctx.vec3("bt"), ctx.unit("bq")
    t2, q2 = ctx.mat("bT", 2, 3), ctx.units("bQ", 2)
    ts = [0.0, 1.0]
    import numpy as np
    par = m.entries[0][0] if m.entries else None
    name = m.fresh()
    R = r.register_frame
    C = r.ReferenceFrame
    bad = {
        "no parent, translation": dict(translation=A(t3)),
        "no parent, rotation": dict(rotation=A(q4)),
        "no parent, timestamps": dict(timestamps=np.array(ts)),
        "no parent, event": dict(discrete=True),
        "unknown parent": dict(parent="never registered"),
        "parent of wrong type": dict(parent=7),
    }
    if par is not None:
        bad.update({
            "translation shape": dict(parent=par, translation=A(t2)),
            "rotation shape": dict(parent=par, rotation=A(t3)),
            "rotation shape, inverse": dict(
                parent=par, translation=A(t3), rotation=A(t3),
                inverse=True),
            "timestamps shape": dict(
                parent=par, translation=A(t2), rotation=A(q2),
                timestamps=np.array([ts, ts])),
            "timestamps number": dict(
                parent=par, translation=A(t2), rotation=A(q2),
                timestamps=np.array([0.0, 1.0, 2.0])),
            "static event": dict(
                parent=par, translation=A(t3), rotation=A(q4),
                discrete=True),
        })
    what = ctx.choose(f"bad{k}", list(bad) + (
        ["taken", "nameless", "taken child", "nameless child",
         "taken object", "dataset", "matrix"] if par is not None
        else ["nameless"]))
    upd = False
    if what in bad:
        kw = bad[what]
        how = ctx.choose(f"how{k}", ["register", "update", "construct"])
        if how == "construct":
            return name, lambda: C(name, **kw)
        return name, lambda: R(name, update=how == "update", **kw)
    if what == "taken":
        return par, lambda: R(par)
    if what == "taken child":
        return par, lambda: R(par, parent=par, translation=A(t3))
    if what == "nameless":
        return None, lambda: R(None)
    if what == "nameless child":
        return None, lambda: R(None, parent=par, rotation=A(q4))
    if what == "taken object":
        f = C(par, parent=par)
        m.frames.append([f, m.find(par)[1], par])
        return par, f.register
    if what == "dataset":
        import xarray as xr
        ds = xr.Dataset({"t": (("time", "c"), A(t2)),
                         "r": (("time", "q"), A(q2))}, {"time": ts})
        return name, lambda: C.from_dataset(
            ds.isel(time=0), "t", "r", "time", par, name)
    return name, lambda: C.from_rotation_matrix(A(t2), par, name)


def snapshot(m):
    reg = [(n, f) for n, f in m.r.registry.items()]
    tree = [(f, f.parent, tuple(f.children)) for f, p, n in m.frames]
    return reg, tree


def same_snap(a, b):
    if len(a[0]) != len(b[0]) or any(
            x[0] is not y[0] or x[1] is not y[1]
            for x, y in zip(a[0], b[0])):
        return False
    for x, y in zip(a[1], b[1]):
        if x[0] is not y[0] or x[1] is not y[1] or len(x[2]) != len(y[2]) \
                or any(c is not d for c, d in zip(x[2], y[2])):
            return False
    return True


GOOD = ["reg", "reg_upd", "obj", "dereg", "obj_dereg"]


@case("R02", params=[dict(n=n) for n in (0, 1)]
      + [dict(n=2, second=s) for s in GOOD]
      + [dict(n=3, second=s, _tier="thorough") for s in GOOD],
      bounds="every kind of refused construction or registration (wrong "
             "shapes, missing or unknown parent, static events, taken or "
             "missing name; directly or with update; constructors from "
             "dataset and matrix) after every history of up to 2 (thorough: "
             "3) valid operations, followed by further operations")
def refused(ctx, n, second=None):
    m = Model(ctx)
    for k in range(n):
        if not step(m, k, ["reg", "obj"] if k == 0 else
                    [second] if k == 1 else GOOD):
            ctx.finish()
            return
    name, call = bad_calls(ctx, m, 0)
    before = snapshot(m)
    kind, e = ctx.outcome(call)
    ctx.check("refused", kind == "err")
    if kind != "err":
        ctx.finish()
        return
    ctx.check("with an error naming the reason",
              isinstance(e, (ValueError, TypeError)))
    del e
    ctx.check("registry and trees unchanged",
              same_snap(before, snapshot(m)))
    m.verify("afterwards")
    # the name can still be used as if nothing had happened
    taken = name is not None and m.find(name) is not None
    if name is not None:
        kind, v = ctx.outcome(m.r.register_frame, name)
        ctx.check("name available as before", (kind == "ok") != taken)
    ctx.finish()


@case("R02", bounds="a refused child of a frame with one valid child: tree "
      "and transforms, printed and numeric")
def tree_after_refusal(ctx):
    r = ctx.rbm
    w = r.ReferenceFrame("w")
    w.register()
    t, q = ctx.vec3("t"), ctx.unit("q")
    r.register_frame("a", "w", ctx.array(t), ctx.array(q))

    def printed():
        b = io.StringIO()
        with contextlib.redirect_stdout(b):
            r.render_tree("w")
        return b.getvalue()

    p0 = printed()
    s = ctx.vec3("s")
    what = ctx.choose("what", ["shape", "taken", "event", "nameless"])
    kw = dict(shape=dict(name="b", translation=ctx.array([s, s])),
              taken=dict(name="a", translation=ctx.array(s)),
              event=dict(name="b", translation=ctx.array(s), discrete=True),
              nameless=dict(name=None, translation=ctx.array(s)))[what]
    ctx.raises("refused", ValueError,
               lambda: r.register_frame(parent="w", **kw))
    ctx.same("printed tree", printed(), p0)
    ctx.same("children", len(w.children), 1)
    v = ctx.vec3("v")
    ctx.eq("transform", r.transform_points(ctx.array(v), "w", "a"),
           O.add(O.rot(q, v), t))
    r.register_frame("b", "w", ctx.array(s))
    ctx.eq("later frame", r.transform_points(ctx.array(v), "b", "a"),
           O.sub(O.add(O.rot(q, v), t), s))
