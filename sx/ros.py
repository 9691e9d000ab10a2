"""Stand-ins for the ROS Python packages, by their documented contracts.

The same stand-ins serve the symbolic and the concrete execution; they record
what the code sends and answer as the real packages would.  Values inside
messages may be symbolic.
"""
import numbers

import numpy as _np

from . import engine as E
from . import oracle as O
from .loader import module


class RosStop(Exception):
    pass


def scalar(x):
    if isinstance(x, (E.SymReal, numbers.Number)):
        return True
    return getattr(x, "ndim", None) == 0 and not hasattr(x, "dims")


def number(x):
    """What struct.pack accepts as a float field."""
    if not scalar(x):
        raise TypeError(f"field must be a number, not {type(x).__name__}")
    return x


class _TVal:
    """genpy.Time / genpy.Duration: a number of seconds."""

    def __init__(self, secs=0, nsecs=0):
        if isinstance(secs, _TVal):
            raise TypeError("not a number of seconds")
        self.sec = number(secs) + number(nsecs) / 1000000000

    @classmethod
    def from_sec(cls, float_secs):
        return cls(float_secs)

    def to_sec(self):
        return self.sec

    def to_nsec(self):
        return self.sec * 1000000000

    def is_zero(self):
        return bool(self.sec == 0)

    def __eq__(self, o):
        if not isinstance(o, _TVal):
            return NotImplemented
        return self.sec == o.sec

    __hash__ = None


class Time(_TVal):
    pass


class Duration(_TVal):
    pass


class Message:
    """genpy.Message: typed fields, given all by position or by name."""

    __slots__ = ()
    _types = ()
    _has_header = False
    _type = ""

    def __init__(self, *args, **kw):
        for n, t in zip(self.__slots__, self._types):
            setattr(self, n, t())
        if args:
            if kw:
                raise TypeError("positional or keyword arguments, not both")
            if len(args) != len(self.__slots__):
                raise TypeError(
                    "Invalid number of arguments, args should be "
                    f"{list(self.__slots__)} args are {args}")
            for n, a in zip(self.__slots__, args):
                setattr(self, n, a)
        for n, v in kw.items():
            if n not in self.__slots__:
                raise AttributeError(n)
            setattr(self, n, v)

    def __repr__(self):
        return type(self).__name__ + str(flat_msg(self))

    def serialize(self, buff):
        buff.write(Packed(flat_msg(self)) if hasattr(buff, "sx")
                   else repr(flat_msg(self)).encode())


def flat_msg(m, path=""):
    """[(path, value)] of all leaves, checking what packing would check."""
    out = []
    if isinstance(m, Message):
        for n, t in zip(m.__slots__, m._types):
            v = getattr(m, n)
            p = f"{path}.{n}" if path else n
            if t is float:
                out.append((p, number(v)))
            elif t is int:
                if isinstance(v, float) or not scalar(v):
                    raise TypeError(f"{p}: required argument is not an "
                                    "integer")
                out.append((p, v))
            elif t is str:
                if not isinstance(v, (str, E.SymName)):
                    raise TypeError(f"{p}: must be a string")
                out.append((p, v))
            elif t is list:
                v = list(v)
                out.append((p + ".length", len(v)))
                for i, x in enumerate(v):
                    out += flat_msg(x, f"{p}[{i}]")
            elif t is bool:
                out.append((p, v))
            elif issubclass(t, _TVal):
                if not isinstance(v, t):
                    raise TypeError(f"{p}: must be {t.__name__}")
                out.append((p, v.sec))
            else:
                if not isinstance(v, t):
                    raise TypeError(f"{p}: must be {t.__name__}")
                out += flat_msg(v, p)
    else:
        raise TypeError(f"{path}: not a message")
    return out


class Packed:
    """Serialised message, compared by content."""

    def __init__(self, leaves):
        self.leaves = leaves

    def __eq__(self, o):
        if not isinstance(o, Packed):
            return False
        a, b = self.leaves, o.leaves
        if len(a) != len(b):
            return False
        r = True
        for (p, x), (q, y) in zip(a, b):
            if p != q:
                return False
            e = (x == y)
            if not isinstance(e, E.SymBool):
                if not e:
                    return False
            else:
                r = e if r is True else (r & e)
        return r

    def __ne__(self, o):
        r = self == o
        return ~r if isinstance(r, E.SymBool) else not r

    def __bool__(self):
        return bool(self.leaves)

    def __len__(self):
        return len(self.leaves)

    __hash__ = None


class BytesIO:
    """io.BytesIO of packed messages."""

    sx = True

    def __init__(self, initial=None):
        self.parts = [] if initial is None else list(initial.leaves)

    def write(self, p):
        self.parts += p.leaves

    def getvalue(self):
        return Packed(list(self.parts))

    def read(self):
        return self.getvalue()

    def seek(self, *a):
        pass

    def truncate(self, *a):
        self.parts = []


def message(_name, _stamped=False, _pkg="geometry_msgs", **fields):
    d = {"__slots__": tuple(fields), "_types": tuple(fields.values()),
         "_has_header": _stamped, "_type": f"{_pkg}/{_name}"}
    return type(_name, (Message,), d)


Header = message("Header", _pkg="std_msgs", seq=int, stamp=Time, frame_id=str)
ColorRGBA = message("ColorRGBA", _pkg="std_msgs", r=float, g=float, b=float,
                    a=float)
Point = message("Point", x=float, y=float, z=float)
Vector3 = message("Vector3", x=float, y=float, z=float)
Quaternion = message("Quaternion", x=float, y=float, z=float, w=float)
Transform = message("Transform", translation=Vector3, rotation=Quaternion)
Pose = message("Pose", position=Point, orientation=Quaternion)
Twist = message("Twist", linear=Vector3, angular=Vector3)
PoseWithCovariance = message("PoseWithCovariance", pose=Pose)
TwistWithCovariance = message("TwistWithCovariance", twist=Twist)
PointStamped = message("PointStamped", True, header=Header, point=Point)
Vector3Stamped = message("Vector3Stamped", True, header=Header,
                         vector=Vector3)
QuaternionStamped = message("QuaternionStamped", True, header=Header,
                            quaternion=Quaternion)
PoseStamped = message("PoseStamped", True, header=Header, pose=Pose)
TwistStamped = message("TwistStamped", True, header=Header, twist=Twist)
TransformStamped = message("TransformStamped", True, header=Header,
                           child_frame_id=str, transform=Transform)
Odometry = message("Odometry", True, _pkg="nav_msgs", header=Header,
                   child_frame_id=str, pose=PoseWithCovariance,
                   twist=TwistWithCovariance)
tfMessage = message("tfMessage", _pkg="tf", transforms=list)
Marker = message("Marker", True, _pkg="visualization_msgs", header=Header,
                 ns=str, id=int, type=int, action=int, pose=Pose,
                 scale=Vector3, color=ColorRGBA, lifetime=Duration,
                 frame_locked=bool, points=list, colors=list, text=str,
                 mesh_resource=str, mesh_use_embedded_materials=bool)
for _i, _n in enumerate(["ARROW", "CUBE", "SPHERE", "CYLINDER", "LINE_STRIP",
                         "LINE_LIST", "CUBE_LIST", "SPHERE_LIST", "POINTS",
                         "TEXT_VIEW_FACING", "MESH_RESOURCE",
                         "TRIANGLE_LIST"]):
    setattr(Marker, _n, _i)
Marker.ADD = Marker.MODIFY = 0
Marker.DELETE = 2

GEOMETRY = dict(
    Point=Point, Vector3=Vector3, Quaternion=Quaternion,
    Transform=Transform, Pose=Pose, Twist=Twist, PointStamped=PointStamped,
    Vector3Stamped=Vector3Stamped, QuaternionStamped=QuaternionStamped,
    PoseStamped=PoseStamped, TwistStamped=TwistStamped,
    TransformStamped=TransformStamped, PoseWithCovariance=PoseWithCovariance,
    TwistWithCovariance=TwistWithCovariance)


class Snap:
    """Content of a message at the time it was sent."""

    def __init__(self, m):
        self.type = type(m)
        self.d = dict(flat_msg(m))

    def get(self, *paths):
        return [self.d[p] for p in paths]

    def vec(self, p):
        return self.get(*(f"{p}.{c}" for c in "xyz"))

    def quat(self, p):
        return self.get(*(f"{p}.{c}" for c in "wxyz"))


def vec(m):
    return [m.x, m.y, m.z]


def quat(m):
    return [m.w, m.x, m.y, m.z]


class Ros:
    """One simulated ROS installation."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.sent = []        # ("tf"|"static"|topic, Snap)
        self.turned = []      # (frame, time) of data handed to tf2
        self.slept = []
        self.publishers = []
        self.subscribers = []
        self.buffers = []
        self.kept = {}     # what a subscriber coming later is sent
        self.threads = []
        self.spun = 0
        self.shut = False
        self.on_sleep = None
        self.bags = {}
        self.handles = []      # every bag ever opened
        self.log = []

    # -- rospy --------------------------------------------------------
    def rospy(self):
        ros = self

        class Publisher:
            def __init__(self, name, data_class, subscriber_listener=None,
                         tcp_nodelay=False, latch=False, headers=None,
                         queue_size=None):
                self.name, self.data_class = name, data_class
                self.latch = latch
                ros.publishers.append(self)

            def publish(self, *args, **kw):
                m = args[0]
                if not isinstance(m, self.data_class):
                    raise TypeError("wrong message type")
                ros.sent.append((self.name, Snap(m)))
                if self.latch:
                    ros.kept[self.name] = ros.sent[-1][1]

        class Subscriber:
            def __init__(self, name, data_class, callback=None, *a, **k):
                self.name, self.data_class = name, data_class
                self.callback = callback
                ros.subscribers.append(self)

        def sleep(d):
            ros.slept.append(d.sec if isinstance(d, _TVal) else number(d))
            if ros.on_sleep:
                ros.on_sleep()

        def spin():
            ros.spun += 1

        return module(
            "rospy", Time=Time, Duration=Duration, Publisher=Publisher,
            Subscriber=Subscriber, sleep=sleep, spin=spin,
            is_shutdown=lambda: ros.shut,
            loginfo=lambda *a: ros.log.append(a))

    # -- tf2 ----------------------------------------------------------
    def tf2_ros(self):
        ros = self

        class Buffer:
            def __init__(self, cache_time=None, debug=True):
                if cache_time is not None and not isinstance(
                        cache_time, Duration):
                    raise TypeError("cache_time must be a Duration")
                self.cache_time = cache_time
                self.static = []
                self.moving = []
                self.queries = []
                ros.buffers.append(self)

            def set_transform_static(self, m, authority):
                assert isinstance(m, TransformStamped)
                self.static.append(Snap(m))

            def set_transform(self, m, authority):
                assert isinstance(m, TransformStamped)
                self.moving.append(Snap(m))

            def _edge(self, child, time):
                """(parent, t, q) of a frame, at one of its times."""
                for s in self.static:
                    if s.d["child_frame_id"] == child:
                        return (s.d["header.frame_id"],
                                s.vec("transform.translation"),
                                s.quat("transform.rotation"))
                best = None
                for s in self.moving:
                    if s.d["child_frame_id"] == child:
                        if bool(time.sec == 0) or bool(
                                s.d["header.stamp"] == time.sec):
                            best = s
                if best is None:
                    return None
                return (best.d["header.frame_id"],
                        best.vec("transform.translation"),
                        best.quat("transform.rotation"))

            def _chain(self, f, time):
                """frames above f and the pose of f in each of them"""
                out = [(f, [0, 0, 0], [1, 0, 0, 0])]
                while True:
                    f, t, q = out[-1]
                    e = self._edge(f, time)
                    if e is None:
                        return out
                    p, et, eq = e
                    out.append((p, O.add(O.rot(eq, t), et),
                                O.qmul(eq, q)))

            def lookup_transform(self, target_frame, source_frame, time,
                                 timeout=None):
                assert isinstance(time, Time)
                self.queries.append((target_frame, source_frame, time.sec))
                a = self._chain(source_frame, time)
                b = self._chain(target_frame, time)
                for f, t, q in a:
                    for g, s, p in b:
                        if f == g:
                            pi = O.qconj(p)
                            m = TransformStamped()
                            m.header.stamp = Time(time.sec)
                            m.header.frame_id = target_frame
                            m.child_frame_id = source_frame
                            m.transform.translation = Vector3(
                                *O.rot(pi, O.sub(t, s)))
                            w, x, y, z = O.qmul(pi, q)
                            m.transform.rotation = Quaternion(x, y, z, w)
                            return m
                raise LookupError(f"{target_frame} and {source_frame} are "
                                  "not connected")

            def can_transform(self, target_frame, source_frame, time,
                              timeout=None):
                try:
                    self.lookup_transform(target_frame, source_frame, time)
                except LookupError:
                    return False
                return True

        def broadcaster(kind):
            class Broadcaster:
                def sendTransform(self, m):
                    ms = m if isinstance(m, list) else [m]
                    for x in ms:
                        if not isinstance(x, TransformStamped):
                            raise TypeError("wrong message type")
                        ros.sent.append((kind, Snap(x)))
            return Broadcaster

        return module("tf2_ros", Buffer=Buffer,
                      TransformBroadcaster=broadcaster("tf"),
                      StaticTransformBroadcaster=broadcaster("static"))

    def tf2_geometry_msgs(self):
        ros = self

        def parts(tr):
            return (vec(tr.transform.translation),
                    quat(tr.transform.rotation))

        def do_transform_vector3(m, tr):
            t, q = parts(tr)
            ros.turned.append((m.header.frame_id, m.header.stamp.sec))
            r = Vector3Stamped()
            r.header = tr.header
            r.vector = Vector3(*O.rot(q, vec(m.vector)))
            return r

        def do_transform_point(m, tr):
            t, q = parts(tr)
            ros.turned.append((m.header.frame_id, m.header.stamp.sec))
            r = PointStamped()
            r.header = tr.header
            r.point = Point(*O.add(O.rot(q, vec(m.point)), t))
            return r

        def do_transform_pose(m, tr):
            t, q = parts(tr)
            ros.turned.append((m.header.frame_id, m.header.stamp.sec))
            r = PoseStamped()
            r.header = tr.header
            r.pose.position = Point(
                *O.add(O.rot(q, vec(m.pose.position)), t))
            w, x, y, z = O.qmul(q, quat(m.pose.orientation))
            r.pose.orientation = Quaternion(x, y, z, w)
            return r

        return module("tf2_geometry_msgs",
                      do_transform_vector3=do_transform_vector3,
                      do_transform_point=do_transform_point,
                      do_transform_pose=do_transform_pose)

    # -- threads: run at once -------------------------------------------
    def threading(self):
        ros = self
        import threading as T

        class Thread:
            def __init__(self, group=None, target=None, name=None, args=(),
                         kwargs=None, daemon=None):
                self.target, self.args = target, args
                self.kwargs = kwargs or {}
                ros.threads.append(self)

            def start(self):
                self.target(*self.args, **self.kwargs)

            def join(self, timeout=None):
                pass

            def is_alive(self):
                return False

        return module("threading", Thread=Thread, Lock=T.Lock,
                      RLock=T.RLock, Event=T.Event)

    # -- rosbag -----------------------------------------------------------
    def rosbag(self):
        ros = self

        class Bag:
            """ros.bags: path -> list of (topic, message, Time)"""

            def __init__(self, f, mode="r", **kw):
                self.path = str(f)
                self.mode = mode
                self.open = True
                ros.handles.append(self)
                if mode == "w":
                    ros.bags[self.path] = []
                elif self.path not in ros.bags:
                    raise FileNotFoundError(self.path)

            def close(self):
                self.open = False

            def _check(self):
                if not self.open:
                    raise ValueError("I/O operation on closed bag")

            def write(self, topic, msg, t=None, raw=False):
                self._check()
                ros.bags[self.path].append((topic, Snap(msg), t))

            def _sel(self, topics):
                if topics is None:
                    return list(ros.bags[self.path])
                ts = topics if isinstance(topics, (list, tuple)) else [topics]
                return [e for e in ros.bags[self.path] if e[0] in ts]

            def read_messages(self, topics=None, start_time=None,
                              end_time=None, **kw):
                self._check()
                yield from self._sel(topics)

            def get_type_and_topic_info(self, topic_filters=None):
                self._check()
                d = {}
                for t, m, ts in self._sel(topic_filters):
                    d[t] = TopicTuple(m._type, 1, 1, None)
                return Info({}, d)

        import collections

        TopicTuple = collections.namedtuple(
            "TopicTuple", ["msg_type", "message_count", "connections",
                           "frequency"])
        Info = collections.namedtuple(
            "TypesAndTopicsTuple", ["msg_types", "topics"])
        return module("rosbag", Bag=Bag)

    def table(self):
        t = {
            "rospy": self.rospy(),
            "geometry_msgs": module("geometry_msgs"),
            "geometry_msgs.msg": module("geometry_msgs.msg", **GEOMETRY),
            "std_msgs": module("std_msgs"),
            "std_msgs.msg": module("std_msgs.msg", ColorRGBA=ColorRGBA,
                                   Header=Header),
            "visualization_msgs": module("visualization_msgs"),
            "visualization_msgs.msg": module("visualization_msgs.msg",
                                             Marker=Marker),
            "nav_msgs": module("nav_msgs"),
            "nav_msgs.msg": module("nav_msgs.msg", Odometry=Odometry),
            "tf": module("tf"),
            "tf.msg": module("tf.msg", tfMessage=tfMessage),
            "tf2_ros": self.tf2_ros(),
            "tf2_geometry_msgs": self.tf2_geometry_msgs(),
            "threading": self.threading(),
            "rosbag": self.rosbag(),
        }
        if self.ctx.sym:
            t["io"] = module("io", BytesIO=BytesIO)
            t["pandas"] = pandas_for_symbols()
        return t


def table(ctx):
    ctx.ros = Ros(ctx)
    return ctx.ros.table()


# ----------------------------------------------------------------------
def pandas_for_symbols():
    """pandas, with an Index that finds the nearest of symbolic times."""
    import pandas as pd

    class Stamp:
        def __init__(self, sec):
            self.sec = sec

    def seconds(v):
        """Exact seconds of a time, calendar or numeric, or None."""
        if isinstance(v, Stamp):
            return v.sec
        if isinstance(v, _np.datetime64):
            return E.SymReal.lift(
                int(v.astype("datetime64[ns]").astype("int64"))
            ) / 1000000000
        if isinstance(v, pd.Timestamp):
            return E.SymReal.lift(v.value) / 1000000000
        return E.SymReal.lift(v)

    class Index:
        def __init__(self, values, **kw):
            self.values = values

        def __len__(self):
            return len(self.values)

        def __iter__(self):
            return iter(self.values)

        def __getitem__(self, i):
            v = self.values[i]
            return Index(v) if getattr(v, "ndim", 0) else v

        def __array__(self, dtype=None, copy=None):
            return _np.asarray(self.values)

        @property
        def dtype(self):
            return self.values.dtype

        @property
        def shape(self):
            return self.values.shape

        size = property(lambda self: len(self.values))
        ndim = 1

        def to_numpy(self, *a, **k):
            return self.values

        def astype(self, *a, **k):
            return Index(self.values.astype(*a, **k))

        def get_indexer(self, target, method=None, limit=None,
                        tolerance=None):
            return _np.array([self._find(x, method) for x in target])

        def get_loc(self, key):
            i = self._find(key, None)
            if i < 0:
                raise KeyError(key)
            return i

        def _find(self, x, method):
            s = [seconds(v) for v in self.values]
            x = seconds(x)
            for i, v in enumerate(s):
                if bool(v == x):
                    return i
            if method is None:
                return -1
            below = [i for i, v in enumerate(s) if bool(v < x)]
            above = [i for i, v in enumerate(s) if bool(v > x)]
            if method in ("pad", "ffill"):
                return below[-1] if below else -1
            if method in ("backfill", "bfill"):
                return above[0] if above else -1
            if method != "nearest":
                raise ValueError(method)
            if not below:
                return above[0]
            if not above:
                return below[-1]
            i, j = below[-1], above[0]
            # ties go to the larger
            return i if bool(x - s[i] < s[j] - x) else j

    class DatetimeIndex(Index):
        pass

    def index(values, **kw):
        if isinstance(values, Index):
            return values
        if getattr(values, "dtype", None) is not None and getattr(
                values.dtype, "kind", "") == "M":
            return DatetimeIndex(values)
        return Index(values)

    class IndexFactory(type):
        def __call__(cls, values, **kw):
            return index(values, **kw)

        def __instancecheck__(cls, o):
            return isinstance(o, Index)

    class IndexType(metaclass=IndexFactory):
        pass

    def to_datetime(arg, unit=None, **kw):
        if isinstance(arg, E.SymReal):
            k = {"s": 1, "ms": 1000, "us": 10 ** 6, "ns": 10 ** 9,
                 None: 10 ** 9}[unit]
            return Stamp(arg / k)
        return pd.to_datetime(arg, unit=unit, **kw)

    def timestamp(arg, unit=None, **kw):
        return to_datetime(arg, unit=unit) if isinstance(
            arg, E.SymReal) else pd.Timestamp(arg, unit=unit, **kw)

    m = module("pandas")
    m.__dict__.update({k: v for k, v in vars(pd).items()
                       if not k.startswith("__")})
    m.__dict__.update(Index=IndexType, DatetimeIndex=DatetimeIndex,
                      to_datetime=to_datetime, Timestamp=timestamp)
    return m
