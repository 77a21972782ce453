"""Stub of rospy, tf, tf2_ros and geometry_msgs on a simulated network.

The stub is the environment of ros_msg.py and ros_tf.py.  Messages behave like
genpy messages (slots, all-or-none positional arguments, struct serialisation
with type errors); tf.TransformListener behaves like tf's: a per listener
buffer of stamped transforms with interpolation, cache time, tf2's exceptions,
waits that poll on the simulated clock.
"""
import bisect
import heapq
import itertools
import math
import struct
import sys
import types

import numpy as np


class SerializationError(Exception):
    pass


def _f64(x):
    try:
        return struct.pack("<d", x)
    except struct.error as e:
        raise SerializationError(str(e))


class _Msg(object):
    __slots__ = ()
    _kinds = ()

    def __init__(self, *args, **kw):
        if args and kw:
            raise TypeError("Message constructor may only use args OR keywords, not both")
        if args:
            if len(args) != len(self.__slots__):
                raise TypeError("Invalid number of arguments, args should be %s args are %s" %
                                (list(self.__slots__), args))
            vals = dict(zip(self.__slots__, args))
        else:
            for k in kw:
                if k not in self.__slots__:
                    raise AttributeError("%s is not an attribute of %s" % (k, type(self).__name__))
            vals = kw
        for k, kind in zip(self.__slots__, self._kinds):
            v = vals.get(k)
            if v is None:
                v = 0. if kind == "d" else "" if kind == "s" else 0 if kind == "u" else kind()
            setattr(self, k, v)

    def serialize(self):
        out = []
        for k, kind in zip(self.__slots__, self._kinds):
            v = getattr(self, k)
            if kind == "d":
                out.append(_f64(v))
            elif kind == "u":
                out.append(struct.pack("<I", v))
            elif kind == "s":
                if isinstance(v, bytes):
                    b = v
                elif isinstance(v, str):
                    b = v.encode("utf-8")
                else:
                    raise SerializationError("field %s must be of type str" % k)
                out.append(struct.pack("<I", len(b)) + b)
            else:
                if not isinstance(v, kind):
                    raise SerializationError("Expected %s but got %r for field %s" % (kind.__name__, type(v), k))
                out.append(v.serialize())
        return b"".join(out)

    @classmethod
    def _de(cls, b, o):
        self = cls()
        for k, kind in zip(cls.__slots__, cls._kinds):
            if kind == "d":
                v = struct.unpack_from("<d", b, o)[0]
                o += 8
            elif kind == "u":
                v = struct.unpack_from("<I", b, o)[0]
                o += 4
            elif kind == "s":
                n = struct.unpack_from("<I", b, o)[0]
                v = b[o + 4:o + 4 + n].decode("utf-8")
                o += 4 + n
            else:
                v, o = kind._de(b, o)
            setattr(self, k, v)
        return self, o

    @classmethod
    def deserialize(cls, b):
        return cls._de(b, 0)[0]

    def __eq__(self, other):
        return type(self) is type(other) and all(getattr(self, k) == getattr(other, k) for k in self.__slots__)

    __hash__ = None

    def __repr__(self):
        return type(self).__name__ + "(" + ", ".join("%s=%r" % (k, getattr(self, k)) for k in self.__slots__) + ")"


def _mk(name, **fields):
    return type(name, (_Msg,), {"__slots__": list(fields), "_kinds": tuple(fields.values()),
                                "__module__": "geometry_msgs.msg"})


class Time(object):
    """rospy.Time: seconds and nanoseconds"""
    _kernel = None

    def __init__(self, secs=0, nsecs=0):
        if isinstance(secs, float):
            n = int(round(secs * 1e9))
            self.secs, self.nsecs = n // 10**9, n % 10**9
        else:
            n = secs * 10**9 + nsecs
            self.secs, self.nsecs = n // 10**9, n % 10**9

    @classmethod
    def from_ns(cls, n):
        t = cls()
        t.secs, t.nsecs = n // 10**9, n % 10**9
        return t

    @classmethod
    def from_sec(cls, s):
        return cls.from_ns(int(round(s * 1e9)))

    @staticmethod
    def now():
        return Time.from_ns(Time._kernel.ros_now())

    def to_nsec(self):
        return self.secs * 10**9 + self.nsecs

    def to_sec(self):
        return self.to_nsec() / 1e9

    def is_zero(self):
        return self.secs == 0 and self.nsecs == 0

    def __add__(self, d):
        if not isinstance(d, Duration):
            return NotImplemented
        return type(self).from_ns(self.to_nsec() + d.to_nsec())

    def __sub__(self, o):
        if isinstance(o, Duration):
            return type(self).from_ns(self.to_nsec() - o.to_nsec())
        if isinstance(o, Time):
            return Duration.from_ns(self.to_nsec() - o.to_nsec())
        return NotImplemented

    def __eq__(self, o):
        return isinstance(o, Time) and not isinstance(o, Duration) and self.to_nsec() == o.to_nsec()

    def __lt__(self, o):
        return self.to_nsec() < o.to_nsec()

    def __le__(self, o):
        return self.to_nsec() <= o.to_nsec()

    def __gt__(self, o):
        return self.to_nsec() > o.to_nsec()

    def __ge__(self, o):
        return self.to_nsec() >= o.to_nsec()

    def __hash__(self):
        return hash((self.secs, self.nsecs))

    def __repr__(self):
        return "rospy.Time[%d]" % self.to_nsec()

    def __bool__(self):
        return True


class Duration(Time):
    def __add__(self, o):
        if isinstance(o, Duration):
            return Duration.from_ns(self.to_nsec() + o.to_nsec())
        if isinstance(o, Time):
            return Time.from_ns(self.to_nsec() + o.to_nsec())
        return NotImplemented

    def __sub__(self, o):
        return Duration.from_ns(self.to_nsec() - o.to_nsec())

    def __eq__(self, o):
        return isinstance(o, Duration) and self.to_nsec() == o.to_nsec()

    def __hash__(self):
        return hash((self.secs, self.nsecs, "d"))

    def __repr__(self):
        return "rospy.Duration[%d]" % self.to_nsec()


class TransformException(Exception):
    pass


class LookupException(TransformException):
    pass


class ConnectivityException(TransformException):
    pass


class ExtrapolationException(TransformException):
    pass


class InvalidArgumentException(TransformException):
    pass


class TimeoutException(TransformException):
    pass


# -- tf buffer -------------------------------------------------------------------

def qmul(a, b):
    w1, x1, y1, z1 = a
    w2, x2, y2, z2 = b
    return (w1 * w2 - x1 * x2 - y1 * y2 - z1 * z2, w1 * x2 + x1 * w2 + y1 * z2 - z1 * y2,
            w1 * y2 - x1 * z2 + y1 * w2 + z1 * x2, w1 * z2 + x1 * y2 - y1 * x2 + z1 * w2)


def qconj(a):
    return (a[0], -a[1], -a[2], -a[3])


def qrot(q, v):
    r = qmul(qmul(q, (0.0,) + tuple(v)), qconj(q))
    return r[1:]


def qslerp(a, b, t):
    d = sum(x * y for x, y in zip(a, b))
    if d < 0:
        b = tuple(-x for x in b)
        d = -d
    if d > 1 - 1e-12:
        q = tuple(x + t * (y - x) for x, y in zip(a, b))
    else:
        th = math.acos(d)
        q = tuple((math.sin((1 - t) * th) * x + math.sin(t * th) * y) / math.sin(th) for x, y in zip(a, b))
    n = math.sqrt(sum(x * x for x in q))
    return tuple(x / n for x in q)


def compose(a, b):
    (ta, qa), (tb, qb) = a, b
    r = qrot(qa, tb)
    return tuple(x + y for x, y in zip(ta, r)), qmul(qa, qb)


def inverse(a):
    t, q = a
    qi = qconj(q)
    return tuple(-x for x in qrot(qi, t)), qi


class Buffer(object):
    """One listener's buffer: child -> (parent, [(stamp ns, t, q wxyz)]) sorted by stamp"""

    def __init__(self, cache_ns):
        self.cache = cache_ns
        self.frames = {}

    def clear(self):
        self.frames = {}

    def set(self, parent, child, stamp, t, q, static=False):
        f = self.frames.setdefault(child, [])
        if f and stamp < f[-1][0] - self.cache:
            return False
        i = bisect.bisect_left([e[0] for e in f], stamp)
        e = (stamp, parent, tuple(t), tuple(q))
        if i < len(f) and f[i][0] == stamp:
            f[i] = e
        else:
            f.insert(i, e)
        lim = f[-1][0] - self.cache
        while f and f[0][0] < lim:
            f.pop(0)
        return True

    def _known(self, fr):
        if fr in self.frames:
            return True
        return any(e[1] == fr for f in self.frames.values() for e in f)

    def _at(self, child, stamp):
        """(parent, t, q) of child at stamp; None: no data for it"""
        f = self.frames.get(child)
        if not f:
            return None
        if len(f) == 1:
            if f[0][0] != stamp:
                raise ExtrapolationException("one entry for %s" % child)
            return f[0][1:]
        if stamp < f[0][0]:
            raise ExtrapolationException("Lookup would require extrapolation into the past")
        if stamp > f[-1][0]:
            raise ExtrapolationException("Lookup would require extrapolation into the future")
        i = bisect.bisect_left([e[0] for e in f], stamp)
        if f[i][0] == stamp:
            return f[i][1:]
        a, b = f[i - 1], f[i]
        if a[1] != b[1]:
            return a[1:]
        w = (stamp - a[0]) / float(b[0] - a[0])
        t = tuple(x + w * (y - x) for x, y in zip(a[2], b[2]))
        return a[1], t, qslerp(a[3], b[3], w)

    def _chain_latest(self, fr):
        out = []
        seen = set()
        while fr in self.frames and self.frames[fr] and fr not in seen:
            seen.add(fr)
            e = self.frames[fr][-1]
            out.append((fr, e[0], e[1]))
            fr = e[1]
        return out, fr

    def latest_common(self, a, b):
        ca, ra = self._chain_latest(a)
        cb, rb = self._chain_latest(b)
        if a == b:
            return ca[0][1] if ca else 0
        pa = [a] + [x[2] for x in ca]
        pb = [b] + [x[2] for x in cb]
        com = [x for x in pa if x in pb]
        if not com:
            raise ConnectivityException("%s and %s are not part of the same tree" % (a, b))
        c = com[0]
        ts = []
        for chain in (ca, cb):
            for fr, st, par in chain:
                if fr == c:
                    break
                ts.append(st)
        return min(ts) if ts else 0

    def _to_root(self, fr, stamp):
        out = [(fr, ((0., 0., 0.), (1., 0., 0., 0.)))]
        acc = out[0][1]
        err = None
        seen = set()
        while fr not in seen:
            seen.add(fr)
            try:
                e = self._at(fr, stamp)
            except ExtrapolationException as x:
                err = x
                break
            if e is None:
                break
            acc = compose((e[1], e[2]), acc)
            fr = e[0]
            out.append((fr, acc))
        return out, err

    def lookup(self, target, source, stamp):
        for f in (target, source):
            if not isinstance(f, str) or not f:
                raise InvalidArgumentException("frame id cannot be empty")
            if f.startswith("/"):
                raise InvalidArgumentException("Invalid argument %r: tf2 frame_ids cannot start with a '/'" % f)
            if not self._known(f):
                raise LookupException('"%s" passed to lookupTransform does not exist.' % f)
        if target == source:
            return (0., 0., 0.), (1., 0., 0., 0.)
        if stamp == 0:
            stamp = self.latest_common(target, source)
        s, es = self._to_root(source, stamp)
        t, et = self._to_root(target, stamp)
        td = dict()
        for f, x in t:
            td.setdefault(f, x)
        for f, x in s:
            if f in td:
                return compose(inverse(td[f]), x)
        if es or et:
            raise es or et
        raise ConnectivityException("Could not find a connection between '%s' and '%s'" % (target, source))

    def lookup_full(self, target, tt, source, st, fixed):
        a = self.lookup(fixed, source, st)
        b = self.lookup(target, fixed, tt)
        return compose(b, a)


# -- simulated ROS process --------------------------------------------------------

class Kernel(object):
    """What the stub modules talk to; C07/C08 supply a discrete event world."""

    def __init__(self):
        self.listeners = []
        self.params = {}
        self.t = 10**12
        self.calls = []

    def ros_now(self):
        return self.t

    def sleep_ns(self, n):
        self.t += n

    def touch(self, l):
        pass

    def new_listener(self, l):
        self.listeners.append(l)

    def get_param(self, key, *default):
        if key in self.params:
            v = self.params[key]
            return v() if callable(v) else v
        if default:
            return default[0]
        raise KeyError(key)


class _Holder(object):
    kernel = Kernel()


Time._kernel = type("K", (), {"ros_now": staticmethod(lambda: _Holder.kernel.ros_now())})


def set_kernel(k):
    _Holder.kernel = k


DEFAULT_POLL = 50 * 10**6


class TransformListener(object):
    def __init__(self, buff_size=None, cache_time=None, queue_size=None, interpolating=True):
        c = 10 * 10**9
        for v in (buff_size, cache_time):
            if isinstance(v, Duration):
                c = v.to_nsec()
        self.buf = Buffer(c)
        self.cb = None
        _Holder.kernel.new_listener(self)

    def _t(self, t):
        if not isinstance(t, Time):
            raise TypeError("time must have a secs and nsecs")
        return t.to_nsec()

    @staticmethod
    def _strip(f):
        return f[1:] if isinstance(f, str) and f.startswith("/") else f

    def lookupTransform(self, target_frame, source_frame, time):
        _Holder.kernel.touch(self)
        t, q = self.buf.lookup(self._strip(target_frame), self._strip(source_frame), self._t(time))
        return list(t), [q[1], q[2], q[3], q[0]]

    def lookupTransformFull(self, target_frame, target_time, source_frame, source_time, fixed_frame):
        _Holder.kernel.touch(self)
        t, q = self.buf.lookup_full(self._strip(target_frame), self._t(target_time), self._strip(source_frame),
                                    self._t(source_time), self._strip(fixed_frame))
        return list(t), [q[1], q[2], q[3], q[0]]

    def canTransform(self, target_frame, source_frame, time):
        try:
            self.lookupTransform(target_frame, source_frame, time)
            return True
        except TransformException:
            return False

    def canTransformFull(self, target_frame, target_time, source_frame, source_time, fixed_frame):
        try:
            self.lookupTransformFull(target_frame, target_time, source_frame, source_time, fixed_frame)
            return True
        except TransformException:
            return False

    def _wait(self, can, timeout, poll):
        k = _Holder.kernel
        if not isinstance(timeout, Duration):
            raise TypeError("timeout must be a Duration")
        p = DEFAULT_POLL
        if poll is not None:
            if not isinstance(poll, Duration):
                raise TypeError("polling_sleep_duration must be a Duration")
            p = max(1, poll.to_nsec())
        start = k.ros_now()
        while True:
            if can():
                return
            if k.ros_now() - start >= timeout.to_nsec():
                raise TimeoutException("wait timed out")
            k.sleep_ns(p)

    def waitForTransform(self, target_frame, source_frame, time, timeout, polling_sleep_duration=None):
        self._wait(lambda: self.canTransform(target_frame, source_frame, time), timeout, polling_sleep_duration)

    def waitForTransformFull(self, target_frame, target_time, source_frame, source_time, fixed_frame, timeout,
                             polling_sleep_duration=None):
        self._wait(lambda: self.canTransformFull(target_frame, target_time, source_frame, source_time, fixed_frame),
                   timeout, polling_sleep_duration)

    def clear(self):
        self.buf.clear()

    # the rest of tf's Transformer interface
    def frameExists(self, f):
        return self.buf._known(self._strip(f))

    def getLatestCommonTime(self, a, b):
        return Time.from_ns(self.buf.latest_common(self._strip(a), self._strip(b)))

    def getFrameStrings(self):
        return sorted(self.buf.frames)

    def setTransform(self, msg, authority="default"):
        t, q = msg.transform.translation, msg.transform.rotation
        self.buf.set(msg.header.frame_id, msg.child_frame_id, msg.header.stamp.to_nsec(), (t.x, t.y, t.z),
                     (q.w, q.x, q.y, q.z))


def modules():
    """fresh stub modules: name -> module"""
    g = types.ModuleType("geometry_msgs")
    gm = types.ModuleType("geometry_msgs.msg")
    g.__path__ = []
    g.msg = gm
    for c in (Quaternion, Point, Vector3, Pose, Twist, Wrench, TransformMsg, TransformStamped, PoseStamped):
        setattr(gm, c.__name__, c)
    rp = types.ModuleType("rospy")
    rp.Time, rp.Duration = Time, Duration
    rp.get_param = lambda key, *d: _Holder.kernel.get_param(key, *d)
    rp.has_param = lambda key: key in _Holder.kernel.params
    rp.sleep = lambda d: _Holder.kernel.sleep_ns(d.to_nsec() if isinstance(d, Time) else int(d * 1e9))
    rp.get_time = lambda: _Holder.kernel.ros_now() / 1e9
    rp.is_shutdown = lambda: False
    rp.ROSException = type("ROSException", (Exception,), {})
    rp.ROSInterruptException = type("ROSInterruptException", (rp.ROSException, KeyboardInterrupt), {})
    for n in ("loginfo", "logwarn", "logerr", "logdebug"):
        setattr(rp, n, lambda *a, **k: None)

    class Rate(object):
        def __init__(self, hz, reset=False):
            self.d = int(1e9 / hz)

        def sleep(self):
            _Holder.kernel.sleep_ns(self.d)
    rp.Rate = Rate
    t2 = types.ModuleType("tf2_ros")
    for c in (TransformException, LookupException, ConnectivityException, ExtrapolationException,
              InvalidArgumentException, TimeoutException):
        setattr(t2, c.__name__, c)
    tf = types.ModuleType("tf")
    tf.TransformListener = TransformListener
    tf.LookupException, tf.ConnectivityException = LookupException, ConnectivityException
    tf.ExtrapolationException, tf.Exception = ExtrapolationException, TransformException
    return {"geometry_msgs": g, "geometry_msgs.msg": gm, "rospy": rp, "tf": tf, "tf2_ros": t2}


Quaternion = _mk("Quaternion", x="d", y="d", z="d", w="d")
Point = _mk("Point", x="d", y="d", z="d")
Vector3 = _mk("Vector3", x="d", y="d", z="d")
Pose = _mk("Pose", position=Point, orientation=Quaternion)
Twist = _mk("Twist", linear=Vector3, angular=Vector3)
Wrench = _mk("Wrench", force=Vector3, torque=Vector3)
TransformMsg = _mk("Transform", translation=Vector3, rotation=Quaternion)


class Header(_Msg):
    __slots__ = ["seq", "stamp", "frame_id"]
    __module__ = "geometry_msgs.msg"

    def __init__(self, *a, **k):
        self.seq, self.stamp, self.frame_id = 0, Time(), ""
        if a:
            self.seq, self.stamp, self.frame_id = a
        for n, v in k.items():
            setattr(self, n, v)

    def serialize(self):
        if not isinstance(self.frame_id, str):
            raise SerializationError("frame_id must be of type str")
        b = self.frame_id.encode("utf-8")
        return struct.pack("<IqI", self.seq, self.stamp.to_nsec(), len(b)) + b

    @classmethod
    def _de(cls, b, o):
        seq, st, n = struct.unpack_from("<IqI", b, o)
        o += struct.calcsize("<IqI")
        h = cls(seq, Time.from_ns(st), b[o:o + n].decode("utf-8"))
        return h, o + n


TransformStamped = _mk("TransformStamped", header=Header, child_frame_id="s", transform=TransformMsg)
PoseStamped = _mk("PoseStamped", header=Header, pose=Pose)


def install():
    for n, m in modules().items():
        sys.modules[n] = m
