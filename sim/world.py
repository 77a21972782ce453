"""Process wide seams: clock, entropy, numpy settings.

A Python process in which simulated runs execute is prepared once by install();
every run starts from reset(seed), which puts clock, entropy and the numpy and
warning state in a known position.  Only code of the library (and of what it
calls) sees the simulated functions: the harness keeps the originals below.
"""
import os
import random as _random_mod
import signal
import sys
import time as _time
import warnings

real_monotonic = _time.monotonic
real_perf = _time.perf_counter
real_sleep = _time.sleep
real_time = _time.time
real_urandom = os.urandom

_installed = False


class Clock(object):
    """Simulated clock (seconds as float, never read from the machine)."""

    def __init__(self):
        self.now = 1.7e9
        self.mono = 1000.0
        self.reads = 0
        self.rate = 0.0         # seconds that pass between two reads (a slow machine)
        self.sleep_hook = None

    def reset(self, base=1.7e9):
        self.now = base
        self.mono = 1000.0
        self.reads = 0
        self.rate = 0.0
        self.sleep_hook = None

    def advance(self, dt):
        if dt > 0:
            self.mono += dt
        self.now += dt


clock = Clock()
_entropy = _random_mod.Random(0)


def _s_time():
    clock.reads += 1
    clock.advance(clock.rate)
    return clock.now


def _s_mono():
    clock.reads += 1
    clock.advance(clock.rate)
    return clock.mono


def _s_sleep(dt):
    if clock.sleep_hook is not None:
        return clock.sleep_hook(dt)
    clock.advance(dt)


def _s_urandom(n):
    return bytes(_entropy.getrandbits(8) for _ in range(n))


def install():
    global _installed
    if _installed:
        return
    _installed = True
    import numpy  # noqa: F401  (must not see the simulated clock while importing)
    _time.time = _s_time
    _time.time_ns = lambda: int(_s_time() * 1e9)
    _time.monotonic = _s_mono
    _time.monotonic_ns = lambda: int(_s_mono() * 1e9)
    _time.perf_counter = _s_mono
    _time.perf_counter_ns = lambda: int(_s_mono() * 1e9)
    _time.process_time = _s_mono
    _time.thread_time = _s_mono
    _time.sleep = _s_sleep
    os.urandom = _s_urandom
    _random_mod._urandom = _s_urandom


def reset(seed=0, clock_base=1.7e9, warn="ignore"):
    import numpy as np
    clock.reset(clock_base)
    _entropy.seed(seed)
    _random_mod.seed(seed)
    np.random.seed(seed & 0x7fffffff)
    np.seterr(all="warn")
    np.seterrcall(None)
    np.set_printoptions(edgeitems=3, infstr='inf', linewidth=75, nanstr='nan', precision=8,
                        suppress=False, threshold=1000, formatter=None)
    warnings.resetwarnings()
    if warn:
        warnings.simplefilter(warn)


def probe(objs=()):
    """cheap fingerprint of the process wide settings and of what objs hold, for picking interesting instants"""
    import numpy as np
    ds = [o.__dict__ for o in objs if hasattr(o, "__dict__")]
    env = os.environ._data

    def f():
        x = [np.geterr(), os.getcwd(), id(warnings.filters), len(warnings.filters), id(warnings.showwarning), len(env),
             id(sys.stdout), len(sys.path), sys.getrecursionlimit()]
        for d in ds:
            x.extend(map(id, d.values()))
        return x
    return f


def settings_snapshot(with_random=True):
    """Everything process wide that a call must not leave changed."""
    import locale
    import decimal
    import numpy as np
    po = np.get_printoptions()
    po.pop("formatter", None)
    snap = {
        "np.geterr": tuple(sorted(np.geterr().items())),
        "np.geterrcall": repr(np.geterrcall()),
        "np.printoptions": repr(sorted(po.items(), key=lambda t: t[0])),
        "warnings.filters": repr(warnings.filters),
        "warnings.showwarning": id(warnings.showwarning),
        "os.environ": hash(tuple(sorted(os.environ.items()))),
        "os.getcwd": os.getcwd(),
        "sys.path": tuple(sys.path),
        "sys.argv": (id(sys.argv), tuple(sys.argv)),
        "sys.recursionlimit": sys.getrecursionlimit(),
        "sys.switchinterval": sys.getswitchinterval(),
        "sys.stdout": (id(sys.stdout), id(sys.stderr), id(sys.excepthook)),
        "locale": locale.setlocale(locale.LC_ALL),
        "decimal.prec": decimal.getcontext().prec,
        "gc": __import__("gc").isenabled(),
        "umask": _umask(),
        "signal handlers": tuple(repr(signal.getsignal(n)) for n in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM)),
    }
    y = sys.modules.get("yaml")
    if y is not None:
        snap["yaml loaders"] = tuple(
            hash(tuple((repr(k), repr(v)) for k, v in t.items())) for c in (y.Loader, y.SafeLoader, y.FullLoader)
            for t in (c.yaml_implicit_resolvers, c.yaml_constructors, c.yaml_multi_constructors))
    et = sys.modules.get("xml.etree.ElementTree")
    if et is not None:
        snap["xml namespaces"] = tuple(sorted(et._namespace_map.items()))
    lg = sys.modules.get("logging")
    if lg is not None:
        snap["logging"] = (lg.root.level, len(lg.root.handlers), lg.root.manager.disable, lg.raiseExceptions)
    so = sys.modules.get("socket")
    if so is not None:
        snap["socket timeout"] = so.getdefaulttimeout()
    if with_random:
        st = np.random.get_state()
        snap["np.random"] = (st[0], st[1].tobytes(), st[2], st[3], st[4])
        snap["random"] = hash(_random_mod.getstate())
    return snap


def _umask():
    u = os.umask(0o22)
    os.umask(u)
    return u


def snapshot_diff(a, b):
    return sorted(k for k in a if a[k] != b.get(k))
