"""A simulated ROS system: transform publishers, a faulty network, listeners."""
import math
import random

import numpy as np

from . import des, rosstub, world
from .models import rodrigues

S = 10 ** 9
MS = 10 ** 6


def _h(*a):
    """deterministic generator for one decision"""
    x = 1469598103934665603
    for v in a:
        x = ((x ^ (int(v) & 0xffffffffffffffff)) * 1099511628211) & 0xffffffffffffffff
    return random.Random(x)


class System(rosstub.Kernel):
    def __init__(self, spec, r=None):
        rosstub.Kernel.__init__(self)
        self.spec = spec
        self.des = des.Des(spec.get("start", 1700000000 * S))
        self.t0 = self.des.now
        self.des.on_now = self._sync
        self.r = r
        self.stubs = []
        self.models = []        # one buffer per listener, fed with the same messages, never shown to the library
        self.held = []          # deliveries waiting for a stalled listener
        self.after_event = None
        self.parent = {i: e["parent"] for i, e in enumerate(spec["edges"])}
        self.skew = {i: e.get("skew", 0) for i, e in enumerate(spec["edges"])}
        self.down = set()
        self.cut = set()
        self.stalled = set()
        self.seq = {i: 0 for i in range(len(spec["edges"]))}
        self.in_touch = 0
        self.touch_plan = None
        self.moments = None
        self.asked = {}         # listener -> times asked for so far

    # kernel interface ---------------------------------------------------------
    def ros_now(self):
        return self.des.now

    def _sync(self):
        world.clock.now = self.des.now / 1e9
        world.clock.mono = (self.des.now - self.t0) / 1e9 + 1000.0

    def sleep_ns(self, n):
        t = des.current_task()
        if t is not None:
            t.sleep(n)
        else:
            self.advance(n)

    def advance(self, n):
        """let n ns pass in the middle of a call"""
        end = self.des.now + max(0, int(n))
        while self.des.step(end):
            self._sync()
            self._event()
        self.des.now = max(self.des.now, end)
        self._sync()

    def new_listener(self, l):
        self.stubs.append(l)
        self.models.append(rosstub.Buffer(l.buf.cache))

    def touch(self, l):
        if self.touch_plan:
            n = self.touch_plan.pop(0)
            if n:
                self.sleep_ns(n)

    def _event(self):
        if self.moments is not None:
            self.moments()
        if self.after_event is not None:
            self.after_event()

    # world ----------------------------------------------------------------------
    def count(self, k):
        if self.r is not None:
            self.r.count(k)

    def pose(self, i, t):
        e = self.spec["edges"][i]
        s = (t - self.t0) / 1e9
        th = e["w"] * s + e["a0"]
        k = e["axis"]
        q = [math.cos(th / 2)] + [math.sin(th / 2) * x for x in k]
        p = [a + b * s for a, b in zip(e["p0"], e["v"])]
        return p, q

    def start(self):
        for i, e in enumerate(self.spec["edges"]):
            self.des.at(self.t0 + e["phase"] * MS, self._publish, i)
        for n, f in enumerate(self.spec["faults"]):
            self.des.at(self.t0 + f["t"] * MS, self._fault, n, f)
        self._sync()

    def _publish(self, i):
        e = self.spec["edges"][i]
        if self.des.now - self.t0 < self.spec["end"] * MS:
            self.des.after(e["period"] * MS, self._publish, i)
        if i in self.down:
            return
        stamp = self.des.now + self.skew[i]
        p, q = self.pose(i, self.des.now)
        self.seq[i] += 1
        seq = self.seq[i]
        net = self.spec["net"]
        for l in range(len(self.stubs)):
            g = _h(net["seed"], i, seq, l)
            if (i, l) in self.cut:
                self.count("fault:message dropped by partition")
                continue
            calm = self.des.now - self.t0 >= net.get("calm", 10 ** 9) * MS
            if not calm and g.random() < net["loss"]:
                self.count("fault:message lost")
                continue
            n = 1
            if not calm and g.random() < net["dup"]:
                n = 2
                self.count("fault:message duplicated")
            for _ in range(n):
                d = g.expovariate(1.0) * net["delay"] * MS if net["delay"] else 0
                if not calm and g.random() < net["late"]:
                    d += g.expovariate(1.0) * 400 * MS
                    self.count("fault:message late")
                self.des.after(d, self._deliver, l, i, self.parent[i], stamp, p, q, seq)

    def _deliver(self, l, i, parent, stamp, p, q, seq):
        if l in self.stalled:
            self.held.append((l, i, parent, stamp, p, q, seq))
            return
        c = self.spec["edges"][i]["child"]
        a = self.stubs[l].buf.set(parent, c, stamp, p, q)
        b = self.models[l].set(parent, c, stamp, p, q)
        assert a == b or self.stubs[l].buf.frames.keys() != self.models[l].frames.keys()
        self.count("messages delivered")

    def _fault(self, n, f):
        k = f["kind"]
        E = range(len(self.spec["edges"]))
        self.count("fault:" + k)
        if k == "partition":
            pairs = [(i, l) for i in E for l in range(len(self.stubs))
                     if f["edge"] in (-1, i) and f["l"] in (-1, l)]
            self.cut.update(pairs)
            self.des.after(f["dur"] * MS, self.cut.difference_update, pairs)
        elif k == "crash":
            i = f["edge"] % len(E)
            self.down.add(i)

            def up():
                self.down.discard(i)
                if f.get("skew"):
                    self.skew[i] = f["skew"] * MS
            self.des.after(f["dur"] * MS, up)
        elif k == "clock jump":
            i = f["edge"] % len(E)
            self.skew[i] += f["d"] * MS
        elif k == "reparent":
            i = f["edge"] % len(E)
            if self._can_parent(i, f["parent"]):
                self.parent[i] = f["parent"]
        elif k == "stall":
            l = f["l"] % max(1, len(self.stubs))
            self.stalled.add(l)

            def wake():
                self.stalled.discard(l)
                h, self.held = [x for x in self.held if x[0] == l], [x for x in self.held if x[0] != l]
                for x in h:
                    self._deliver(*x)
            self.des.after(f["dur"] * MS, wake)

    def _can_parent(self, i, p):
        """no loops"""
        kids = {self.spec["edges"][i]["child"]}
        for _ in range(len(self.spec["edges"])):
            for j, e in enumerate(self.spec["edges"]):
                if self.parent[j] in kids:
                    kids.add(e["child"])
        return p not in kids

    def clear(self, l):
        """the caller has cleared listener l through the library"""
        self.models[l].clear()

    # oracle ------------------------------------------------------------------------
    @staticmethod
    def _strip(f):
        return f[1:] if isinstance(f, str) and f.startswith("/") else f

    def oracle(self, l, req):
        """("ok", p, q) or ("exc", class) of a request (target, tt, source, st, fixed) on listener l now"""
        b = self.models[l]
        s = self._strip
        try:
            if req[4] is None:
                p, q = b.lookup(s(req[0]), s(req[2]), req[1])
            else:
                p, q = b.lookup_full(s(req[0]), req[1], s(req[2]), req[3], s(req[4]))
            return ("ok", p, q)
        except rosstub.TransformException as e:
            return ("exc", type(e))


def gen_system(rng, listeners, end):
    """a random tree of moving frames"""
    names = ["world", "base", "link1", "link2", "tool0", "camera", "part"]
    n = rng.randrange(2, 6)
    edges = []
    for i in range(n):
        par = names[0] if i == 0 or rng.random() < 0.2 else names[rng.randrange(0, i + 1)]
        edges.append(_edge(rng, par, names[i + 1]))
    if rng.random() < 0.4:
        edges.append(_edge(rng, "odom", "cart"))      # another tree
    faults = []
    for _ in range(rng.choice([0, 1, 2, 3, 5])):
        k = rng.choice(["partition", "partition", "crash", "clock jump", "reparent", "stall"])
        f = {"kind": k, "t": rng.randrange(0, end), "edge": rng.randrange(-1, len(edges)),
             "l": rng.randrange(-1, listeners), "dur": rng.choice([50, 200, 500, 1500])}
        if k == "clock jump":
            f["d"] = rng.choice([-2000, -300, 40, 500, 3000])
        if k == "crash" and rng.random() < 0.3:
            f["skew"] = rng.choice([-100, 30, 700])
        if k == "reparent":
            f["parent"] = rng.choice(["world", "base", "link1", "odom"])
        faults.append(f)
    return {"edges": edges, "faults": faults, "end": end,
            "net": {"seed": rng.getrandbits(40), "loss": rng.choice([0, 0, 0.1, 0.4]), "dup": rng.choice([0, 0.1, 0.3]),
                    "delay": rng.choice([0, 1, 10, 60]), "late": rng.choice([0, 0, 0.05, 0.2])}}


def _edge(rng, parent, child):
    k = np.array([rng.gauss(0, 1) for _ in range(3)])
    k = (k / np.linalg.norm(k)).tolist()
    still = rng.random() < 0.15
    return {"parent": parent, "child": child, "axis": k, "w": 0.0 if still else rng.uniform(-3, 3),
            "a0": rng.uniform(-3, 3), "p0": [rng.uniform(-1, 1) for _ in range(3)],
            "v": [0.0] * 3 if still else [rng.uniform(-1, 1) for _ in range(3)],
            "period": rng.choice([20, 50, 50, 100, 250]), "phase": rng.randrange(0, 300),
            "skew": rng.choice([0, 0, 0, 0, -40 * MS, 15 * MS])}


FRAMES = ["world", "base", "link1", "link2", "tool0", "camera", "part", "odom", "cart"]


def gen_frame(rng, spec):
    used = sorted({e["child"] for e in spec["edges"]} | {e["parent"] for e in spec["edges"]})
    c = rng.random()
    if c < 0.86:
        return rng.choice(used)
    if c < 0.92:
        return "/" + rng.choice(used)
    return rng.choice(["nowhere", "", "camera", "worl", used[0] + "x"])


def gen_time(rng):
    return rng.choice([{"k": "zero"}, {"k": "zero"}, {"k": "now", "d": rng.choice([0, -10, -50, -100, -300, -2000, 20, 200])},
                       {"k": "entry", "n": rng.randrange(1000)}, {"k": "between", "n": rng.randrange(1000),
                        "f": rng.choice([0.5, 0.25, 0.9, 1e-6])}, {"k": "old"}, {"k": "secs"},
                       {"k": "abs", "ns": rng.choice([1, 999, 10 ** 6, 5 * 10 ** 8, 10 ** 9, 10 ** 9 + 1, 4 * 10 ** 18])},
                       {"k": "again", "n": rng.choice([0, 0, 1, 2, 3, 7])}])


def resolve_time(spec, sysm, l, child):
    """ns of a time specification at this moment, for listener l"""
    asked = sysm.asked.setdefault(l, [])
    if spec["k"] == "again":
        if asked:
            return asked[-1 - spec["n"] % len(asked)]
        spec = {"k": "now", "d": -50}
    t = _resolve(spec, sysm, l, child)
    if t:
        asked.append(t)
    return t


def _resolve(spec, sysm, l, child):
    k = spec["k"]
    if k == "zero":
        return 0
    if k == "now":
        return sysm.des.now + spec["d"] * MS
    if k == "secs":
        return (sysm.des.now // S) * S
    if k == "abs":
        return spec["ns"]
    f = sysm.models[l].frames.get(child) or []
    if not f:
        return sysm.des.now
    if k == "old":
        return f[0][0] - 1
    n = spec["n"] % len(f)
    if k == "entry" or n + 1 >= len(f):
        return f[n][0]
    return f[n][0] + int((f[n + 1][0] - f[n][0]) * spec["f"])
