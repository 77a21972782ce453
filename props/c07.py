"""C07: a transform lookup is exact, correctly labelled, or an exception."""
import numpy as np

from sim import held, lib as _lib, models, rosnet, rosstub, values, world
from sim.engine import Violation
from sim.sched import Sched

ID = "C07"
MS = rosnet.MS
RUNS = {"quick": 5000, "thorough": 200000}
RULE = ("One run: a tree of 2-6 moving frames published over a simulated network with loss, duplication, delay, "
        "reordering, partitions, publisher crashes, clock jumps and reparenting, 1-3 listeners with their own buffers, and "
        "10-60 lookups, availability queries and clears at seeded instants, some issued by several threads at once. "
        "Non-trivial: at least one lookup succeeded at a non-zero time and one was refused.")
MEASURE = "distinct (operation, kind of time, outcome, outcome of the previous operation on the listener) combinations"
REAL = ["general_robotics_toolbox.ros_tf and core", "numpy"]
STUBS = ["tf, tf2_ros, rospy (tf2 buffer semantics)", "network", "clock", "thread scheduling in bursts"]
ASSUMPTIONS = ["the tf stub answers as tf does", "a call may see the buffer at any instant between its start and its return"]
SHRINK = lambda c: [["ops"], ["sys", "faults"], ["sys", "edges"]] + \
    [["ops", i, "plan", "switches"] for i, o in enumerate(c["ops"]) if "switches" in o.get("plan", {})]


def setup():
    rosstub.install()


def gen_req(rng, sys):
    a, b = rosnet.gen_frame(rng, sys), rosnet.gen_frame(rng, sys)
    if a == b and rng.random() < 0.8:
        b = rosnet.gen_frame(rng, sys)
    return {"f": rng.choice(["look", "look", "look", "full", "full", "can", "canf"]), "target": a, "source": b,
            "tt": rosnet.gen_time(rng), "st": rosnet.gen_time(rng), "fixed": rosnet.gen_frame(rng, sys),
            "how": rng.choice(["pos", "pos", "kw", "default"]), "scribble": rng.random() < 0.3}


def gen(rng, i, tier):
    end = rng.choice([1500, 3000, 8000, 14000])
    nl = rng.choice([1, 1, 2, 3])
    sys = rosnet.gen_system(rng, nl, end)
    ls = [{"t": 0 if k == 0 or rng.random() < 0.7 else rng.randrange(end), "cache": rng.choice([None, None, 2, 1])}
          for k in range(nl)]
    ops = []
    threads = rng.random() < 0.35
    fav = gen_req(rng, sys)
    for _ in range(rng.randrange(10, 60)):
        o = {"t": rng.randrange(0, end * 11 // 10), "l": rng.randrange(nl)}
        c = rng.random()
        if c < 0.04:
            o["f"] = "clear"
        elif c < 0.12 and threads:
            o["f"] = "burst"
            o["reqs"] = [gen_req(rng, sys) for _ in range(rng.choice([2, 2, 3]))]
            if rng.random() < 0.5:
                for q in o["reqs"][1:]:
                    q.update(f=o["reqs"][0]["f"])
            o["plan"] = {"strategy": "gap", "gap": rng.choice([3, 10, 40, 200]), "seed": rng.getrandbits(40)}
        else:
            o.update(gen_req(rng, sys))
            if rng.random() < 0.4:                  # ask the same again and again
                o.update(target=fav["target"], source=fav["source"], fixed=fav["fixed"])
                if rng.random() < 0.5:
                    o.update(f=fav["f"], tt=fav["tt"], st=fav["st"])
                if rng.random() < 0.4:              # the very same time: what is known of it may have changed since
                    o.update(f=fav["f"], tt={"k": "again", "n": rng.choice([0, 0, 0, 1, 3])},
                             st={"k": "again", "n": rng.choice([0, 1, 1, 2])})
            if rng.random() < 0.25:
                o["touch"] = [rng.choice([0, 0, 5, 60, 300]) for _ in range(3)]
        ops.append(o)
    ops.sort(key=lambda o: o["t"])
    return {"sys": sys, "listeners": ls, "ops": ops, "threads": threads}


class Q(object):
    """a request made concrete: what is passed and what it asks for"""

    def __init__(self, o, s, l):
        self.f = o["f"]
        self.target, self.source = o["target"], o["source"]
        self.how = o["how"]
        self.full = self.f in ("full", "canf")
        self.kind = o["tt"]["k"]
        self.tt = rosnet.resolve_time(o["tt"], s, l, self.source if self.source in s.models[l].frames else self.target)
        if self.how == "default" and not self.full:
            self.tt, self.kind = 0, "default"
        self.st = rosnet.resolve_time(o["st"], s, l, self.source)
        self.fixed = o["fixed"]
        self.req = (self.target, self.tt, self.source, self.st, self.fixed if self.full else None)

    def call(self, tl):
        T = rosstub.Time.from_ns
        if self.full:
            fn = tl.lookupTransformFull if self.f == "full" else tl.canTransformFull
            if self.how == "kw":
                return fn(target_frame=self.target, target_time=T(self.tt), source_frame=self.source,
                          source_time=T(self.st), fixed_frame=self.fixed)
            return fn(self.target, T(self.tt), self.source, T(self.st), self.fixed)
        fn = tl.lookupTransform if self.f == "look" else tl.canTransform
        if self.how == "default":
            return fn(self.target, self.source)
        if self.how == "kw":
            return fn(target_frame=self.target, source_frame=self.source, time=T(self.tt))
        return fn(self.target, self.source, T(self.tt))


EXPORTED = ("ConnectivityException", "LookupException", "ExtrapolationException")


def judge(lb, q, got, wants):
    """None, or why `got` is none of the acceptable answers"""
    if q.f in ("can", "canf"):
        if isinstance(got, BaseException):
            return "raised %r" % got
        if any(bool(got) == (w[0] == "ok") for w in wants):
            return None
        return "said %r, the messages received %s the transform" % (got, "give" if wants[0][0] == "ok" else "do not give")
    if isinstance(got, BaseException):
        if not isinstance(got, lb.ros_tf.Exception):
            return "raised %s, which is not the exception type the module exports: %r" % (type(got).__name__, got)
        cls = [w[1] for w in wants if w[0] == "exc"]
        if not cls:
            return "raised %r although the messages received give the transform" % got
        for c in cls:
            if isinstance(got, getattr(lb.ros_tf, c.__name__) if c.__name__ in EXPORTED else c):
                return None
        return "raised %s, the buffer raises %s" % (type(got).__name__, ", ".join(c.__name__ for c in cls))
    if type(got).__name__ != "Transform":
        return "returned %r" % (got,)
    oks = [w for w in wants if w[0] == "ok"]
    if not oks:
        return "returned p=%s although the messages received do not give it (%s)" % (
            values.brief(got.p), wants[0][1].__name__)
    if got.parent_frame_id != q.target or got.child_frame_id != q.source:
        return "labelled parent %r child %r" % (got.parent_frame_id, got.child_frame_id)
    R, p = np.asarray(got.R, dtype=float), np.asarray(got.p, dtype=float)
    if R.shape != (3, 3) or p.shape != (3,):
        return "shapes %s %s" % (R.shape, p.shape)
    for w in oks:
        if np.abs(p - np.array(w[1])).max() <= 1e-9 * (1 + np.abs(w[1]).max()) and \
                np.abs(R - models.quat_R(np.array(w[2]))).max() <= 1e-9:
            return None
    return "pose p=%s R=%s instead of p=%s R=%s" % (values.brief(p.tolist()), values.brief(R.tolist()), list(oks[0][1]),
                                                    values.brief(models.quat_R(np.array(oks[0][2])).tolist()))


def run(case, r):
    s = rosnet.System(case["sys"], r)
    rosstub.set_kernel(s)
    try:
        _run(case, r, s)
    finally:
        rosstub.set_kernel(rosstub.Kernel())
        r.simtime = s.des.seconds


def _run(case, r, s):
    lb = _lib.fresh("instr" if case["threads"] else "plain")
    world.clock.sleep_hook = lambda dt: s.sleep_ns(int(dt * 1e9))
    nl = len(case["listeners"])
    tls = [None] * nl
    slot = [None] * nl         # listener -> index of its buffer in s
    last = [None] * nl
    tally = {"ok": 0, "exc": 0}
    later = []
    explicit = [dict(o) for o in case["ops"]]

    def create(k):
        spec = case["listeners"][k]
        n = len(s.stubs)
        with _lib.Active(lb):
            if spec["cache"] is None:
                tls[k] = lb.ros_tf.TransformListener()
            else:
                tls[k] = lb.ros_tf.TransformListener(True, rosstub.Duration(spec["cache"]))
        if len(s.stubs) != n + 1:
            raise Violation("listener", "a TransformListener made %d ROS listeners" % (len(s.stubs) - n))
        s.models[n].cache = (spec["cache"] or 10) * 10 ** 9
        slot[k] = n

    def ask(q, k):
        try:
            with np.errstate(all="warn"):
                return q.call(tls[k])
        except rosstub_abort:
            raise
        except Exception as e:
            return e

    def verdict(oi, o, q, k, got, wants, where=""):
        why = judge(lb, q, got, wants)
        out = "exc:" + type(got).__name__ if isinstance(got, BaseException) else \
            ("ok" if not isinstance(got, bool) else str(got))
        r.ev(oi, k, q.f, q.target, q.source, q.tt, q.st if q.full else 0, out,
             values.digest_canon(values.canon(got)))
        r.keys.add("%s/%s/%s/%s" % (q.f, q.kind, out, last[k]))
        last[k] = out
        if q.f in ("look", "full"):
            if out == "ok" and q.tt:
                tally["ok"] += 1
            if out != "ok":
                tally["exc"] += 1
        r.count("answers: " + out)
        if why:
            raise Violation("can-wrong" if q.f.startswith("can") else "lookup-wrong",
                            "operation %d%s at %.3f s: %s(%r%s, %r%s%s) on listener %d %s" % (
                                oi, where, s.des.seconds, q.f, q.target, ", t=%d" % q.tt, q.source,
                                ", st=%d" % q.st if q.full else "", ", fixed=%r" % q.fixed if q.full else "", k, why))

    def op(oi):
        o = case["ops"][oi]
        k = o["l"] % nl
        if tls[k] is None:
            return
        l = slot[k]
        if s.moments is not None and o["f"] != "clear":
            later.append(oi)        # the caller is still inside another call
            return
        r.count("operations")
        if o["f"] == "clear":
            tls[k].clear()
            s.clear(l)
            r.ev(oi, k, "clear")
            r.count("fault:buffer cleared")
            last[k] = "clear"
            return
        if o["f"] == "burst":
            qs = [Q(x, s, l) for x in o["reqs"]]
            wants = [[s.oracle(l, q.req)] for q in qs]
            got = [None] * len(qs)

            def body(n):
                def fn():
                    got[n] = ask(qs[n], k)
                return fn
            with _lib.Active(lb):
                sc = Sched(o["plan"], step_cap=400000)
                sc.run([body(n) for n in range(len(qs))])
            explicit[oi]["plan"] = {"switches": sc.recorded if "switches" not in o["plan"] else o["plan"]["switches"]}
            r.count("fault:preemption", sc.nswitch)
            if sc.abort:
                raise Violation(sc.abort, "%d lookups at once on one listener do not finish" % len(qs))
            if sc.blocked_events:
                r.count("blocked on a lock of the library")
            for n, q in enumerate(qs):
                verdict(oi, o["reqs"][n], q, k, got[n], wants[n], ".%d (at the same time as %d others)" % (n, len(qs) - 1))
            return
        q = Q(o, s, l)
        wants = [s.oracle(l, q.req)]
        if o.get("touch"):
            s.touch_plan = [x * MS for x in o["touch"]]
            r.count("fault:messages arrive during the call")
        s.moments = lambda: wants.append(s.oracle(l, q.req))
        try:
            with _lib.Active(lb):
                got = ask(q, k)
        finally:
            s.touch_plan = None
            s.moments = None
        verdict(oi, o, q, k, got, wants)
        if o.get("scribble") and not isinstance(got, (bool, BaseException)):
            for n in range(4):
                held.write(got, n, "fill" if n < 2 else "assign", 3.0)
            r.count("fault:caller writes into a result")

    for k, spec in enumerate(case["listeners"]):
        if spec["t"] == 0:
            create(k)
        else:
            s.des.at(s.t0 + spec["t"] * MS, create, k)
    s.start()
    for oi, o in enumerate(case["ops"]):
        s.des.at(s.t0 + o["t"] * MS, op, oi)
    while s.des.step() or later:
        s._sync()
        while later:
            op(later.pop(0))
    r.nontrivial = tally["ok"] > 0 and tally["exc"] > 0
    r.explicit = {"ops": explicit}


rosstub_abort = rosnet.des.TaskAbort


def describe(case, run):
    return {"edges": [[e["parent"], e["child"], e["period"]] for e in case["sys"]["edges"]],
            "faults": [f["kind"] for f in case["sys"]["faults"]], "net": case["sys"]["net"],
            "listeners": case["listeners"], "ops": [o["f"] for o in case["ops"]]}
