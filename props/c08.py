"""C08: waiting for a transform returns when it is there, else times out."""
from sim import des, lib as _lib, rosnet, rosstub, world
from sim.engine import Violation
from sim.sched import SimInterrupt

from props import c07

ID = "C08"
MS = rosnet.MS
RUNS = {"quick": 2500, "thorough": 150000}
RULE = ("One run: a tree of frames published over a network with loss, duplication, delay, partitions, publisher crashes, "
        "clock jumps and reparenting; 1-4 client threads on 1-2 listeners wait (with timeouts from 0 to 5 s and polling "
        "intervals from 1 to 300 ms), look up, clear and are interrupted on a simulated clock; after the faults end every "
        "client waits once more. Non-trivial: one wait was served after some time and one timed out.")
MEASURE = "distinct (operation, kind of time, timeout, poll, outcome, clients waiting at its end) combinations"
REAL = ["general_robotics_toolbox.ros_tf and core"]
STUBS = ["tf, tf2_ros, rospy (tf2 buffer semantics, waits poll)", "network", "clock", "threads (run one at a time)"]
ASSUMPTIONS = ["the tf stub answers as tf does", "computation takes no simulated time"]
SHRINK = lambda c: [["clients"], ["sys", "faults"], ["sys", "edges"]] + [["clients", i, "ops"] for i in range(len(c["clients"]))]
SLACK = 2 * MS


def setup():
    rosstub.install()


def gen(rng, i, tier):
    end = rng.choice([1500, 4000, 8000])
    nl = rng.choice([1, 1, 2])
    sys = rosnet.gen_system(rng, nl, end)
    sys["net"]["calm"] = end
    sys["end"] = end + 4000
    clients = []
    fav = c07.gen_req(rng, sys)
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        ops = []
        for _ in range(rng.randrange(1, 7)):
            o = c07.gen_req(rng, sys)
            if rng.random() < 0.3:
                o.update(target=fav["target"], source=fav["source"], fixed=fav["fixed"])
            c = rng.random()
            if c < 0.7:
                o["f"] = rng.choice(["wait", "wait", "waitf"])
            elif c < 0.78:
                o = {"f": "clear"}
            elif c < 0.9:
                o["f"] = rng.choice(["look", "full", "can"])
            else:
                o = {"f": "sleep"}
            if o["f"] in ("wait", "waitf"):
                if rng.random() < 0.35:
                    o["tt"] = {"k": "now", "d": rng.choice([5, 30, 150, 600, 2000])}
                o["timeout"] = rng.choice([0, 1, 20, 100, 400, 1500, 5000])
                o["poll"] = rng.choice([None, None, 1, 7, 20, 100, 300])
                o["then"] = rng.random() < 0.5
                if rng.random() < 0.07:
                    o["int"] = rng.randrange(0, 6)
            o["gap"] = rng.choice([0, 0, 3, 40, 250, 1000])
            ops.append(o)
        clients.append({"t": rng.randrange(0, end), "l": rng.randrange(nl), "ops": ops,
                        "last": dict(c07.gen_req(rng, sys), f="wait", tt={"k": "zero"}, timeout=rng.choice([600, 2500]),
                                     poll=rng.choice([None, 10, 80]), then=True, gap=0)})
    return {"sys": sys, "nl": nl, "clients": clients}


def run(case, r):
    s = rosnet.System(case["sys"], r)
    rosstub.set_kernel(s)
    lb = _lib.fresh("plain")
    tasks = []
    try:
        with _lib.Active(lb):
            _run(case, r, s, lb, tasks)
    finally:
        for t in tasks:
            t.kill()
        world.clock.sleep_hook = None
        rosstub.set_kernel(rosstub.Kernel())
        r.simtime = s.des.seconds


class W(object):
    """one wait in progress"""

    def __init__(self, q, ci, oi, l, start, timeout, poll):
        self.q, self.ci, self.oi, self.l = q, ci, oi, l
        self.start, self.timeout, self.poll = start, timeout, poll
        self.since = None       # available without interruption since
        self.seen = None        # last instant at which it was available

    def look(self, s):
        if s.oracle(self.l, self.q.req)[0] == "ok":
            if self.since is None:
                self.since = s.des.now
            self.seen = s.des.now
        elif self.since is not None:
            self.seen = s.des.now
            self.since = None

    def __str__(self):
        q = self.q
        return "client %d operation %d: %s(%r%s, %r%s%s, timeout %d ms, poll %s) on listener %d" % (
            self.ci, self.oi, "waitForTransformFull" if q.full else "waitForTransform", q.target, ", t=%d" % q.tt, q.source,
            ", st=%d" % q.st if q.full else "", ", fixed=%r" % q.fixed if q.full else "", self.timeout // MS,
            self.poll // MS, self.l)


def _run(case, r, s, lb, tasks):
    world.clock.sleep_hook = lambda dt: s.sleep_ns(int(dt * 1e9))
    nl = case["nl"]
    tls = [lb.ros_tf.TransformListener() for _ in range(nl)]
    active = []
    bad = []
    tally = {"ok": 0, "timeout": 0}
    D = rosstub.Duration.from_ns

    def monitor():
        for w in active:
            w.look(s)
    s.after_event = monitor

    def fail(cls, msg):
        bad.append((cls, msg))

    interrupts = {}
    base_sleep = s.sleep_ns

    def sleep_ns(n):
        t = des.current_task()
        if t in interrupts:
            interrupts[t] -= 1
            if interrupts[t] < 0:
                del interrupts[t]
                r.count("fault:interrupted while waiting")
                raise SimInterrupt("interrupted")
        base_sleep(n)
    s.sleep_ns = sleep_ns

    def wait(ci, oi, o, k):
        tl = tls[k]
        q = c07.Q(dict(o, f="full" if o["f"] == "waitf" else "look", how=o["how"] if o["how"] != "default" else "pos"), s, k)
        T = rosstub.Time.from_ns
        now = s.des.now
        w = W(q, ci, oi, k, now, o["timeout"] * MS, rosstub.DEFAULT_POLL if o["poll"] is None else o["poll"] * MS)
        w.look(s)
        active.append(w)
        first = w.since is not None
        t = des.current_task()
        if "int" in o:
            interrupts[t] = o["int"]
        kw = {} if o["poll"] is None else {"polling_sleep_duration": D(o["poll"] * MS)}
        try:
            if q.full:
                a = [q.target, T(q.tt), q.source, T(q.st), q.fixed, D(w.timeout)]
                n = ["target_frame", "target_time", "source_frame", "source_time", "fixed_frame", "timeout"]
                fn = tl.waitForTransformFull
            else:
                a = [q.target, q.source, T(q.tt), D(w.timeout)]
                n = ["target_frame", "source_frame", "time", "timeout"]
                fn = tl.waitForTransform
            if o["how"] == "kw":
                fn(**dict(zip(n, a), **kw))
            elif o["how"] == "pos" and kw:
                fn(*(a + list(kw.values())))
            else:
                fn(*a, **kw)
            out, e = "served", None
        except des.TaskAbort:
            raise
        except BaseException as x:
            e = x
            out = "interrupted" if isinstance(x, SimInterrupt) else \
                "timeout" if isinstance(x, lb.ros_tf.Exception) else "raised"
        hit = "int" in o and t not in interrupts
        interrupts.pop(t, None)
        active.remove(w)
        t1 = s.des.now
        w.look(s)
        took = t1 - w.start
        r.ev(ci, oi, o["f"], q.target, q.source, q.tt, out, w.start - s.t0, t1 - s.t0)
        r.count("waits " + out)
        r.keys.add("%s/%s/%d/%s/%s/%d" % (o["f"], q.kind, o["timeout"], o["poll"], out, len(active)))
        ms = took / 1e6
        if out == "served":
            if w.seen is None:
                fail("returned-without-transform", "%s returned after %.3f ms, the transform was not available at any "
                     "instant of the wait" % (w, ms))
            elif t1 - w.seen > w.poll + SLACK:
                fail("returned-without-transform", "%s returned after %.3f ms, the transform was last available %.3f ms "
                     "before" % (w, ms, (t1 - w.seen) / 1e6))
            elif w.since is not None and t1 - w.since > w.poll + SLACK:
                fail("served-late", "%s returned %.3f ms after the transform was there" % (w, (t1 - w.since) / 1e6))
            if took > 0:
                tally["ok"] += 1
            if took > w.timeout + w.poll + SLACK:
                fail("ended-late", "%s ended after %.3f ms" % (w, ms))
        elif out == "timeout":
            tally["timeout"] += 1
            if took < w.timeout - 1000:
                fail("ended-early", "%s ended with %r after %.3f ms" % (w, e, ms))
            if took > w.timeout + w.poll + SLACK:
                fail("ended-late", "%s ended with %r after %.3f ms" % (w, e, ms))
            if w.since is not None and t1 - w.since > w.poll + SLACK or first and w.since == w.start:
                fail("not-served", "%s ended with %r after %.3f ms although the transform was there since %.3f ms" % (
                    w, e, ms, (t1 - w.since) / 1e6))
        elif out == "raised":
            if not hit:
                fail("wrong-exception", "%s raised %r after %.3f ms, not a transform exception of the module" % (w, e, ms))
        elif not hit:
            fail("wrong-exception", "%s raised %r" % (w, e))
        return out, q

    def other(ci, oi, o, k):
        q = c07.Q(dict(o, tt=o["tt"]), s, k)
        look(ci, oi, q, k)

    def look(ci, oi, q, k, must=False):
        t0 = s.des.now
        want = [s.oracle(k, q.req)]
        try:
            got = q.call(tls[k])
        except des.TaskAbort:
            raise
        except Exception as e:
            got = e
        want.append(s.oracle(k, q.req))
        if s.des.now - t0 > 1000 * MS:
            fail("lookup-blocked", "a lookup took %.3f ms of simulated time (%d waits in progress)" % (
                (s.des.now - t0) / 1e6, len(active)))
        elif s.des.now != t0:
            return
        why = c07.judge(lb, q, got, want)
        r.ev(ci, oi, q.f, q.target, q.source, q.tt, type(got).__name__)
        if why:
            fail("lookup-wrong", "client %d operation %d at %.3f s: %s(%r, %r, t=%d) %s" % (
                ci, oi, s.des.seconds, q.f, q.target, q.source, q.tt, why))

    def client(ci):
        c = case["clients"][ci]
        k = c["l"] % nl

        def body():
            for oi, o in enumerate(list(c["ops"]) + ["last"]):
                if o == "last":
                    d = s.t0 + case["sys"]["net"]["calm"] * MS + 300 * MS - s.des.now
                    if d > 0:
                        s.des_task_sleep(d)
                    o = c["last"]
                    r.count("waits after the faults")
                if o["gap"]:
                    s.des_task_sleep(o["gap"] * MS)
                if o["f"] == "sleep":
                    continue
                if o["f"] == "clear":
                    tls[k].clear()
                    s.clear(k)
                    monitor()
                    r.ev(ci, oi, "clear")
                    r.count("fault:buffer cleared")
                elif o["f"] in ("wait", "waitf"):
                    out, q = wait(ci, oi, o, k)
                    if out == "served" and o["then"]:
                        look(ci, oi, q, k)
                    if o is c["last"]:
                        r.count("waits after the faults " + out)
                else:
                    other(ci, oi, o, k)
        return body
    s.des_task_sleep = base_sleep

    for ci, c in enumerate(case["clients"]):
        t = des.Task(s.des, client(ci), "client %d" % ci)
        tasks.append(t)
        s.des.at(s.t0 + c["t"] * MS, t.start)
    s.start()
    total = sum(sum(o.get("timeout", 0) + (o.get("poll") or 50) + o["gap"] for o in c["ops"] + [c["last"]]) + c["t"]
                for c in case["clients"])
    horizon = s.t0 + (case["sys"]["end"] + 2 * total + 5000) * MS
    n = 0
    while not bad and s.des.step(horizon):
        monitor()
        n += 1
        if n > 120000:
            break
        for t in tasks:
            if t.error is not None:
                raise t.error
        for w in active:
            if s.des.now - w.start > w.timeout + w.poll + 1000 * MS:
                fail("never-ends", "%s has not ended after %.0f ms" % (w, (s.des.now - w.start) / 1e6))
        if all(t.done for t in tasks) and n > len(tasks) and not any(x[2] == t.start for x in s.des.q for t in tasks):
            break
    for t in tasks:
        if t.error is not None:
            raise t.error
    r.nontrivial = tally["ok"] > 0 and tally["timeout"] > 0
    if not bad and not all(t.done for t in tasks):
        bad.append(("never-ends", "clients are still busy at the end: %s" % ", ".join(str(w) for w in active)))
    if bad:
        raise Violation(*bad[0])


def describe(case, run):
    return {"edges": [[e["parent"], e["child"], e["period"]] for e in case["sys"]["edges"]],
            "faults": [f["kind"] for f in case["sys"]["faults"]],
            "clients": [[o["f"] for o in c["ops"]] for c in case["clients"]]}
