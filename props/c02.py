"""C02: a completed, failed or interrupted call leaves no trace."""
import warnings

import numpy as np

from sim import calls, lib as _lib, rosstub, values, world
from sim.engine import Violation
from sim.sched import Sched, SimHang, SimDeadlock, SimInterrupt, Solo, guarded, touches
from .c01 import preload

ID = "C02"
RUNS = {"quick": 2500, "thorough": 60000}
RULE = ("One run: 3-9 calls over shared objects, about half of them cut off at a seeded library instruction by an "
        "asynchronous exception or a failing allocation, or failing by themselves, under seeded warning and numpy error "
        "settings; in a part of the runs a second thread is calling meanwhile. Non-trivial: at least one injected "
        "exception was raised inside the library.")
MEASURE = "distinct (function called, code object interrupted, instruction) triples"
REAL = ["general_robotics_toolbox (all modules used)", "numpy", "PyYAML", "urdf_parser_py", "xacro",
        "tesseract_robotics"]
STUBS = ["asynchronous exceptions and failing allocations (raised at a library instruction)", "thread scheduling",
         "clock", "entropy", "geometry_msgs"]
ASSUMPTIONS = ["an exception inside a C call or a third party function surfaces at the calling instruction"]
SHRINK = lambda case: ([["steps"]] + [["other"]] + ([["sched", "switches"]] if "switches" in case["sched"] else []))
MIXES = [{"math": 2, "kin": 4, "ik": 4}, {"kin": 2, "ik": 5, "load": 1}, {"load": 4, "kin": 1}, {"math": 4, "msg": 1},
         {"tess": 4, "kin": 1}, {"kin": 1, "ik": 1}]
KINDS = ["interrupt", "interrupt", "memory", "exit", "os"]


class SimExit(SystemExit):
    pass


FACTORY = {"interrupt": SimInterrupt, "memory": lambda: MemoryError("simulated"), "exit": SimExit,
           "os": lambda: OSError(5, "simulated")}


def setup():
    rosstub.install()


def gen(rng, i, tier):
    mix = rng.choice(MIXES)
    h = calls.gen_heap(rng, tess=mix.get("tess", 0) > 0 and rng.random() < 0.7, robots=rng.randrange(1, 3),
                       kinds=("named", "chain", "sph", "sph", "ur"), planned=rng.choice([0, 1, 2]) if mix.get("tess") else 0)
    steps = []
    for _ in range(rng.randrange(1, 4)):
        op = calls.gen_op(rng, h, mix)
        n = rng.randrange(1, 3)
        for _ in range(n):
            fr = rng.choice([rng.random(), rng.random(), rng.random() ** 4, 1 - rng.random() ** 4])
            inj = [rng.choice(KINDS), fr] if rng.random() < 0.8 else None
            if inj and rng.random() < 0.3:
                inj.append("hot")
            steps.append({"op": op, "inj": inj})
        if rng.random() < 0.4:
            steps.append({"op": calls.gen_op(rng, h, mix), "inj": None})
        steps.append({"op": op, "inj": None})
    other = []
    if rng.random() < 0.25:
        other = [calls.gen_op(rng, h, mix) for _ in range(rng.randrange(1, 3))]
    return {"heap": h.specs, "steps": steps, "other": other,
            "warn": rng.choice(["ignore", "ignore", "ignore", "error"]),
            "np": rng.choice(["warn", "warn", "ignore", "raise"]),
            "sched": {"strategy": "gap", "gap": rng.choice([30, 200, 1000]), "seed": rng.getrandbits(40)}}


def setting(case):
    warnings.resetwarnings()
    warnings.simplefilter(case["warn"])
    np.seterr(all=case["np"])


def alone(case, op, seek=False):
    """answer of the operation alone, its number of library instructions and, when sought, the instructions at which the
    library would catch an exception itself or holds something process wide or shared in a changed state"""
    lib = _lib.fresh("instr")
    need = sorted({a["o"] for a in op.get("a", []) if "o" in a})
    heap = {i: calls.build(lib, case["heap"][i]) for i in need}
    with _lib.Active(lib):
        preload(lib, {"progs": [[op]], "heap": []})
        f, a, kw = calls.call_args(lib, heap, op)

        def go():
            try:
                y = f(*a, **kw)
            except Exception as e:
                y = e
            return values.canon(y)
        hot = []
        if seek:
            probe = world.probe(list(heap.values()))
            start = probe()
            state = [False, False]      # changed, to be looked at again

            def hook(t, code, offset):
                if state[1]:
                    state[0] = probe() != start
                state[1] = touches(code, offset)
                if state[0] or offset in guarded(code):
                    hot.append(t.steps)
            s = Solo(step_hook=hook)
        else:
            s = Solo()
        snap = world.settings_snapshot()
        x = s.run(go)
        d = world.snapshot_diff(snap, world.settings_snapshot())
    if d:
        raise Violation("settings-changed", "%s alone %s: process wide %s changed" % (
            op["f"], "raised" if isinstance(x, list) and x and x[0] == "exc" else "completed", ", ".join(d)))
    return x, s.steps, hot


def run(case, r):
    base = []
    for st in case["steps"]:
        setting(case)
        base.append(alone(case, st["op"], bool(st["inj"]) and "hot" in st["inj"][2:]))
    obase = []
    for op in case["other"]:
        setting(case)
        obase.append(alone(case, op)[0])
    setting(case)
    lib = _lib.fresh("instr")
    with _lib.Active(lib):
        preload(lib, {"progs": [[s["op"] for s in case["steps"]] + case["other"]], "heap": case["heap"]})
        heap = [calls.build(lib, s) for s in case["heap"]]
        idx = [k for k in range(len(heap)) if case["heap"][k]["k"] != "tess"]
        want = {k: values.bits(heap[k]) for k in idx}
        snap = world.settings_snapshot()
        now = ["", ""]

        def one(si, solo, t=None):
            """one call; returns (outcome, value, private args before, after)"""
            st = case["steps"][si]
            f, a, kw = calls.call_args(lib, heap, st["op"])
            before = [values.bits(x) for x in a]
            inj = None
            if st["inj"]:
                n = 1 + int(st["inj"][1] * max(1, base[si][1] - 1))
                hot = base[si][2]
                if "hot" in st["inj"][2:] and hot:
                    n = hot[int(st["inj"][1] * len(hot)) % len(hot)]
                    r.count("interruptions of guarded or changed state")
                inj = [n, FACTORY[st["inj"][0]]]
            try:
                if t is None:
                    s = Solo(inject=inj)
                    try:
                        v = s.run(lambda: f(*a, **kw))
                    finally:
                        fired = s.fired
                else:
                    if inj:
                        inj[0] += t.steps
                    t.inject, t.fired = inj, None
                    try:
                        v = f(*a, **kw)
                    finally:
                        t.inject = None
                        fired = t.fired
                out = ("ok", values.canon(v))
            except (SimHang, SimDeadlock):
                raise
            except BaseException as e:
                if type(e).__name__ == "SimAbort":
                    raise
                out = ("exc", ["exc", type(e).__name__])
            return st, out, fired, before, [values.bits(x) for x in a]

        def judge(si, res, solo=True):
            st, (kind, v), fired, before, after = res
            name = st["op"]["f"]
            r.ev(name, kind, values.digest_canon(v), fired and fired[1:])
            if fired:
                r.count("fault:" + st["inj"][0])
                r.nontrivial = True
                r.keys.add("%s/%s/%d" % (name, fired[1], fired[2]))
                if kind == "exc":
                    r.count("interrupted calls")
                else:
                    r.count("calls completed despite interruption")
            what = "%s %s" % (name, "interrupted by %s in %s" % (st["inj"][0], fired[1]) if fired else
                              "completed" if kind == "ok" else "failed with %s" % v[1])
            if before != after:
                k = [i for i in range(len(before)) if before[i] != after[i]][0]
                raise Violation("argument-changed", "%s: argument %d is no longer what the caller passed" % (what, k))
            for k in idx:
                if values.bits(heap[k]) != want[k]:
                    raise Violation("argument-changed", "%s: %s object %d is no longer what the caller made" % (
                        what, case["heap"][k]["k"], k))
            if solo:
                d = world.snapshot_diff(snap, world.settings_snapshot())
                if d:
                    raise Violation("settings-changed", "%s: process wide %s changed" % (what, ", ".join(d)))
            b = base[si][0]
            if fired and kind == "exc":
                return
            if not values.close(v, b):
                if fired:
                    raise Violation("wrong-result", "%s yet returned %s, alone it gives %s" % (
                        what, values.brief(v), values.brief(b)))
                raise Violation("later-call-differs", "call %d %s gave %s, alone it gives %s" % (
                    si, what, values.brief(v), values.brief(b)))

        try:
            if not case["other"]:
                for si in range(len(case["steps"])):
                    judge(si, one(si, True))
            else:
                ores, sres = [], []
                holder = [None]

                def a():
                    np.seterr(all=case["np"])      # per thread in numpy
                    t = holder[0].threads[0]
                    for si in range(len(case["steps"])):
                        sres.append(one(si, False, t))

                def b():
                    np.seterr(all=case["np"])
                    for op in case["other"]:
                        ores.append(calls.call(lib, heap, op))
                s = holder[0] = Sched(case["sched"], step_cap=6000000)
                s.run([a, b])
                r.explicit = {"sched": {"switches": s.recorded if "switches" not in case["sched"]
                                        else case["sched"]["switches"]}}
                r.count("fault:preemption", s.nswitch)
                if s.abort in ("hang", "deadlock"):
                    raise Violation(s.abort, "the other thread does not finish after %s was interrupted" % (
                        [x[0]["op"]["f"] for x in sres],))
                for si, res in enumerate(sres):
                    judge(si, res, solo=False)
                d = world.snapshot_diff(snap, world.settings_snapshot())
                if d:
                    raise Violation("settings-changed", "after two threads: process wide %s changed" % ", ".join(d))
                for op, x, want_x in zip(case["other"], ores, obase):
                    r.ev("other", op["f"], values.digest_canon(x))
                    if not values.close(x, want_x):
                        raise Violation("other-caller-differs", "%s in a second thread gave %s, alone it gives %s" % (
                            op["f"], values.brief(x), values.brief(want_x)))
        except SimHang:
            raise Violation("hang", "a call does not finish")
        except SimDeadlock:
            raise Violation("deadlock", "a call waits for a lock which an earlier call left held")
    r.count("calls", len(case["steps"]) + len(case["other"]))


def describe(case, run):
    return {"steps": [[s["op"]["f"], s["inj"]] for s in case["steps"]], "other thread": [o["f"] for o in case["other"]],
            "warnings": case["warn"], "np.seterr": case["np"]}
