"""C01: concurrent callers each get the answer of a lone caller."""
import warnings

from sim import calls, gens, lib as _lib, rosstub, values, world
from sim.engine import Violation
from sim.sched import Sched

ID = "C01"
RUNS = {"quick": 1500, "thorough": 30000}
RULE = ("One run: 2-4 simulated caller threads with seeded programs over shared robots, transforms, arrays and a shared "
        "TesseractRobot; a seeded scheduler chooses every switch between library bytecodes. Non-trivial: at least one "
        "switch happened inside a library call while another call was in progress.")
MEASURE = "distinct (functions in progress at a switch, switched-to function) combinations"
REAL = ["general_robotics_toolbox (all modules used)", "numpy", "PyYAML", "urdf_parser_py", "xacro",
        "tesseract_robotics (C++ calls are atomic)"]
STUBS = ["thread scheduling (baton)", "threading.Lock/RLock of the library", "clock", "entropy", "geometry_msgs"]
ASSUMPTIONS = ["calls into C extensions are atomic at the granularity of one bytecode (true under the GIL)"]
SHRINK = lambda case: ([["progs"]] + [["progs", i] for i in range(len(case["progs"]))] +
                       ([["sched", "switches"]] if "switches" in case["sched"] else []))

MIXES = [{"math": 1, "kin": 4, "ik": 2}, {"math": 3, "kin": 1, "msg": 1}, {"ik": 5, "kin": 2},
         {"kin": 3, "tess": 3, "math": 1}, {"load": 1, "kin": 1, "math": 1}, {"kin": 1},
         {"math": 1, "kin": 1, "ik": 1, "load": 1, "tess": 1, "msg": 1}]


def setup():
    rosstub.install()


def gen(rng, i, tier):
    if rng.random() < 0.22:
        return gen_cold(rng)
    mix = rng.choice(MIXES)
    h = calls.gen_heap(rng, tess=mix.get("tess", 0) > 0 and rng.random() < 0.7,
                       robots=rng.randrange(1, 3), kinds=("named", "chain", "sph", "sph", "ur"),
                       planned=rng.choice([0, 1, 2]) if mix.get("tess") else 0)
    nt = rng.choice([2, 2, 2, 3, 4])
    same = rng.random() < 0.35
    progs = []
    first = None
    for t in range(nt):
        ops = []
        for _ in range(rng.randrange(1, 4)):
            if same and first is not None and rng.random() < 0.7:
                # the same function on other values: the most likely victims of shared scratch space
                op = None
                for _ in range(12):
                    op = calls.gen_op(rng, h, mix)
                    if op["f"] == first["f"]:
                        break
            else:
                op = calls.gen_op(rng, h, mix)
            if first is None:
                first = op
            ops.append(op)
        progs.append(ops)
    st = rng.random()
    if st < 0.4:
        plan = {"strategy": "gap", "gap": rng.choice([7, 30, 100, 400, 1500])}
    elif st < 0.65:
        plan = {"strategy": "pct", "k": rng.randrange(1, 5), "length": rng.choice([300, 2000, 10000, 40000])}
    elif st < 0.88:
        plan = {"strategy": "store", "prob": rng.choice([0.01, 0.05, 0.3])}
    elif st < 0.93:
        plan = {"strategy": "call", "prob": rng.choice([0.01, 0.05, 0.2])}
    else:
        plan = {"strategy": "state", "prob": rng.choice([0.1, 0.5, 0.9])}
    if first is not None and rng.random() < 0.15:   # the same call at the same time
        for p in progs[1:]:
            p[rng.randrange(len(p))] = first
        if rng.random() < 0.6:
            plan = {"strategy": "state", "prob": rng.choice([0.1, 0.5, 0.9])}
    plan["seed"] = rng.getrandbits(48)
    return {"heap": h.specs, "progs": progs, "sched": plan, "warn": rng.choice(["ignore", "ignore", "ignore", "error"])}


def gen_cold(rng):
    """several threads make the first calls of the process at the same time, on different robots"""
    kind = rng.choice(["ur", "ur", "sph", "sph", "chain", "named", "math", "load", "msg", "files", "tess", "tess"])
    kin = kind in ("ur", "sph", "chain", "named")
    h = calls.gen_heap(rng, robots=rng.choice([2, 3]) if kin else 1, kinds=(kind,) if kin else ("chain",),
                       planned=rng.choice([1, 2]) if kind == "tess" else 0)
    mix = {"ik": 1} if kind in ("ur", "sph") else {"kin": 1} if kin else {kind: 1}
    progs = [[calls.gen_op(rng, h, mix) for _ in range(rng.choice([1, 1, 2]))] for _ in range(rng.choice([2, 2, 3]))]
    if not kin:
        for p in progs[1:]:
            for _ in range(30):
                if p[0]["f"] == progs[0][0]["f"]:
                    break
                p[0] = calls.gen_op(rng, h, mix)
    plan = rng.choice([{"strategy": "store", "prob": 0.3}, {"strategy": "store", "prob": 0.05},
                       {"strategy": "call", "prob": 0.3}, {"strategy": "gap", "gap": 7}, {"strategy": "gap", "gap": 30},
                       {"strategy": "pct", "k": rng.randrange(1, 4), "length": rng.choice([100, 500, 3000])},
                       {"strategy": "state", "prob": 0.2}, {"strategy": "state", "prob": 0.7}])
    plan["seed"] = rng.getrandbits(48)
    return {"heap": h.specs, "progs": progs, "sched": plan, "warn": rng.choice(["ignore", "ignore", "error"])}


def preload(lib, case):
    fs = {o["f"].split("_")[0] for p in case["progs"] for o in p}
    if "urdf" in fs:
        lib.sub("urdf")
    if fs & {"rr"}:
        lib.sub("robotraconteur")
    if "msg" in fs:
        lib.sub("ros_msg")
    if "tess" in fs or any(s["k"] == "tess" for s in case["heap"]):
        lib.sub("tesseract")


def run(case, r):
    # warnings turned into exceptions: part of what a call raises when it runs alone
    warnings.resetwarnings()
    warnings.simplefilter(case.get("warn", "ignore"))
    lib = _lib.fresh("instr")
    with _lib.Active(lib):
        preload(lib, case)
    with _lib.Active(lib):
        heap = [calls.build(lib, s) for s in case["heap"]]
        shared = [(k, o) for k, o in enumerate(heap) if case["heap"][k]["k"] != "tess"]
        want = [values.bits(o) for _, o in shared]
        results = [[] for _ in case["progs"]]
        now = [None] * len(case["progs"])
        bad = []

        def check(where):
            for (k, o), w in zip(shared, want):
                if values.bits(o) != w:
                    bad.append((where, k))
                    return

        def on_switch(t):
            inside = [x for x in now if x]
            if len(inside) > 1:
                r.keys.add("+".join(sorted(inside)))
                r.nontrivial = True
            if len(bad) < 1:
                check("%s was interrupted" % now[t.idx])

        def prog(ti):
            def body():
                for op in case["progs"][ti]:
                    now[ti] = op["f"]
                    results[ti].append(calls.call(lib, heap, op))
                    now[ti] = None
            return body
        before = world.settings_snapshot(False)
        s = Sched(case["sched"], step_cap=6000000, on_switch=on_switch,
                  probe=world.probe([o for _, o in shared]))
        ts = s.run([prog(i) for i in range(len(case["progs"]))])
        check("the run ended")
        after = world.settings_snapshot(False)
        later = []
        if not s.abort:                 # what the threads left behind
            for ti, p in enumerate(case["progs"]):
                for oi, op in enumerate(p):
                    later.append((ti, oi, op, calls.call(lib, heap, op)))
    r.explicit = {"sched": {"switches": s.recorded if "switches" not in case["sched"] else case["sched"]["switches"]}}
    r.count("fault:preemption", s.nswitch)
    r.count("steps", s.steps)
    r.count("calls", sum(len(x) for x in results))
    r.ev("switches", s.nswitch, s.trace_hash)
    for ti, rs in enumerate(results):
        for op, x in zip(case["progs"][ti], rs):
            r.ev(ti, op["f"], values.digest_canon(x))
            if isinstance(x, list) and x and x[0] == "exc":
                r.count("raising calls")
    if s.abort in ("hang", "deadlock"):
        raise Violation(s.abort, "threads do not finish: %s (in progress: %s)" % (s.abort, now))
    if s.blocked_events:
        i, n, o = s.blocked_events[0]
        raise Violation("blocked", "thread %d waited for a lock of the library held by thread %s" % (i, o))
    if bad:
        w, k = bad[0]
        raise Violation("shared-argument-changed", "%s object %d differs from what the callers put there when %s" % (
            case["heap"][k]["k"], k, w))
    for ti, rs in enumerate(results):
        for oi, (op, x) in enumerate(zip(case["progs"][ti], rs)):
            b = calls.baseline(case["heap"], op)
            if not values.close(x, b):
                raise Violation("answer-differs", "thread %d call %d %s gave %s, alone it gives %s" % (
                    ti, oi, op["f"], values.brief(x), values.brief(b)))
    why = world.snapshot_diff(before, after)
    if why:
        raise Violation("settings-changed", "the process wide settings %s are changed after the threads have ended" % ", ".join(why))
    for ti, oi, op, x in later:
        b = calls.baseline(case["heap"], op)
        if not values.close(x, b):
            raise Violation("later-answer-differs", "call %d of thread %d, %s, made again after the threads have ended gave %s, alone "
                            "it gives %s" % (oi, ti, op["f"], values.brief(x), values.brief(b)))


def describe(case, run):
    return {"threads": [[o["f"] for o in p] for p in case["progs"]], "strategy": case["sched"], "warnings": case.get("warn"),
            "switches": len(run.explicit["sched"]["switches"]) if run.explicit else 0,
            "robots": sum(1 for s in case["heap"] if s["k"] == "robot")}
