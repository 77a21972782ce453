"""C05: the same program gives the same results in every process."""
import gc
import os
import threading

import numpy as np

from sim import calls, engine, gens, lib as _lib, rosstub, values, world
from sim.engine import Violation

ID = "C05"
RUNS = {"quick": 700, "thorough": 20000}
RULE = ("One run: one seeded program (library calls, seeded random_ helpers) executed in 3 simulated processes which differ "
        "in hash seed, entropy, clock, import order, calling thread, memory layout and calls made before. Non-trivial: all "
        "three processes completed the program and at least two had different hash seeds.")
MEASURE = "distinct (function, kind of process difference) pairs"
REAL = ["general_robotics_toolbox (all modules used)", "numpy", "PyYAML", "urdf_parser_py", "xacro", "tesseract_robotics",
        "CPython start-up with a hash seed"]
STUBS = ["entropy", "clock", "np.random draws in the extreme-draw runs", "geometry_msgs"]
ASSUMPTIONS = ["one machine, one numpy and Python version"]
SHRINK = lambda case: [["ops"]] + [["vars", k, "junk"] for k in range(len(case["vars"]))]
HS = [0, 1, 2, 77, 1234, 99991, 31337]
MODS = ["urdf", "robotraconteur", "ros_msg", "tesseract", "ros_tf"]
MIXES = [{"math": 2, "kin": 2, "ik": 3}, {"load": 2, "kin": 1}, {"tess": 3, "kin": 1}, {"math": 1, "kin": 1, "ik": 1, "load": 1,
         "tess": 1, "msg": 1}, {"math": 3, "msg": 2}]
CHUNK = 10
_helpers = {}


def setup():
    rosstub.install()


def gen(rng, i, tier):
    mix = rng.choice(MIXES)
    h = calls.gen_heap(rng, tess=mix.get("tess", 0) > 0 and rng.random() < 0.5, robots=2, planned=rng.choice([0, 1]) if mix.get("tess") else 0)
    ops = [calls.gen_op(rng, h, mix) for _ in range(rng.randrange(4, 14))]
    if mix.get("tess"):
        for _ in range(2):
            n = rng.choice(sorted(gens.TESS))
            ops.append({"f": rng.choice(["tess_plugin", "tess_pdict", "tess_plugin2"]),
                        "a": [{"b": {"k": "robot", "d": gens.named(n)}}, {"s": rng.choice(["robot", "left"])},
                              {"s": rng.choice([None, gens.TESS[n]])}]})
            if ops[-1]["f"] == "tess_plugin2":
                ops[-1]["a"][2] = {"s": rng.sample(["tesseract_kinematics_kdl_factories", "my_kinematics", "libb", "opw",
                                                    "tesseract_kinematics_ur_factories"], rng.randrange(1, 5))}
    if rng.random() < 0.6:
        k = rng.randrange(len(ops) + 1)
        rnd = [{"f": "seed", "a": [{"s": rng.getrandbits(31)}]}]
        for _ in range(rng.randrange(2, 12)):
            rnd.append({"f": rng.choice(["random_R", "random_p", "random_transform"]), "a": []})
            if rng.random() < 0.2:
                rnd.append(calls.gen_op(rng, h, mix))
        ops[k:k] = rnd
    for _ in range(rng.choice([0, 0, 1, 2])):
        # targets that are not reached: every step of the iteration counts
        i = calls._robot_of(rng, h)
        ops.insert(rng.randrange(len(ops) + 1), {"f": "iterative_invkin", "a": [
            {"o": i}, {"t": gens.rnd_tf(rng, 4.0)}, {"v": gens.rnd_joints(rng, h.specs[i]["d"])}]})
    vs = []
    for k in range(3):
        hs = HS[0] if k == 0 else rng.choice(HS[1:])
        order = list(MODS)
        rng.shuffle(order)
        vs.append({"hs": hs, "entropy": rng.getrandbits(31), "clock": rng.choice([0.0, 1e9, 1.7e9, 4e9]) + rng.random(),
                   "order": order[:rng.randrange(0, 4)], "thread": rng.random() < 0.3, "alloc": rng.randrange(0, 3000),
                   "junk": [calls.gen_op(rng, h, mix) for _ in range(rng.choice([0, 0, 1, 4]))],
                   "env": rng.random() < 0.3})
        vs[-1]["rate"] = rng.choice([0.0, 0.0, 1e-4, 0.05, 1.0, 60.0])
        for _ in range(rng.choice([0, 0, 1, 2, 5])):
            vs[-1]["junk"].append({"f": rng.choice(["random_R", "random_p", "random_transform"]), "a": []})
        rng.shuffle(vs[-1]["junk"])
    return {"heap": h.specs, "ops": ops, "vars": vs, "extreme": rng.getrandbits(31) if rng.random() < 0.2 else None}


# -- extreme draws ----------------------------------------------------------------

class Extreme(object):
    """np.random with seeded extreme (but possible) draws"""
    U = [0.0, 2.0 ** -53, 1 - 2.0 ** -53, 0.5, 1e-9, 0.25]
    N = [8.2, -8.2, 1e-12, 0.0, 1.0, -1e-9]
    NAMES = {"rand": "u*", "random": "u", "random_sample": "u", "ranf": "u", "sample": "u", "uniform": "U",
             "randn": "n*", "standard_normal": "n", "normal": "N"}

    def __init__(self, seed):
        import random
        self.r = random.Random(seed)
        self.n = 0

    def _draw(self, tab, shape):
        self.n += 1
        if shape is None or shape == ():
            return self.r.choice(tab[1:3])
        n = int(np.prod(shape))
        v = [self.r.choice(tab) for _ in range(n)]
        if not any(abs(x) > 1e-13 for x in v):
            v[self.r.randrange(n)] = tab[2] if tab is self.U else tab[0]
        return np.array(v).reshape(shape)

    def install(self):
        self.old = {k: getattr(np.random, k) for k in self.NAMES}
        np.random.rand = lambda *s: self._draw(self.U, s)
        np.random.randn = lambda *s: self._draw(self.N, s)
        for k in ("random", "random_sample", "ranf", "sample"):
            setattr(np.random, k, lambda size=None: self._draw(self.U, _sh(size)))
        np.random.standard_normal = lambda size=None: self._draw(self.N, _sh(size))
        np.random.uniform = lambda low=0.0, high=1.0, size=None: low + (high - low) * self._draw(self.U, _sh(size))
        np.random.normal = lambda loc=0.0, scale=1.0, size=None: loc + scale * self._draw(self.N, _sh(size))

    def remove(self):
        for k, v in self.old.items():
            setattr(np.random, k, v)


def _sh(size):
    return None if size is None else (size,) if isinstance(size, int) else tuple(size)


def proper(R):
    R = np.asarray(R, dtype=float)
    return R.shape == (3, 3) and np.isfinite(R).all() and np.abs(R.dot(R.T) - np.eye(3)).max() < 1e-9 and \
        np.linalg.det(R) > 0


# -- the program --------------------------------------------------------------------

def program(case, var, r):
    world.reset(var["entropy"] & 0x7fffffff, clock_base=var["clock"])
    world.clock.rate = var.get("rate", 0.0)
    junk_mem = [bytearray(17 + (k * 7919) % 400) for k in range(var["alloc"])]
    junk_mem = junk_mem[::3]
    if var["env"]:
        os.environ["LANG"] = "de_DE.UTF-8"
        os.environ["COLUMNS"] = "12"
    ext = None
    try:
        if case["extreme"] is not None:
            ext = Extreme(case["extreme"])
            ext.install()
        lib = _lib.fresh("plain")
        out = []

        def body():
            with _lib.Active(lib):
                for m in var["order"]:
                    lib.sub(m)
                heap = [calls.build(lib, s) for s in case["heap"]]
                jh = [calls.build(lib, s) for s in case["heap"]] if var["junk"] else None
                for op in var["junk"]:
                    calls.call(lib, jh, op)
                for op in case["ops"]:
                    if op["f"] == "seed":
                        np.random.seed(op["a"][0]["s"])
                        if ext is not None:
                            ext.r.seed(case["extreme"] ^ op["a"][0]["s"])
                        continue
                    rnd = op["f"].startswith("random_")
                    st = None if rnd else _state(ext)
                    x = calls.call(lib, heap, op)
                    out.append((op["f"], x))
                    if not rnd and _state(ext) != st:
                        raise Violation("random-state-used", "%s consumed or changed the random state" % op["f"])
        if var["thread"]:
            err = []

            def t():
                try:
                    body()
                except BaseException as e:
                    err.append(e)
            th = threading.Thread(target=t)
            th.start()
            th.join()
            if err:
                raise err[0]
        else:
            body()
    finally:
        if ext:
            ext.remove()
        for k in ("LANG", "COLUMNS"):
            os.environ.pop(k, None)
    for f, x in out:
        r.ev(f, values.digest_canon(x), values.brief(x, 160))
        if f.startswith("random_"):
            ok = values.finite(x)
            if f == "random_R" and ok:
                ok = x[0] == "arr" and proper(np.array(x[2]).reshape(3, 3))
            if f == "random_transform" and ok:
                ok = isinstance(x, dict) and proper(np.array(x["T.R"][2]).reshape(3, 3))
            if not ok or (isinstance(x, list) and x[0] == "exc"):
                raise Violation("bad-random", "%s gave %s" % (f, values.brief(x)))
    del junk_mem
    return out


def _state(ext):
    if ext is not None:
        return ext.n
    s = np.random.get_state()
    import random
    return s[1].tobytes(), s[2], s[3], s[4], random.getstate()[1][-1], hash(random.getstate())


def helper(hs):
    w = _helpers.get(hs)
    if w is None or w.p.poll() is not None:
        w = _helpers[hs] = engine.Worker(ID, str(hs))
    return w


def teardown():
    for w in _helpers.values():
        w.p.kill()


def run(case, r):
    if "only" in case:
        program(case, case["vars"][case["only"]], r)
        return
    vs = case["vars"]
    asked = []
    for k in range(1, len(vs)):
        w = helper(vs[k]["hs"])
        t = {"kind": "case", "id": 1, "case": dict(case, only=k), "log": True}
        if any(w is x for _, x in asked):
            asked.append((k, None))
            continue
        w.send(t)
        asked.append((k, w))
    sub = engine.Run()
    sub.keep_log = True
    sub.log = []
    v0 = None
    try:
        program(case, vs[0], sub)
    except Violation as v:
        v0 = v
    logs = [sub.log]
    for k, w in asked:
        if w is None:
            w = helper(vs[k]["hs"])
            w.send({"kind": "case", "id": 1, "case": dict(case, only=k), "log": True})
        line = w.p.stdout.readline()
        w.drain()
        if not line:
            raise RuntimeError("helper died: " + w.err)
        import json
        a = json.loads(line)
        if "error" in a:
            raise RuntimeError(a["error"])
        if a["run"]["viol"] and v0 is None:
            v0 = Violation(a["run"]["viol"][0]["cls"], a["run"]["viol"][0]["msg"])
        logs.append(a["log"])
    for l in logs[0]:
        r.ev(l)
    for k in range(1, len(vs)):
        for d in ("hs", "thread", "order", "junk", "entropy", "clock", "rate"):
            if vs[k].get(d) != vs[0].get(d):
                r.count("fault:different " + {"hs": "hash seed", "junk": "calls before", "order": "import order",
                                              "rate": "speed of the machine"}.get(d, d))
                for l in logs[0][:6]:
                    r.keys.add(l.split("|")[0] + "/" + d)
    r.count("calls", sum(len(l) for l in logs))
    if case["extreme"] is not None:
        r.count("fault:extreme random draws")
    if v0 is not None:
        raise v0
    r.nontrivial = len({v["hs"] for v in vs}) > 1 and all(len(l) == len(logs[0]) for l in logs)
    for k in range(1, len(logs)):
        for n, (a, b) in enumerate(zip(logs[0], logs[k])):
            if a != b:
                raise Violation("process-dependent", "result %d of the program: process 0 %s, process %d (hash seed %s) %s" % (
                    n, values.brief(a, 300), k, vs[k]["hs"], values.brief(b, 300)))


def describe(case, run):
    return {"program": [o["f"] for o in case["ops"]],
            "processes": [{k: v[k] for k in ("hs", "order", "thread", "clock")} for v in case["vars"]]}
