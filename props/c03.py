"""C03: poses and results are snapshots that later writes cannot change."""
import numpy as np

from sim import calls, gens, held, lib as _lib, rosstub, values
from sim.engine import Violation
from sim.sched import Solo
from .c01 import preload

ID = "C03"
RUNS = {"quick": 4500, "thorough": 150000}
RULE = ("One run: a seeded history of calls, each followed by writes of the simulated caller into earlier arguments, robots, "
        "documents and results, some of them in the middle of a later call; after every step each value held by the caller "
        "is compared with what it was. Non-trivial: at least one write into a result or into an argument of an earlier "
        "call was done while other values were held.")
MEASURE = "distinct (function that gave the value, path written) pairs"
REAL = ["general_robotics_toolbox (all modules used)", "numpy", "PyYAML", "urdf_parser_py", "tesseract_robotics"]
STUBS = ["the caller (seeded writes, also at a library instruction of a later call)", "clock", "entropy", "geometry_msgs"]
ASSUMPTIONS = ["Robot objects keep the arrays given to their constructor; that sharing is the caller's"]
SHRINK = ["steps"]
MIXES = [{"math": 3, "kin": 3, "ik": 1}, {"kin": 3, "ik": 2}, {"load": 2, "kin": 1, "math": 1}, {"math": 1, "msg": 0, "kin": 1},
         {"math": 1}, {"tess": 3, "math": 1}]
TESSRAW = ["tess_pdict", "tess_opw", "tess_ur", "tess_sol", "tess_iso"]


def setup():
    rosstub.install()


def gen(rng, i, tier):
    mix = rng.choice(MIXES)
    h = calls.gen_heap(rng, tess=mix.get("tess", 0) > 0 and rng.random() < 0.6, robots=rng.randrange(1, 3),
                       kinds=("named", "chain", "sph", "sph", "ur"), planned=rng.choice([0, 1, 2]) if mix.get("tess") else 0)
    steps = []
    pool = []
    for _ in range(rng.randrange(3, 9)):
        if pool and rng.random() < 0.45:
            op = rng.choice(pool)
        else:
            op = calls.gen_op(rng, h, mix)
            if op["f"] == "R_new":
                continue
            a2 = []
            for a in op.get("a", []):
                if "t" in a and rng.random() < 0.35:
                    a = dict(a, h=rng.randrange(50))
                a2.append(a)
            op = dict(op, a=a2)
            pool.append(op)
        st = {"op": op}
        if rng.random() < 0.25:
            st["mid"] = [int(10 ** rng.uniform(0, 3.5)), _w(rng)]
        st["w"] = [_w(rng) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
        steps.append(st)
    return {"heap": h.specs, "steps": steps}


def _w(rng):
    # who: "r" result, "a" argument, "o" heap object
    return [rng.choice("rrraao"), rng.randrange(1000), rng.randrange(10000), rng.choice(
        ["add", "fill", "swap", "one", "assign", "add", "grow"]), rng.choice([0.125, 0.25, -0.5, 3.0, 1e-3])]


class Holder(object):
    __slots__ = ("obj", "kind", "name", "want")

    def __init__(self, obj, kind, name):
        self.obj, self.kind, self.name = obj, kind, name
        self.want = held.leafmap(obj)


def run(case, r):
    lib = _lib.fresh("instr")
    with _lib.Active(lib):
        preload(lib, {"progs": [[s["op"] for s in case["steps"]]], "heap": case["heap"]})
        heap = [calls.build(lib, s) for s in case["heap"]]
        H = [Holder(o, "o", "%s object %d" % (case["heap"][k]["k"], k)) for k, o in enumerate(heap)
             if case["heap"][k]["k"] != "tess"]
        tess = {k: o for k, o in enumerate(heap) if case["heap"][k]["k"] == "tess"}

        def check(written, what):
            for x in H:
                cur = held.leafmap(x.obj)
                if cur == x.want:
                    continue
                bad = [p for p in set(cur) | set(x.want) if cur.get(p) != x.want.get(p)]
                if written is not None and x is written[0]:
                    bad = [p for p in bad if p != written[1] and written[1] != "*"]
                if bad:
                    raise Violation("snapshot-changed", "%s%s changed when %s" % (x.name, sorted(bad)[0], what))
            if written is not None:
                written[0].want = held.leafmap(written[0].obj)

        def do_write(w, skip=()):
            who, n, leaf, kind, amount = w
            c = [x for x in H if x.kind == who and x not in skip] or [x for x in H if x not in skip]
            if not c:
                return
            x = c[-1 - (n % len(c))] if who == "r" else c[n % len(c)]
            path = held.write(x.obj, leaf, kind, amount)
            if path is None:
                return
            r.count("fault:write into %s" % {"r": "result", "a": "argument", "o": "shared object"}[x.kind])
            r.keys.add("%s%s" % (x.name.split("#")[0], path if x.kind != "a" else "arg"))
            r.ev("write", x.name, path, kind)
            if len(H) > 1:
                r.nontrivial = True
            check((x, path), "the caller wrote into %s%s (%s)" % (x.name, path, kind))

        for si, st in enumerate(case["steps"]):
            op = st["op"]
            args = []
            for a in op.get("a", []):
                if "h" in a:
                    c = [x.obj for x in H if x.kind == "r" and type(x.obj).__name__ == "Transform"]
                    args.append(c[a["h"] % len(c)] if c else gens.mk_tf(lib.rox, a["t"]))
                else:
                    args.append(calls.arg(lib, heap, a))
            f = calls.fn(lib, op["f"])
            # the same call on copies of the present contents, by a library instance without a past
            lib2 = _lib.fresh("plain")
            with _lib.Active(lib2):
                a2 = []
                for a, x in zip(op.get("a", []), args):
                    if "o" in a and a["o"] in tess:
                        a2.append(calls.build(lib2, case["heap"][a["o"]]))
                    else:
                        a2.append(held.clone(lib2.rox, x))
                want = outcome(calls.fn(lib2, op["f"]), a2)[0]
            mid = st.get("mid")
            if mid:
                fired = []
                mine = [x for x in H if any(_shares(x.obj, y) for y in args)]

                def hook(t, code, offset):
                    if t.steps == mid[0] and not fired:
                        fired.append(1)
                        r.count("writes in the middle of a call")
                        do_write(["r"] + mid[1][1:], skip=mine)
                s = Solo(step_hook=hook)
                got, raw = s.run(lambda: outcome(f, args))
            else:
                got, raw = outcome(f, args)
            r.ev("call", op["f"], values.digest_canon(got))
            r.count("calls")
            check(None, "%s was called" % op["f"])
            if not values.close(got, want):
                raise Violation("later-call-differs", "call %d %s gave %s, on the same values without a past it gives %s" %
                                (si, op["f"], values.brief(got), values.brief(want)))
            for ai, x in enumerate(args):
                if not any(y.obj is x for y in H) and not any(x is y for y in tess.values()):
                    H.append(Holder(x, "a", "argument %d of %s#%d" % (ai, op["f"], si)))
            if not isinstance(raw, Exception):
                H.append(Holder(raw, "r", "result of %s#%d" % (op["f"], si)))
            for w in st["w"]:
                do_write(w)


def _shares(a, b):
    """the held value is (part of) an argument, by identity of the caller's own objects"""
    ids = {id(l[1]) for l in held.leaves(b)} | {id(l[2]) for l in held.leaves(b)} | {id(b)}
    return id(a) in ids or any(isinstance(l[1], np.ndarray) and id(l[1]) in ids or id(l[2]) in ids and l[2] is not None
                               for l in held.leaves(a))


def outcome(f, args):
    try:
        x = f(*args)
    except values_exc as e:
        return ["exc", type(e).__name__], e
    return values.canon(x), x


values_exc = Exception


def describe(case, run):
    return {"steps": [[s["op"]["f"], len(s["w"]), s.get("mid", [None])[0]] for s in case["steps"]]}
