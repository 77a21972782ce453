"""C16: orientations stay the same rotation through every representation, node and repetition."""
import math

import numpy as np

from sim import des, gens, lib as _lib, models, values
from sim.engine import Violation

ID = "C16"
RUNS = {"quick": 4000, "thorough": 200000}
RULE = ("One run: a body turns through 1-5 seeded motions (standstill, slow, fast, up to and across half turns, through gimbal "
        "lock); its orientation is sampled with jitter, converted through 1-4 representations on relaying nodes over links that lose, "
        "repeat, delay and reorder samples, with senders that reuse their arrays, nodes that restart and sensors that pick the opposite "
        "quaternion; consumers decode, interpolate between the newest samples at jittered and jumping ticks, subtract orientations and "
        "integrate angular velocities. Non-trivial: a repeated or an overtaken sample was interpolated.")
MEASURE = "distinct (chain of representations or consumer operation, kind of motion, faults met) combinations"
REAL = ["general_robotics_toolbox core (rotation representations)", "numpy"]
STUBS = ["network", "clock", "body"]
ASSUMPTIONS = ["samples carry at least nine digits, twelve where axis and angle are taken from a matrix"]
SHRINK = lambda c: [["samples"], ["ticks"]] + [["samples", i, "hops"] for i in range(len(c["samples"]))] + \
    [["samples", i, "del"] for i in range(len(c["samples"]))]
MS = 10 ** 6
TOL = 5e-6          # the axis-angle conversions treat turns of less than 1e-6 as none


def setup():
    pass


def qmul(a, b):
    w, x, y, z = a
    W, X, Y, Z = b
    return np.array([w * W - x * X - y * Y - z * Z, w * X + x * W + y * Z - z * Y,
                     w * Y - x * Z + y * W + z * X, w * Z + x * Y - y * X + z * W])


def axis(rng):
    c = rng.random()
    if c < 0.4:
        return gens.rnd_axis(rng)
    v = np.array([rng.choice([0, 0, 1, -1, 2, 1e-4]) for _ in range(3)], dtype=float)
    n = np.linalg.norm(v)
    return (v / n).tolist() if n > 0.5 else gens.rnd_axis(rng)


def gen(rng, i, tier):
    segs = []
    t = 0
    start = {"axis": axis(rng), "ang": rng.choice([0.0, math.pi, math.pi / 2, -math.pi / 2, 2 * math.pi / 3, rng.uniform(-4, 4)])}
    if rng.random() < 0.1:
        start = {"axis": [0.0, 1.0, 0.0], "ang": rng.choice([math.pi / 2, -math.pi / 2])}
    for _ in range(rng.randrange(1, 6)):
        d = rng.choice([50, 200, 500, 1000])
        kind = rng.choice(["still", "slow", "spin", "fast", "flip", "gimbal", "creep"])
        rate = {"still": 0.0, "creep": rng.uniform(1e-9, 1e-6), "slow": rng.uniform(0.001, 0.1), "spin": rng.uniform(0.2, 3.0),
                "fast": rng.uniform(5, 60), "flip": math.pi * 1000.0 / d, "gimbal": math.pi / 2 * 1000.0 / d}[kind]
        segs.append({"t": t, "axis": [0.0, 1.0, 0.0] if kind == "gimbal" else axis(rng), "rate": rate * rng.choice([1, -1]), "kind": kind})
        t += d
    end = t
    period = rng.choice([5, 10, 20, 50, 100])
    nodes = rng.randrange(2, 5)
    samples = []
    t = 0
    while t <= end and len(samples) < 30:
        hops = []
        rep = rng.choice(["R", "q", "rot", "rpy"])
        for _ in range(rng.randrange(1, 4)):
            hops.append({"rep": rep, "node": rng.randrange(nodes), "dt": int(rng.expovariate(1.0) * rng.choice([1, 5, 40]) * MS),
                         "neg": rng.random() < 0.3, "norm": rng.random() < 0.3, "reuse": rng.random() < 0.5, "restart": rng.random() < 0.05,
                         "wire": rng.random() < 0.5})
            rep = rng.choice(["R", "q", "rot", "rpy"])
        dels = [] if rng.random() < 0.12 else [int(rng.expovariate(1.0) * rng.choice([0.1, 1, 5, 80]) * MS)
                                              for _ in range(rng.choice([1, 1, 1, 2, 3]))]
        samples.append({"t": t * MS + (rng.randrange(0, period * MS // 3) if rng.random() < 0.3 else 0), "node": rng.randrange(nodes),
                        "hops": hops, "del": dels, "round": rng.choice([None, None, None, 12, 9 if all(h["rep"] != "rot" for h in hops) else 13])})
        t += period if rng.random() < 0.9 else period * rng.randrange(2, 9)
    ticks = []
    for _ in range(rng.randrange(3, 25)):
        ticks.append({"t": rng.randrange(0, end * MS * 11 // 10 + 1), "node": rng.randrange(nodes),
                      "back": rng.choice([0, 0, 1, 2]), "jump": rng.choice([0, 0, 0, -period * MS, period * MS // 2]),
                      "ends": rng.random() < 0.1, "scale": [rng.choice([1.0, 1.0, 2.0, 0.5, 1 + 1e-4, 0.999]) for _ in range(2)], "dt": rng.choice([1, 2, 4, 10, 37]) * MS, "k": rng.randrange(1, 6)})
    return {"start": start, "segs": segs, "samples": samples, "ticks": sorted(ticks, key=lambda x: x["t"]), "nodes": nodes}


def run(case, r):
    w = des.Des(0)
    nodes = [_lib.fresh("plain") for _ in range(case["nodes"])]
    bufs = [dict() for _ in nodes]
    segs = []
    R = models.rodrigues(case["start"]["axis"], case["start"]["ang"])
    for n, s in enumerate(case["segs"]):
        segs.append(dict(s, R=R))
        if n + 1 < len(case["segs"]):
            R = models.rodrigues(s["axis"], s["rate"] * (case["segs"][n + 1]["t"] - s["t"]) / 1000.0).dot(R)

    def seg(t):
        return [s for s in segs if s["t"] * MS <= t][-1]

    def truth(t):
        s = seg(t)
        return models.rodrigues(s["axis"], s["rate"] * (t / 1e9 - s["t"] / 1e3)).dot(s["R"])

    def bad(cls, text, *a):
        raise Violation(cls, "at %.6f s: %s" % (w.seconds, text % a))

    def call(lb, name, *a):
        with _lib.Active(lb), np.errstate(all="warn"):
            try:
                return getattr(lb.rox, name)(*a)
            except Exception as e:
                if name == "R2rpy" and isinstance(e, AssertionError):
                    raise
                bad("fails", "%s(%s) raised %r", name, ", ".join(values.brief(np.asarray(x).tolist()) for x in a), e)

    def rotation(what, Rgot, Rwant, tol, *a):
        Rg = np.asarray(Rgot, dtype=float)
        if Rg.shape != (3, 3) or not np.all(np.isfinite(Rg)):
            bad("not-a-rotation", what + " gave %s", *(a + (values.brief(Rg.tolist()),)))
        d = float(np.abs(Rg - Rwant).max())
        if not d <= tol:
            bad("rotation-differs", what + " gave %s instead of %s (%.3g off)", *(a + (values.brief(Rg.tolist()), values.brief(Rwant.tolist()), d)))

    def unit(what, v, tol=1e-6):
        v = np.asarray(v, dtype=float).ravel()
        if not np.all(np.isfinite(v)) or abs(np.linalg.norm(v) - 1) > tol:
            bad("not-unit", "%s gave %s, length %r", what, v.tolist(), float(np.linalg.norm(v)) if np.all(np.isfinite(v)) else None)
        return v

    def encode(lb, rep, M, h, tol):
        """what a node sends for the rotation matrix it holds"""
        if rep == "R":
            return M.copy()
        if rep == "q":
            q = unit("R2q(%s)" % M.tolist(), call(lb, "R2q", M), 1e-7 + tol)
            if h["neg"]:
                q = -q
                r.count("fault:opposite quaternion")
            return q / np.linalg.norm(q) if h["norm"] else q
        if rep == "rot":
            k, th = call(lb, "R2rot", M)
            return [unit("the axis of R2rot(%s)" % M.tolist(), k), angle("R2rot(%s)" % M.tolist(), th)]
        try:
            v = call(lb, "R2rpy", M)
        except AssertionError:
            if np.linalg.norm(M[0:2, 0]) > 1e-12:
                bad("fails", "R2rpy refused %s, which is not at gimbal lock", M.tolist())
            r.count("roll-pitch-yaw refused at gimbal lock")
            return None
        return np.array(v, dtype=float)

    def angle(what, th):
        th = float(th)
        if not math.isfinite(th):
            bad("not-finite", "the angle of %s is %r", what, th)
        return th

    def decode(lb, rep, v, h):
        """the rotation matrix a node makes of what it received"""
        if rep == "R":
            return np.asarray(v).copy()
        if rep == "q":
            if h["norm"]:            # by way of axis and angle
                k, th = call(lb, "q2rot", v)
                unit("the axis of q2rot(%s)" % np.asarray(v).tolist(), k, 1e-3)
                return np.asarray(call(lb, "rot", k, angle("q2rot(%s)" % np.asarray(v).tolist(), th)))
            return np.asarray(call(lb, "q2R", v))
        if rep == "rot":
            if h["norm"]:            # by way of a quaternion
                q = unit("rot2q(%s, %s)" % (np.asarray(v[0]).tolist(), v[1]), call(lb, "rot2q", v[0], v[1]))
                return np.asarray(call(lb, "q2R", q))
            return np.asarray(call(lb, "rot", v[0], v[1]))
        return np.asarray(call(lb, "rpy2R", v))

    def wire(v):
        """through a text form and back, number by number"""
        if isinstance(v, list):
            return [wire(v[0]), float(repr(float(v[1])))]
        return np.array([float(repr(float(x))) for x in np.asarray(v).ravel()]).reshape(np.shape(v))

    store = [dict() for _ in nodes]         # node -> stamp -> (quaternion, rotation it denotes)
    order = [[] for _ in nodes]
    seen = set()

    def sample(si):
        s = case["samples"][si]
        t = s["t"]
        M = truth(t)
        tol = 1e-9
        if s["round"]:
            M = np.round(M, s["round"])
            tol = 30 * 10.0 ** -s["round"] + 1e-9
        hop(si, 0, s["node"], M, tol, [])
        if not s["del"]:
            r.count("fault:sample lost")

    def hop(si, n, node, M, tol, chain):
        s = case["samples"][si]
        h = s["hops"][n] if n < len(s["hops"]) else None
        lb = nodes[node % len(nodes)]
        if h is None:
            for d in s["del"]:
                w.after(d, arrive, si, node, M.copy(), tol, chain)
            if len(s["del"]) > 1:
                r.count("fault:sample repeated")
            return
        b = bufs[node % len(nodes)]
        if h["reuse"]:
            X = b.setdefault("M", np.zeros((3, 3)))
            X[...] = M
        else:
            X = M
        v = encode(lb, h["rep"], X, h, tol)
        if v is None:
            h = dict(h, rep="q")
            v = encode(lb, "q", X, h, tol)
        if h["rep"] == "rpy":
            # near gimbal lock a matrix that is not quite a rotation has no angles of its own
            c, e = np.linalg.norm(M[0:2, 0]), np.abs(M.T.dot(M) - np.eye(3)).max()
            tol += (1e-14 + 10 * e) / max(c, 1e-15)
            if c < 1e-15 and e < 1e-12:     # a refusal was due
                tol = 1e-3
        if h["rep"] == "rot" or h["norm"]:
            tol += TOL
        if h["reuse"]:
            X[...] = np.eye(3)[[1, 2, 0]]       # already the next value
            r.count("fault:sender array reused")
        if h["wire"]:
            v = wire(v)
        w.after(h["dt"], receive, si, n, h, v, tol, chain + [h["rep"]])

    def receive(si, n, h, v, tol, chain):
        s = case["samples"][si]
        node = h["node"] % len(nodes)
        if h["restart"]:
            nodes[node] = _lib.fresh("plain")
            bufs[node] = {}
            r.count("fault:node restart")
        M = decode(nodes[node], h["rep"], v, h)
        tol += 3e-8
        rotation("sample %d, sent as %s (%s)", M, truth(s["t"]), tol, si, ">".join(chain),
                 values.brief([np.asarray(x).tolist() for x in v] if isinstance(v, list) else np.asarray(v).tolist()))
        r.ev("hop", si, n, h["rep"], values.digest_canon(values.canon(M)))
        r.count("conversions")
        hop(si, n + 1, node, M, tol, chain)

    def arrive(si, node, M, tol, chain):
        s = case["samples"][si]
        node %= len(nodes)
        if (si, node) in seen:
            r.count("fault:repeated sample received")
            r.nontrivial = True
        seen.add((si, node))
        q = unit("R2q(%s)" % M.tolist(), call(nodes[node], "R2q", M), tol + 1e-7)
        if s["hops"] and s["hops"][-1]["neg"]:
            q = -q
        if order[node] and s["t"] < order[node][-1][0]:
            r.count("fault:overtaken")
            r.nontrivial = True
        order[node].append((s["t"], q, tol))
        store[node][s["t"]] = (q, tol)
        r.keys.add("%s/%s" % (">".join(chain), seg(s["t"])["kind"]))

    def tick(ti):
        k = case["ticks"][ti]
        node = k["node"] % len(nodes)
        lb = nodes[node]
        if len(order[node]) < 1:
            return
        now = w.now + k["jump"]
        if k["jump"]:
            r.count("fault:clock jump")
        # a consumer in a hurry takes the two newest arrivals, whatever they are
        o = order[node]
        (ta, qa, tola), (tb, qb, tolb) = o[max(0, len(o) - 2 - k["back"])], o[-1]
        if ta > tb:
            (ta, qa, tola), (tb, qb, tolb) = (tb, qb, tolb), (ta, qa, tola)
        u = 0.0 if tb == ta else min(1.0, max(0.0, (now - ta) / float(tb - ta)))
        if k["ends"]:
            u = float(round(u))
        Ra, Rb = models.quat_R(qa / np.linalg.norm(qa)), models.quat_R(qb / np.linalg.norm(qb))
        th = models.rot_angle(Rb.dot(Ra.T))
        sa, sb = [x * f for x, f in zip((qa, qb), k["scale"])]       # not normalised by whoever sent them
        what = "slerp(%s, %s, %r)" % (sa.tolist(), sb.tolist(), u)
        q = unit(what, call(lb, "slerp", sa, sb, u), 1e-9)
        if q.shape != (4,):
            bad("not-unit", "%s gave shape %s", what, q.shape)
        Rq = models.quat_R(q)
        a, b = models.rot_angle(Rq.dot(Ra.T)), models.rot_angle(Rb.dot(Rq.T))
        if abs(a - u * th) > TOL or abs(b - (1 - u) * th) > TOL:
            bad("interpolation", "%s is %.9f from the one and %.9f from the other, which are %.9f apart", what, a, b, th)
        r.ev("tick", ti, node, values.digest_canon(values.canon(q)))
        r.count("interpolations")
        if ta == tb:
            r.count("interpolated between a sample and its repetition")
        r.keys.add("slerp/%s/%d%d" % (seg(min(tb, w.now))["kind"], ta == tb, bool(np.dot(qa, qb) < 0)))
        # what is missing from the one to the other
        e = np.asarray(call(lb, "quatproduct", call(lb, "quatcomplement", qa))).dot(qb)
        if np.abs(e - qmul(qa * [1, -1, -1, -1], qb)).max() > 1e-9:
            bad("difference", "quatproduct(quatcomplement(%s)) times %s is %s", qa.tolist(), qb.tolist(), e.tolist())
        ax, ang = call(lb, "q2rot", e)
        unit("the axis of q2rot(%s)" % e.tolist(), ax, 1e-3)
        rotation("turning %s by the difference to %s", Ra.dot(np.asarray(call(lb, "rot", ax, angle("q2rot(%s)" % e.tolist(), ang)))), Rb,
                 TOL + 3 * (tola + tolb), qa.tolist(), qb.tolist())
        r.keys.add("difference/%s/%d" % (seg(min(tb, w.now))["kind"], ta == tb))
        # dead reckoning from the newest sample, in steps of the node's clock
        s = seg(min(tb, w.now))
        om = np.array(s["axis"]) * s["rate"]
        if np.abs(np.asarray(call(lb, "invhat", call(lb, "hat", om))) - om).max() > 1e-12 * (1 + abs(s["rate"])):
            bad("rate", "invhat(hat(%s)) differs", om.tolist())
        qd = np.asarray(call(lb, "quatjacobian", qb)).dot(om)
        want = 0.5 * qmul(np.concatenate(([0.0], om)), qb)
        if qd.shape != (4,) or np.abs(qd - want).max() > 1e-9 * (1 + abs(s["rate"])):
            bad("rate", "quatjacobian(%s) times %s is %s instead of %s", qb.tolist(), om.tolist(), qd.tolist(), want.tolist())
        q, n = qb, 0
        for n in range(1, k["k"] + 1):
            q = np.asarray(call(lb, "quatproduct", call(lb, "rot2q", np.array(s["axis"]), s["rate"] * k["dt"] / 1e9))).dot(q)
        rotation("%d steps of %g s from %s at %s", models.quat_R(unit("integrating", q)),
                 models.rodrigues(s["axis"], s["rate"] * n * k["dt"] / 1e9).dot(Rb), 1e-7 + 3 * tolb, n, k["dt"] / 1e9, qb.tolist(), om.tolist())

    for si, s in enumerate(case["samples"]):
        w.at(s["t"], sample, si)
    for ti, k in enumerate(case["ticks"]):
        w.at(k["t"], tick, ti)
    w.run()
    r.simtime = w.seconds


def describe(case, run):
    return {"motions": [s["kind"] for s in case["segs"]], "samples": [[h["rep"] for h in s["hops"]] for s in case["samples"]][:12],
            "ticks": len(case["ticks"]), "nodes": case["nodes"]}
