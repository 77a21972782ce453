"""C13: iterative inverse kinematics in a follower that works a few steps at a time."""
import math

import numpy as np

from sim import gens, lib as _lib, models, servo, world
from sim.engine import Violation
from sim.sched import SimHang, SimInterrupt, Solo

ID = "C13"
MS = servo.MS
RUNS = {"quick": 500, "thorough": 60000}
RULE = ("One run: a leader (chain of 1-8 revolute and prismatic joints, or a named robot) moves, holds, jumps, leaves the reach "
        "and flips its hand over a faulty link; a follower wakes up on its own timer, spends 0-60 solver steps on the newest "
        "target, is interrupted or runs out of memory within calls, restarts from saved or zero joints, and at the end gets a "
        "target near by that stays. Non-trivial: a held target was converged to over two or more calls, with a fault before.")
MEASURE = "distinct (joints, prismatic, target kind, steps per call, outcome, distance class) combinations"
REAL = ["general_robotics_toolbox core and invkin", "numpy"]
STUBS = ["link", "clock and timer", "follower drive", "interruptions"]
ASSUMPTIONS = ["progress is required from joints within the smallest singular value of the target's configuration (lengths "
               "scaled, at least 0.03), with gains from 0.2 to 1",
               "one evaluation of the Jacobian counts as one step"]
SHRINK = lambda c: [["crashes"], ["segs"], ["calls"]]
INJ = {"interrupt": lambda: SimInterrupt("interrupted"), "memory": lambda: MemoryError("simulated")}
NEAR = 0.03
PER_STEP = 60000


def gen(rng, i, tier):
    c = rng.random()
    if c < 0.45:
        d = gens.with_aux(rng, gens.rnd_chain(rng, rng.choice([1, 1, 2, 3, 4, 5, 6, 6, 7, 8])), 0.3)
        if rng.random() < 0.3:
            d["joint_type"] = [0] * len(d["joint_type"])
        if len(d["joint_type"]) == 1 and rng.random() < 0.5:
            d["joint_type"] = [1]
    elif c < 0.7:
        d = gens.with_aux(rng, gens.exact(gens.named(rng.choice([n for n in gens.ALL_NAMED if n != "m10ia"]))), 0.2)
    elif c < 0.85:
        d = gens.with_aux(rng, gens.rnd_spherical(rng), 0.3)
    else:
        d = gens.with_aux(rng, gens.rnd_ur(rng), 0.3)
    n = rng.choice([8, 20, 40])
    segs = servo.gen_segments(rng, d, n, wrist=rng.random() < 0.5)
    if rng.random() < 0.35:
        segs.insert(rng.randrange(1, len(segs) + 1), {"k": "flip", "n": rng.randrange(1, 4), "axis": rng.choice([gens.rnd_axis(rng), [0.0, 1e-5, 1.0], [0.0, 0.6, 0.8], [0.0, 0.0, 1.0]]),
                                                     "a": rng.choice([math.pi, math.pi - 1e-9, math.pi - 1e-4, 3.0])})
    n = len(servo.samples(d, segs, 20))
    lo, up = servo.limits(d, 0.05)
    # the last target: somewhere well conditioned
    best = None
    for _ in range(20):
        q = np.array([rng.uniform(a, b) for a, b in zip(lo, up)])
        s = sig(d, q)
        if best is None or s > best[0]:
            best = (s, q)
        if s > 0.08:
            break
    v = np.array([rng.gauss(0, 1) for _ in lo])
    v = v / np.linalg.norm(v)
    calls = []
    kstyle = rng.choice([[1], [1, 2, 3], [5, 10], [0, 1, 30], [200], [2]])
    for _ in range(rng.choice([30, 60, 120])):
        c = {"k": rng.choice(kstyle)}
        if rng.random() < 0.08:
            c["inject"] = [rng.choice(["interrupt", "memory"]), int(10 ** rng.uniform(0, 4.3))]
        calls.append(c)
    return {"robot": d, "segs": segs, "link": servo.gen_link(rng, n), "crashes": servo.gen_crashes(rng, n, 20),
            "policy": rng.choice(["newest", "any"]), "wire": rng.choice(["mat", "quat"]), "tick": rng.choice([7, 20, 45]),
            "calls": calls, "gain": rng.choice([None, None, 0.3, 0.2, 0.6, 1.0]), "tol": rng.choice([None, None, 1e-3, 1e-5, 1e-7]),
            "start": rng.choice(["leader", "leader", "zero", "random"]), "q0": [rng.uniform(a, b) for a, b in zip(lo, up)],
            "arg": rng.choice(["array", "array", "list", "tuple", "ro"]), "lay": rng.choice(["C", "F", "ro"]),
            "final": {"q": best[1].tolist(), "dir": v.tolist(), "f": rng.uniform(0.1, 0.95), "k": rng.choice(kstyle)},
            "traced": rng.random() < 0.1, "slow": rng.choice([0.0, 0.0, 0.0, 1e-3, 0.3, 20.0])}


def sig(d, q):
    """smallest singular value of the Jacobian (lengths scaled), 0 for a configuration that is singular for its size"""
    J = models.jac(d, q)
    J[3:] = J[3:] / servo.scale(d)
    for i, t in enumerate(d["joint_type"]):
        if t == 1:
            J[:, i] = J[:, i] * servo.scale(d)
    return float(np.linalg.svd(J, compute_uv=False)[-1])


def dist(d, a, b):
    v = np.array(a) - np.array(b)
    for i, t in enumerate(d["joint_type"]):
        if t == 1:
            v[i] = v[i] / servo.scale(d)
    return float(np.linalg.norm(v))


class Counter(object):
    """counts evaluations of the Jacobian in one instance of the library and stops a runaway"""

    def __init__(self, mod):
        self.mod = mod
        self.real = mod.robotjacobian

    def limit(self, n, cap):
        self.n, self.cap = n, cap
        return self

    def __call__(self, *a, **kw):
        self.n[0] += 1
        if self.n[0] > self.cap:
            raise SimHang("still running after %d steps" % self.cap)
        return self.real(*a, **kw)

    def __enter__(self):
        self.mod.robotjacobian = self

    def __exit__(self, *a):
        self.mod.robotjacobian = self.real


def run(case, r):
    lb = _lib.fresh("instr" if case["traced"] else "plain")
    slow = lb if case["traced"] else _lib.fresh("instr") if any(c.get("inject") for c in case["calls"]) else None
    d = case["robot"]
    n = len(d["joint_type"])
    tol = case["tol"] or 1e-4
    with _lib.Active(lb):
        rox = lb.rox
        robot = gens.mk_robot(rox, d, case["lay"])
        if slow is not None and slow is not lb:
            with _lib.Active(slow):
                robot2 = gens.mk_robot(slow.rox, d, case["lay"])
        count = Counter(lb.general_robotics_toolbox)
        world.clock.rate = case.get("slow", 0.0)
        if world.clock.rate:
            r.count("fault:slow machine")
        link = servo.Link(case, d, r, period=20)
        st = {"q": np.array(case["q0"]), "saved": np.array(case["q0"]), "target": None, "budget": None, "nc": 0, "ncall": 0,
              "since": 0, "sure": None, "faults": 0}
        if case["start"] == "leader" and link.samples and link.samples[0]["q"] is not None:
            st["q"] = np.array(link.samples[0]["q"])
        elif case["start"] == "zero":
            st["q"] = np.zeros(n)
        done = {"multi": 0}

        def on_target(s):
            if st["target"] is not None and st["target"]["kind"] == s["kind"] and np.array_equal(st["target"]["p"], s["p"]) and \
                    np.array_equal(st["target"]["R"], s["R"]):
                return
            R, p = servo.encode(s["R"], s["p"], case["wire"])
            st["target"] = dict(s, R2=R, p2=p)
            st["budget"] = st["sure"] = None

        def on_crash(c):
            st["budget"] = st["sure"] = None
            if c["mode"] == "zero":
                st["q"] = np.zeros(n)
            elif c["mode"] in ("saved", "cold"):
                st["q"] = st["saved"].copy()

        def call(c, final=False):
            s = st["target"]
            if s is None:
                return
            k = c["k"]
            q = st["q"]
            ang, pos = models.pose_err(*(models.fk(d, q) + (s["R2"], s["p2"])))
            e0 = max(ang, pos)
            near = False
            if s["q"] is not None:
                sg = sig(d, s["q"])
                near = sg > NEAR and dist(d, q, s["q"]) < sg and dist(d, q, s["q"]) < 0.5
            what = "call %d (%d steps) at %.3f s from %s towards target %d (%s)" % (
                st["ncall"], k, link.des.seconds, np.array2string(q, precision=6), s["i"], s["kind"])
            st["ncall"] += 1
            a = q.copy()
            if case["arg"] == "list":
                a = a.tolist()
            elif case["arg"] == "tuple":
                a = tuple(a.tolist())
            elif case["arg"] == "ro":
                a.flags.writeable = False
            kw = {}
            if case["gain"] is not None:
                kw["Kp"] = case["gain"] * np.eye(3)
                kw["KR"] = case["gain"] * np.eye(3)
            if case["tol"] is not None:
                kw["tol"] = case["tol"]
            jac = [0]
            inj = c.get("inject")
            so = None
            try:
                with np.errstate(all="ignore"):
                    if inj or case["traced"]:
                        def hook(t, code, offset):
                            if code.co_name == "robotjacobian" and offset == 0:
                                jac[0] += 1
                        so = Solo(step_cap=(k + 3) * PER_STEP, step_hook=hook, inject=[inj[1], INJ[inj[0]]] if inj else None)
                        l2 = slow if inj else lb
                        with _lib.Active(l2):
                            T = l2.rox.Transform(s["R2"].copy(), s["p2"].copy())
                            rob = robot if l2 is lb else robot2
                            out = so.run(lambda: l2.rox.iterative_invkin(rob, T, a, max_steps=k, **kw))
                    else:
                        T = rox.Transform(s["R2"].copy(), s["p2"].copy())
                        with count.limit(jac, 3 * k + 100):
                            out = rox.iterative_invkin(robot, T, a, max_steps=k, **kw)
            except SimHang as e:
                raise Violation("does-not-end", "%s: %s" % (what, e))
            except BaseException as e:
                if so is not None and so.fired:
                    r.count("fault:" + inj[0])
                    r.ev(st["ncall"], s["i"], "aborted")
                    return
                raise Violation("exception", "%s: raised %r" % (what, e))
            if jac[0] > k + 1:
                raise Violation("too-many-steps", "%s: evaluated the Jacobian %d times" % (what, jac[0]))
            conv, qs = out
            if not isinstance(qs, (list, tuple)) or len(qs) != 1 or np.shape(qs[0]) != (n,):
                raise Violation("wrong-shape", "%s: returned %r" % (what, qs))
            g = np.array(qs[0], float)
            if not np.all(np.isfinite(g)):
                raise Violation("not-finite", "%s: returned %s" % (what, g))
            if k == 0 and not np.allclose(g, q, rtol=1e-12, atol=1e-12):
                raise Violation("too-many-steps", "%s: moved by %s with no step allowed" % (what, g - q))
            ang, pos = models.pose_err(*(models.fk(d, g) + (s["R2"], s["p2"])))
            big = float(np.max(np.abs(g))) if n else 0.0
            if conv:
                if math.sin(ang / 2) > math.sqrt(3) * tol + 1e-9 * (1 + big) or pos > math.sqrt(3) * tol + 1e-9 * (servo.scale(d) + big):
                    raise Violation("lies", "%s: reported convergence at %s, which is off by %.3g rad and %.3g m (tolerance %g)" % (
                        what, np.array2string(g, precision=6), ang, pos, tol))
            if 1 < k <= 10 and not conv and not inj and not case["traced"] and st["ncall"] % 2 == 0:
                # the same steps one by one lead to the same place
                b, tame = q.copy(), True
                for _ in range(k):
                    ea, ep = models.pose_err(*(models.fk(d, b) + (s["R2"], s["p2"])))
                    tame = tame and max(ea, ep / servo.scale(d)) * (case["gain"] or 0.3) < 2 * sig(d, b) and sig(d, b) > NEAR / 4
                    if not tame:
                        break
                    with np.errstate(all="ignore"), count.limit([0], 100):
                        c1, q1 = rox.iterative_invkin(robot, rox.Transform(s["R2"].copy(), s["p2"].copy()), b.copy(), max_steps=1, **kw)
                    b = np.array(q1[0], float)
                    tame = tame and not c1 and b.shape == (n,) and bool(np.all(np.isfinite(b)))
                if tame and sig(d, b) > NEAR / 4:
                    v = b - g
                    for i, t in enumerate(d["joint_type"]):
                        if t == 0:
                            v[i] = math.remainder(v[i], 2 * math.pi)
                    r.count("calls repeated step by step")
                    if float(np.max(np.abs(v))) > 1e-6 * (1 + big):
                        raise Violation("too-many-steps", "%s: got to %s, the same number of single steps gets to %s" % (
                            what, np.array2string(g, precision=8), np.array2string(b, precision=8)))
            # progress
            key = "far"
            if near or st["budget"] is not None:
                key = "near"
                if st["budget"] is None:
                    gain = case["gain"] or 0.3
                    f = 1.0 - min(gain / 2.0, 0.5)
                    st["budget"] = 2 * math.log(max(e0, tol) / tol) / -math.log(f) + 40
                    st["calls"] = 0
                    st["left"] = st["budget"]
                st["left"] -= k
                st["calls"] += 1
                if conv:
                    if st["calls"] > 1:
                        done["multi"] += 1
                        if sum(v for x, v in r.stats.items() if x.startswith("fault:")):
                            st["faults"] += 1
                    st["left"] = st["budget"]
                    st["calls"] = 0
                elif st["left"] < 0:
                    raise Violation("no-progress", "%s: %d calls with %.0f steps towards the same target near by did not converge; "
                                    "%.3g rad and %.3g m are left (%.3g when it came near)" % (
                                        what, st["calls"], st["budget"] - st["left"], ang, pos, e0))
            if st["sure"] is not None and k >= 2 and not conv:
                raise Violation("convergence-lost", "%s: not converged, though the call before it had converged to the same target" % what)
            st["sure"] = True if conv else st["sure"] if k < 2 else None
            r.ev(st["ncall"], s["i"], bool(conv), np.round(g, 8).tolist() if big < 1e6 else "big")
            r.keys.add("%d/%d/%s/%d/%s/%s" % (n, sum(d["joint_type"]), s["kind"], k, bool(conv), key))
            st["q"] = g
            if st["ncall"] % 5 == 0 and big < 20:
                st["saved"] = g.copy()

        link.on_target, link.on_crash = on_target, on_crash
        calls = list(case["calls"])

        def tick(j):
            if link.des.now >= link.down_until and j < len(calls):
                call(calls[j])
            if j + 1 < len(calls):
                link.des.after(case["tick"] * MS, tick, j + 1)
        link.des.after(3 * MS, tick, 0)
        link.run()
        # the faults are over: a target near by, held still
        f = case["final"]
        q = np.array(f["q"])
        sg = sig(d, q)
        if sg > NEAR:
            R, p = models.fk(d, q)
            st["q"] = q + np.array([x * (servo.scale(d) if t == 1 else 1.0) for x, t in zip(f["dir"], d["joint_type"])]) * f["f"] * min(sg, 0.5)
            st["sure"] = st["budget"] = st["target"] = None
            on_target({"i": -1, "kind": "final", "q": q, "R": R, "p": p})
            k = max(1, f["k"])
            for _ in range(2000):
                call({"k": k})
                if st["sure"]:
                    break
            call({"k": 2})
        r.nontrivial = done["multi"] > 0 and st["faults"] > 0


def describe(case, run):
    return {"joints": case["robot"]["joint_type"], "segments": [s["k"] for s in case["segs"]],
            "steps per call": sorted(set(c["k"] for c in case["calls"])), "crashes": [c["mode"] for c in case["crashes"]]}
