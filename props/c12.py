"""C12: closed-form inverse kinematics in a control loop over an unreliable link."""
import math

import numpy as np

from sim import gens, lib as _lib, models, servo, world
from sim.engine import Violation

ID = "C12"
RUNS = {"quick": 1600, "thorough": 60000}
RULE = ("One run: a leader arm moves through 20-90 joint configurations (wrist and elbow singularities, holds, teleports, "
        "excursions out of reach) and streams its poses as matrices, quaternions or float32 over a link with loss, bursts, duplication, "
        "delay and reordering; a follower solves each pose that arrives with its current joints as last joints, moves all or "
        "part of the way, and restarts cold, from saved or from zero joints. Non-trivial: at least five solutions were "
        "compared with the leader's configuration and a fault happened before one of them.")
MEASURE = "distinct (robot family, kind of target, kind of last joints, distance class, conditioning, number of solutions) combinations"
REAL = ["general_robotics_toolbox core and invkin", "numpy"]
STUBS = ["link", "clock", "follower drive"]
ASSUMPTIONS = ["completeness is judged where the reference Jacobian's smallest singular value (lengths scaled) exceeds 0.01 and "
               "joints are 1e-3 or more inside their limits",
               "at wrist singularities only soundness and absence of exceptions are judged (and a solution when there are no limits)"]
SHRINK = lambda c: [["crashes"], ["segs"]]
TOL = {"mat": 1e-6, "quat": 1e-6, "f32": 1e-4}
WELL = 0.01


def gen(rng, i, tier):
    k = rng.choice(["named_s", "sph", "sph", "named_u", "ur"])
    if k == "named_s":
        d = gens.with_aux(rng, gens.exact(gens.named(rng.choice(gens.SPHERICAL))), 0.3)
    elif k == "sph":
        d = gens.with_aux(rng, gens.rnd_spherical(rng), 0.3)
    elif k == "named_u":
        d = gens.with_aux(rng, gens.exact(gens.named(rng.choice(gens.UR))), 0.3)
    else:
        d = gens.with_aux(rng, gens.rnd_ur(rng), 0.3)
    if rng.random() < 0.12 and d["joint_lower_limit"] is not None:
        d["joint_lower_limit"] = d["joint_upper_limit"] = None
    if rng.random() < 0.15 and d["joint_lower_limit"] is not None:
        # joints that can turn several times
        for j in rng.sample(range(6), rng.randrange(1, 4)):
            w = rng.choice([7.0, 10.0, 14.0])
            d["joint_lower_limit"][j] = -w * rng.choice([1.0, 0.3])
            d["joint_upper_limit"][j] = w
    if rng.random() < 0.25 and d["joint_lower_limit"] is not None:
        # joints that turn less than once, not about their zero
        for j in rng.sample(range(6), rng.randrange(1, 6)):
            c, w = rng.choice([0.0, rng.uniform(-2, 2), rng.uniform(-4, 4)]), rng.uniform(0.8, 2.9)
            d["joint_lower_limit"][j] = round(c - w, 4)
            d["joint_upper_limit"][j] = round(c + w, 4)
    n = rng.choice([20, 40, 90])
    segs = servo.gen_segments(rng, d, n)
    n = len(servo.samples(d, segs))
    return {"slow": rng.choice([0.0, 0.0, 0.0, 1e-3, 0.3, 20.0]), "robot": d, "fam": "ur" if k in ("named_u", "ur") else "sph", "segs": segs, "link": servo.gen_link(rng, n),
            "crashes": servo.gen_crashes(rng, n), "policy": rng.choice(["newest", "any"]),
            "wire": rng.choice(["mat", "mat", "quat", "f32"]), "gain": rng.choice([1.0, 1.0, 1.0, 0.6, 0.25]),
            "last": rng.choice(["array", "array", "list", "tuple", "col0", "ro"]), "equiv": rng.random() < 0.2,
            "start": rng.choice(["cold", "cold", "leader", "zero"]), "lay": rng.choice(["C", "C", "F", "ro", "view"])}


def wrist_only(d, q):
    """the only defect of the configuration is the wrist: positions of the wrist centre are well-conditioned (spherical wrist)"""
    J = models.jac(d, q)
    # velocity of the wrist centre due to the first three joints
    H, P = np.asarray(d["H"], float), np.asarray(d["P"], float)
    d3 = dict(d, H=H[:, :3].tolist(), P=np.column_stack((P[:, :3], P[:, 3] + P[:, 4])).tolist(), joint_type=d["joint_type"][:3],
              T_flange=None, R_tool=None, p_tool=None)
    J = models.jac(d3, q[:3])[3:] / servo.scale(d)
    return float(np.linalg.svd(J, compute_uv=False)[-1]) > WELL


def run(case, r):
    lb = _lib.fresh("plain")
    d = case["robot"]
    world.clock.rate = case.get("slow", 0.0)
    if world.clock.rate:
        r.count("fault:slow machine")
    tol = TOL[case["wire"]]
    sc = servo.scale(d)
    with _lib.Active(lb):
        rox = lb.rox
        robot = gens.mk_robot(rox, d, case["lay"])
        solver = rox.ur_invkin if case["fam"] == "ur" else rox.robot6_sphericalwrist_invkin
        link = servo.Link(case, d, r)
        st = {"q": None, "saved": None, "judged": 0, "faulty": 0, "f0": 0}
        if case["start"] == "leader" and link.samples:
            st["q"] = np.array(link.samples[0]["q"]) if link.samples[0]["q"] is not None else None
        elif case["start"] == "zero":
            st["q"] = np.zeros(6)

        def on_crash(c):
            if c["mode"] == "cold":
                st["q"] = None
            elif c["mode"] == "zero":
                st["q"] = np.zeros(6)
            elif c["mode"] == "saved":
                st["q"] = None if st["saved"] is None else st["saved"].copy()

        def on_target(s):
            R, p = servo.encode(s["R"], s["p"], case["wire"])
            last = st["q"]
            what = "target %d (%s) at %.3f s, last joints %s" % (
                s["i"], s["kind"], link.des.seconds, "none" if last is None else np.array2string(last, precision=6))
            if last is None:
                arg = None
            elif case["last"] == "list":
                arg = last.tolist()
            elif case["last"] == "tuple":
                arg = tuple(last.tolist())
            else:
                arg = last.copy()
                if case["last"] == "ro":
                    arg.flags.writeable = False
            try:
                sols = solver(robot, rox.Transform(R.copy(), p.copy()), arg) if arg is not None or s["i"] % 2 else \
                    solver(robot, rox.Transform(R.copy(), p.copy()))
            except Exception as e:
                raise Violation("exception", "%s: %s raised %r" % (what, solver.__name__, e))
            if not isinstance(sols, list):
                raise Violation("not-a-list", "%s: returned %r" % (what, type(sols)))
            sound(sols, R, p, what)
            ds = [] if last is None else [float(np.linalg.norm(x - last)) for x in sols]
            if any(b < a - 1e-9 for a, b in zip(ds, ds[1:])):
                raise Violation("not-sorted", "%s: distances from last joints %s" % (what, ds))
            if sols and last is not None:
                turns(sols[0], last, what)
            cond, cls = "-", "-"
            q = s["q"]
            if q is not None:
                ok = servo.sigma_min(d, q) > WELL
                if d["joint_lower_limit"] is not None:
                    lo, up = servo.limits(d)
                    ok_lim = bool(np.all(q > lo + 1e-3) and np.all(q < up - 1e-3))
                else:
                    ok_lim = True
                cond = "well" if ok else "singular"
                near = last is not None and float(np.max(np.abs(q - last))) < math.pi / 2 - 1e-3
                cls = "none" if last is None else "near" if near else "far"
                if ok and ok_lim:
                    if not sols:
                        raise Violation("not-solved", "%s: no solution although %s reaches it" % (what, np.array2string(q, precision=6)))
                    if near:
                        st["judged"] += 1
                        if sum(v for k, v in r.stats.items() if k.startswith("fault:")):
                            st["faulty"] += 1
                        g = float(np.linalg.norm(q - last))
                        if ds[0] > g + max(tol, 1e-6) * 10:
                            raise Violation("first-not-nearest", "%s: first solution %s is %.9g away, the leader's %s only %.9g" % (
                                what, np.array2string(sols[0], precision=6), ds[0], np.array2string(q, precision=6), g))
                    if last is None:
                        e = [np.remainder(x - q + math.pi, 2 * math.pi) - math.pi for x in sols]
                        e = min(float(np.max(np.abs(x))) for x in e)
                        if e > max(tol, 1e-6) * 100:
                            raise Violation("configuration-missing", "%s: none of the %d solutions is the leader's configuration %s "
                                            "up to full turns (nearest differs by %.3g)" % (what, len(sols), np.array2string(q, precision=6), e))
                elif not ok and ok_lim and d["joint_lower_limit"] is None and case["fam"] == "sph" and not sols and wrist_only(d, q):
                    raise Violation("not-solved", "%s: no solution at a wrist singularity although there are no limits and %s reaches it" % (
                        what, np.array2string(q, precision=6)))
                if not ok and ok_lim and case["fam"] == "sph" and case["wire"] != "f32" and (near or last is None) and wrist_only(d, q) \
                        and (d["joint_lower_limit"] is None or bool(np.all((up - lo)[[3, 5]] > 2 * math.pi + 0.1))):
                    # joints 4 and 6 turn about one axis, and every angle of theirs is allowed: the arm and joint 5 are determined
                    r.count("wrist singularities judged")
                    e = [np.abs(np.remainder(x - q + math.pi, 2 * math.pi) - math.pi) for x in sols]
                    if not any(np.all(x[:3] < 1e-4) and x[4] < 1e-4 for x in e):
                        raise Violation("configuration-missing", "%s: at a wrist singularity none of the %d solutions has the arm of the leader's "
                                        "configuration %s" % (what, len(sols), np.array2string(q, precision=6)))
                if not ok:
                    r.count("fault:singular target")
            else:
                r.count("fault:excursion")
            if case["equiv"] and sols and d["joint_lower_limit"] is not None:
                try:
                    eq = rox.equivalent_configurations(robot, [x.copy() for x in sols], arg)
                except Exception as e:
                    raise Violation("exception", "%s: equivalent_configurations raised %r" % (what, e))
                sound(eq, R, p, what + ", equivalent configurations")
                ds = [] if last is None else [float(np.linalg.norm(x - last)) for x in eq]
                if any(b < a - 1e-9 for a, b in zip(ds, ds[1:])):
                    raise Violation("not-sorted", "%s: equivalent configurations' distances from last joints %s" % (what, ds))
            r.ev(s["i"], s["kind"], len(sols), [np.round(x, 9).tolist() for x in sols[:2]])
            r.keys.add("%s/%s/%s/%s/%s/%d" % (case["fam"], s["kind"], cls, cond, case["wire"], len(sols)))
            if sols:
                g = np.asarray(sols[0], float)
                if last is None:
                    st["q"] = g.copy()
                else:
                    st["q"] = last + case["gain"] * (g - last)
                if st["saved"] is None or s["i"] % 7 == 0:
                    st["saved"] = st["q"].copy()

        def turns(x, last, what):
            """the first solution is documented to be the nearest to the last joints: no joint of it gets nearer by full turns"""
            lo, up = servo.limits(d) if d["joint_lower_limit"] is not None else (np.full(6, -1e9), np.full(6, 1e9))
            for j in range(6):
                for k in (-2, -1, 1, 2):
                    y = x[j] + 2 * math.pi * k
                    if lo[j] + 1e-6 < y < up[j] - 1e-6 and abs(y - last[j]) < abs(x[j] - last[j]) - 1e-6:
                        raise Violation("turn-not-nearest", "%s: joint %d of the first solution is at %.6g, %.6g is allowed too and "
                                        "nearer to %.6g" % (what, j + 1, x[j], y, last[j]))

        def sound(sols, R, p, what):
            for n, x in enumerate(sols):
                x = np.asarray(x, float)
                if x.shape != (6,) or not np.all(np.isfinite(x)):
                    raise Violation("not-finite", "%s: solution %d is %s" % (what, n, x))
                if d["joint_lower_limit"] is not None:
                    lo, up = servo.limits(d)
                    bad = np.nonzero((x < lo - 1e-9) | (x > up + 1e-9))[0]
                    if len(bad):
                        raise Violation("outside-limits", "%s: solution %d has joint %d at %.9g, limits %.9g to %.9g" % (
                            what, n, bad[0] + 1, x[bad[0]], lo[bad[0]], up[bad[0]]))
                Ra, pa = models.fk(d, x)
                ea, ep = models.pose_err(Ra, pa, R, p)
                if ea > 1e-5 or ep > 1e-5 * max(sc, 1.0):
                    raise Violation("does-not-reproduce", "%s: solution %d %s is off by %.3g rad and %.3g m" % (
                        what, n, np.array2string(x, precision=6), ea, ep))
        link.on_target, link.on_crash = on_target, on_crash
        link.run()
        r.nontrivial = st["judged"] >= 5 and st["faulty"] > 0


def describe(case, run):
    return {"robot": case["fam"], "wire": case["wire"], "segments": [s["k"] for s in case["segs"]],
            "lost": sum(1 for v in case["link"].values() if not v), "crashes": [c["mode"] for c in case["crashes"]]}
