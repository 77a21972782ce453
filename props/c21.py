"""C21: frames, motions and forces agree along every path through a distributed cell."""
import math

import numpy as np

from sim import gens, lib as _lib, models, rosnet, rosstub, servo, values, world
from sim.engine import Violation

ID = "C21"
MS = rosnet.MS
RUNS = {"quick": 1600, "thorough": 60000}
RULE = ("One run: 2-6 publisher nodes compute where their frame is (directly, as products, inverses, relative poses, pose messages or "
        "forward kinematics of a moving robot) and send it as stamped messages over a network with loss, duplication, delay, "
        "reordering, partitions, crashes with restart, clock jumps and reparenting; 1-3 consumer nodes look frames up at a stamp, compose "
        "them along several paths and groupings, invert, compare, carry twists and wrenches from frame to frame and pass their results on; "
        "robots report motions by their Jacobian, and glitches in joint readings. Non-trivial: a composed path was compared with a direct lookup.")
MEASURE = "distinct (operation, ways the frames on the path were computed, kind of stamp, outcome) combinations"
REAL = ["general_robotics_toolbox core, ros_msg and ros_tf", "numpy"]
STUBS = ["tf, tf2_ros, rospy, geometry_msgs (tf2 buffer semantics)", "network", "clock"]
ASSUMPTIONS = ["the tf stub answers as tf does"]
SHRINK = lambda c: [["ops"], ["sys", "faults"], ["sys", "edges"]]
WAYS = ["direct", "inverse", "product", "three", "relative", "pose", "unlabelled", "again", "mirror"]


def setup():
    rosstub.install()


def gen(rng, i, tier):
    end = rng.choice([1000, 2000, 4000])
    nl = rng.choice([1, 1, 2, 3])
    sys = rosnet.gen_system(rng, nl, end)
    robots = 0
    for e in sys["edges"]:
        e["way"] = rng.choice(WAYS)
        e["aux"] = gens.rnd_tf(rng, 2.0)
        e["aux2"] = gens.rnd_tf(rng, 2.0)
        if robots < 2 and rng.random() < 0.4:
            mob = rng.random() < 0.2
            d = gens.exact(gens.with_aux(rng, gens.rnd_chain(rng, rng.randrange(1, 5)), 0.5) if mob else gens.rnd_robot(rng))
            mob = mobile(rng, d) if mob else None
            robots += 1
            q = gens.rnd_joints(rng, d, 0.1)
            if mob:
                q[mob[0]:mob[0] + 3] = [rng.uniform(-3, 3) for _ in range(3)]
            amp = []
            for j in range(len(q)):
                if d["joint_lower_limit"] is not None:
                    amp.append(0.9 * min(q[j] - d["joint_lower_limit"][j], d["joint_upper_limit"][j] - q[j]))
                else:
                    amp.append(rng.uniform(0, 0.5))
            e.update(way="robot", robot=d, mob=mob, q0=q, amp=amp, om=[rng.uniform(-3, 3) for _ in q], ph=[rng.uniform(-3, 3) for _ in q],
                     glitch=rng.choice([0, 0.1, 0.3]), layout=rng.choice(["C", "F", "view", "list", "col"]))
    ops = []
    for _ in range(rng.randrange(6, 30)):
        ops.append({"t": rng.randrange(end // 8, end * 11 // 10), "l": rng.randrange(nl), "stamp": rosnet.gen_time(rng) if rng.random() < 0.3 else {"k": "now", "d": -rng.randrange(20, 500)},
                    "f": rng.choice(["path", "path", "group", "inverse", "relative", "relay", "relay", "carry", "compare", "motion"]),
                    "pick": [rng.randrange(100) for _ in range(4)], "to": rng.randrange(nl), "enc": rng.choice(["pose", "tf"]),
                    "dt": int(rng.expovariate(1.0) * rng.choice([1, 50, 400]) * MS), "n": rng.choice([1, 1, 2, 0]),
                    "six": [rng.uniform(-3, 3) for _ in range(6)], "off": gens.rnd_tf(rng, 1.0)})
    return {"sys": sys, "nl": nl, "ops": sorted(ops, key=lambda o: o["t"])}


def mobile(rng, d):
    """puts a platform that drives ahead and turns (joint types 3, 3, 2) into the chain d: [where, speed, turning rate]"""
    n = len(d["joint_type"])
    k = rng.choice([0, 0, rng.randrange(n + 1)])
    R = np.array(gens.rnd_R(rng)) if rng.random() < 0.5 else np.eye(3)
    for j in range(3):
        for row, x in zip(d["H"], R[:, j]):
            row.insert(k + j, float(x))
        for row in d["P"]:
            row.insert(k + 1 + j, rng.uniform(-0.5, 0.5) if rng.random() < 0.5 else 0.0)
        d["joint_type"].insert(k + j, [3, 3, 2][j])
        for f, x in (("joint_lower_limit", -1e3), ("joint_upper_limit", 1e3)):
            if d[f] is not None:
                d[f].insert(k + j, x)
    for f in d:
        if f not in ("H", "P", "joint_type", "joint_lower_limit", "joint_upper_limit") and isinstance(d[f], list) and len(d[f]) == n:
            d[f] = None
    return [k, rng.choice([0.0, rng.uniform(-2, 2)]), rng.choice([-1, 1]) * rng.uniform(0.2, 3)]


def joint_arg(q, layout):
    """a joint vector as callers hand it over: N x 1 is documented"""
    return np.reshape(q, (-1, 1)) if layout == "col" else gens.arr(q, layout)


def hom(p, q):
    return models.hom({"R": models.quat_R(q), "p": p})


def inv(T):
    out = np.eye(4)
    out[:3, :3] = T[:3, :3].T
    out[:3, 3] = -T[:3, :3].T.dot(T[:3, 3])
    return out


class Cell(rosnet.System):
    def __init__(self, spec, r):
        rosnet.System.__init__(self, spec, r)
        self.nodes = [_lib.fresh("plain") for _ in spec["edges"]]
        self.robots = [None] * len(self.nodes)
        self.kept = [None] * len(self.nodes)
        self.msgs = {}
        self.up = [True] * len(self.nodes)

    def joints(self, i, t):
        e = self.spec["edges"][i]
        s = (t - self.t0) / 1e9
        q = [a + b * math.sin(o * s + f) for a, b, o, f in zip(e["q0"], e["amp"], e["om"], e["ph"])]
        qd = [b * o * math.cos(o * s + f) for b, o, f in zip(e["amp"], e["om"], e["ph"])]
        if e["mob"]:                        # along a circle
            k, v, w = e["mob"]
            a = e["q0"][k + 2]
            b = a + w * s
            q[k:k + 3] = [e["q0"][k] + v / w * (math.sin(b) - math.sin(a)), e["q0"][k + 1] - v / w * (math.cos(b) - math.cos(a)), b]
            qd[k:k + 3] = [v * math.cos(b), v * math.sin(b), w]
        return np.array(q), np.array(qd)

    def rates(self, i, t):
        """what the columns of the Jacobian stand for"""
        u = list(self.joints(i, t)[1])
        if self.spec["edges"][i]["mob"]:
            k, v, w = self.spec["edges"][i]["mob"]
            u[k:k + 3] = [v, w]
        return np.array(u)

    def pose(self, i, t):
        e = self.spec["edges"][i]
        if "robot" not in e:
            return rosnet.System.pose(self, i, t)
        R, p = models.fk(e["robot"], self.joints(i, t)[0])
        return [float(x) for x in p], [float(x) for x in servo.R_to_quat(R)]

    def _publish(self, i):
        if i in self.down:
            self.up[i] = False
        elif not self.up[i]:                # the node is back, without a past
            self.nodes[i], self.robots[i], self.kept[i], self.up[i] = _lib.fresh("plain"), None, None, True
            self.count("fault:node restart")
        n = self.seq[i]
        p, q = self.pose(i, self.des.now)
        rosnet.System._publish(self, i)
        if self.seq[i] != n:
            lb = self.nodes[i]
            with _lib.Active(lb), np.errstate(all="warn"):
                try:
                    T = self.compute(lb, i, p, models.quat_R(q))
                    msg = lb.ros_msg.transform2transform_stamped_msg(T)
                except Violation:
                    raise
                except Exception as x:
                    raise Violation("fails", "computing frame %r (%s) raised %r" % (self.spec["edges"][i]["child"],
                                                                                 self.spec["edges"][i]["way"], x))
            msg.header.stamp = rosstub.Time.from_ns(self.des.now + self.skew[i])
            self.msgs[i, self.seq[i]] = msg.serialize()

    def robot(self, lb, i):
        if self.robots[i] is None:
            e = self.spec["edges"][i]
            self.robots[i] = gens.mk_robot(lb.rox, e["robot"], e["layout"] if e["layout"] in ("C", "F", "view") else "C")
        return self.robots[i]

    def compute(self, lb, i, p, R):
        """the frame as its publisher gets at it"""
        e = self.spec["edges"][i]
        T, par, chi, way = lb.rox.Transform, self.parent[i], e["child"], e["way"]
        A, B = models.hom(e["aux"]), models.hom(e["aux2"])
        W = models.hom({"R": R, "p": p})

        def mk(M, a=None, b=None):
            return T(M[:3, :3], M[:3, 3], a, b)
        if way == "robot":
            rb = self.robot(lb, i)
            q, _ = self.joints(i, self.des.now)
            g = rosnet._h(self.spec["net"]["seed"], i, self.seq[i], 77)
            if g.random() < e["glitch"] and e["robot"]["joint_lower_limit"] is not None:
                b = q.copy()
                j = g.randrange(len(b))
                b[j] = g.choice([e["robot"]["joint_upper_limit"][j] + g.choice([1e-3, 1.0, 50.0]),
                                 e["robot"]["joint_lower_limit"][j] - g.choice([1e-3, 1.0, 50.0]), float("nan")])
                self.count("fault:joint reading out of range")
                for f in ("fwdkin", "robotjacobian"):
                    try:
                        x = getattr(lb.rox, f)(rb, joint_arg(b, e["layout"]))
                    except Exception:
                        continue
                    raise Violation("out-of-range", "%s of joints %s outside %s .. %s returned %s" % (
                        f, b.tolist(), e["robot"]["joint_lower_limit"], e["robot"]["joint_upper_limit"], values.brief(values.canon(x))))
            x = lb.rox.fwdkin(rb, joint_arg(q, e["layout"]))
            return T(x.R, x.p, par, chi)
        if way == "inverse":
            return mk(inv(W), chi, par).inv()
        if way == "product":
            return mk(A, par, "mount") * mk(inv(A).dot(W), "mount", chi)
        if way == "three":
            return mk(A, par, "a") * mk(B, "a", "b") * mk(inv(A.dot(B)).dot(W), "b", chi)
        if way == "relative":       # both seen from somewhere else
            return mk(A, "eye", par).inv() * mk(A.dot(W), "eye", chi)
        if way == "pose":           # had it from a pose message
            x = lb.ros_msg.msg2transform(lb.ros_msg.transform2pose_stamped_msg(mk(W, par, chi)))
            if (x.parent_frame_id, x.child_frame_id or None) != (par, None):
                raise Violation("labels", "a pose in %r came back as %r / %r" % (par, x.parent_frame_id, x.child_frame_id))
            return T(x.R, x.p, x.parent_frame_id, chi)
        if way == "unlabelled":
            g = rosnet._h(self.spec["net"]["seed"], i, self.seq[i], 78)
            n = [g.choice([None, None, "x", "y"]) for _ in range(4)]
            x = mk(A, n[0], n[1]) * mk(inv(A).dot(W), n[2], n[3])
            y = x.inv()
            if (x.parent_frame_id, x.child_frame_id, y.parent_frame_id, y.child_frame_id) != (n[0], n[3], n[3], n[0]):
                raise Violation("labels", "product of transforms labelled %r / %r and %r / %r is labelled %r / %r, its inverse %r / %r" % (
                    tuple(n) + (x.parent_frame_id, x.child_frame_id, y.parent_frame_id, y.child_frame_id)))
            x.parent_frame_id, x.child_frame_id = par, chi
            return x
        if way == "mirror":         # keeps where the other frame is, and turns that round
            x = self.kept[i]
            if x is None:
                x = self.kept[i] = mk(inv(W), chi, par)
            V = inv(W)
            x.R[...], x.p[...], x.child_frame_id = V[:3, :3], V[:3, 3], par
            return x.inv()
        if way == "again" and self.kept[i] is not None:     # one transform for ever
            x = self.kept[i]
            x.R[...], x.p[...], x.parent_frame_id = W[:3, :3], W[:3, 3], par
            return x
        self.kept[i] = mk(W, par, chi)
        return self.kept[i]

    def _deliver(self, l, i, parent, stamp, p, q, seq):
        if l in self.stalled:
            self.held.append((l, i, parent, stamp, p, q, seq))
            return
        e = self.spec["edges"][i]
        m = rosstub.TransformStamped.deserialize(self.msgs[i, seq])
        got = m.header.frame_id, m.child_frame_id
        if got != (parent, e["child"]):
            raise Violation("labels", "frame %r in %r (computed as %s) was published as %r in %r" % (e["child"], parent, e["way"], got[1], got[0]))
        t, o = m.transform.translation, m.transform.rotation
        t, o = (t.x, t.y, t.z), (o.w, o.x, o.y, o.z)
        why = differs(hom(t, o), hom(p, q))
        if why or not abs(sum(x * x for x in o) - 1) < 1e-8:
            raise Violation("published-differs", "frame %r in %r (computed as %s) was published at %s %s: %s" % (
                e["child"], parent, e["way"], t, o, why or "not a unit quaternion"))
        self.stubs[l].buf.set(parent, e["child"], stamp, t, o)
        self.models[l].set(parent, e["child"], stamp, p, q)
        self.count("messages delivered")


def differs(G, W, tol=3e-8):
    """None, or how the pose G differs from W"""
    if not np.all(np.isfinite(G)):
        return "not finite"
    dr, dp = np.abs(G[:3, :3] - W[:3, :3]).max(), np.abs(G[:3, 3] - W[:3, 3]).max()
    if dr <= tol and dp <= tol * (1 + np.abs(W[:3, 3]).max()):
        return None
    return "p %s R %s instead of p %s R %s" % (G[:3, 3].tolist(), values.brief(G[:3, :3].tolist()), W[:3, 3].tolist(),
                                               values.brief(W[:3, :3].tolist()))


def run(case, r):
    s = Cell(case["sys"], r)
    rosstub.set_kernel(s)
    try:
        _run(case, r, s)
    finally:
        rosstub.set_kernel(rosstub.Kernel())
        r.simtime = s.des.seconds


def _run(case, r, s):
    lbs = [_lib.fresh("plain") for _ in range(case["nl"])]
    world.clock.sleep_hook = lambda dt: s.sleep_ns(int(dt * 1e9))
    tls = []
    for lb in lbs:
        with _lib.Active(lb):
            tls.append(lb.ros_tf.TransformListener())
    used = sorted({e["child"] for e in case["sys"]["edges"]} | {e["parent"] for e in case["sys"]["edges"]})
    ways = {e["child"]: e["way"] for e in case["sys"]["edges"]}

    def where(oi):
        return "operation %d at %.3f s: " % (oi, s.des.seconds)

    def check(oi, what, T, want, a, b, tol=3e-8):
        if type(T).__name__ != "Transform":
            raise Violation("wrong-pose", where(oi) + "%s is %r" % (what, T))
        G = np.eye(4)
        try:
            G[:3, :3], G[:3, 3] = T.R, np.asarray(T.p).reshape(3)
        except Exception:
            raise Violation("wrong-pose", where(oi) + "%s has shapes %s %s" % (what, np.shape(T.R), np.shape(T.p)))
        why = differs(G, want, tol)
        if why:
            raise Violation("wrong-pose", where(oi) + "%s is %s" % (what, why))
        if (T.parent_frame_id, T.child_frame_id) != (a, b):
            raise Violation("labels", where(oi) + "%s is labelled parent %r child %r instead of %r and %r" % (
                what, T.parent_frame_id, T.child_frame_id, a, b))

    def relayed(oi, n, data, want, a, b):
        """what one node found, at another one"""
        o = case["ops"][oi]
        lb = lbs[o["to"]]
        cls = rosstub.PoseStamped if o["enc"] == "pose" else rosstub.TransformStamped
        off = o["off"]
        with _lib.Active(lb):
            T = lb.ros_msg.msg2transform(cls.deserialize(data))
            check(oi, "the %s that arrived" % o["enc"], T, want, a, b if o["enc"] == "tf" else None)
            G = T * lb.rox.Transform(np.array(off["R"]), np.array(off["p"]), b, "grasp")
            check(oi, "the grasp", G, want.dot(models.hom(off)), a, "grasp")
            check(oi, "the way back", G.inv() * T, inv(models.hom(off)), "grasp", b if o["enc"] == "tf" else None)
        r.count("results passed on")
        r.ev("relayed", oi, n)

    def twist_at(oi, i, t, data):
        """a robot's motion, as another node receives it"""
        o = case["ops"][oi]
        lb = lbs[o["to"]]
        e = case["sys"]["edges"][i]
        with _lib.Active(lb):
            v = np.asarray(lb.ros_msg.msg2twist(rosstub.Twist.deserialize(data)), dtype=float)
        q, qd = s.joints(i, t)
        want = models.jac(e["robot"], q).dot(qd)
        if v.shape != (6,) or not np.abs(v - want).max() <= 1e-7 * (1 + np.abs(want).max()):
            raise Violation("motion", where(oi) + "the robot at joints %s with rates %s is said to move at %s instead of %s" % (
                q.tolist(), qd.tolist(), v.tolist(), want.tolist()))
        # the poses around that instant say the same
        h = 20000
        p0, q0 = s.pose(i, t - h)
        p1, q1 = s.pose(i, t + h)
        R0, R1 = models.quat_R(q0), models.quat_R(q1)
        D = (R1 - R0).dot(models.quat_R(s.pose(i, t)[1]).T) / (2e-9 * h)
        num = np.array([D[2, 1] - D[1, 2], D[0, 2] - D[2, 0], D[1, 0] - D[0, 1]]) / 2
        num = np.concatenate((num, (np.array(p1) - np.array(p0)) / (2e-9 * h)))
        if np.abs(v - num).max() > 1e-3 * (1 + np.abs(num).max()):
            raise Violation("motion", where(oi) + "twist %s, but the poses move at %s" % (v.tolist(), num.tolist()))
        r.count("motions received")

    def op(oi):
        o = case["ops"][oi]
        l = o["l"]
        tl, lb = tls[l], lbs[l]
        if o["f"] == "motion":
            c = [i for i, e in enumerate(case["sys"]["edges"]) if e["way"] == "robot" and i not in s.down]
            if not c:
                return
            i = c[o["pick"][0] % len(c)]
            q, qd = s.joints(i, s.des.now)
            n = s.nodes[i]
            u = s.rates(i, s.des.now)
            if len(u) != len(q):
                r.count("motions of mobile platforms")
            with _lib.Active(n):
                try:
                    J = n.rox.robotjacobian(s.robot(n, i), joint_arg(q, case["sys"]["edges"][i]["layout"]))
                    data = n.ros_msg.twist2msg(np.asarray(J).dot(u)).serialize()
                except Exception as x:
                    raise Violation("fails", where(oi) + "the Jacobian at %s raised %r" % (q.tolist(), x))
            for _ in range(o["n"]):
                s.des.after(o["dt"], twist_at, oi, i, s.des.now, data)
            # force at the tool and torque in the joints do the same work
            w = np.array(o["six"])
            P = float(np.dot(w, models.jac(case["sys"]["edges"][i]["robot"], q).dot(qd)))
            if abs(float(np.dot(np.asarray(J).T.dot(w), u)) - P) > 1e-7 * (1 + abs(P)):
                raise Violation("motion", where(oi) + "work at the joints differs from work at the tool")
            return
        t = rosnet.resolve_time(o["stamp"], s, l, used[o["pick"][0] % len(used)])
        if not t:
            t = s.des.now - 50 * MS
        f = [used[x % len(used)] for x in o["pick"]]
        bad = []

        def W(a, b):
            w = s.oracle(l, (a, t, b, 0, None))
            return hom(w[1], w[2]) if w[0] == "ok" else None

        def L(a, b):
            want = W(a, b)
            with _lib.Active(lb):
                try:
                    T = tl.lookupTransform(a, b, rosstub.Time.from_ns(t))
                except Exception as x:
                    if want is not None:
                        raise Violation("lookup", where(oi) + "%r in %r raised %r although it is known" % (b, a, x))
                    bad.append(1)
                    return None
            if want is None:
                raise Violation("lookup", where(oi) + "%r in %r was found although it is not known" % (b, a))
            check(oi, "the lookup of %r in %r" % (b, a), T, want, a, b)
            return T
        a, b, c, d = f
        kind = o["f"]
        if kind in ("path", "relay", "compare"):
            ab, bc, ac = L(a, b), L(b, c), L(a, c)
        elif kind == "group":
            ab, bc, cd, ad = L(a, b), L(b, c), L(c, d), L(a, d)
        elif kind == "inverse":
            ab, ba = L(a, b), L(b, a)
        elif kind == "relative":
            ca, cb, ab = L(c, a), L(c, b), L(a, b)
        else:
            ab = L(a, b)
        out = "refused" if bad else "ok"
        r.count("paths " + out)
        r.keys.add("%s/%s/%s/%s" % (kind, "+".join(sorted({ways.get(x, "root") for x in f[:3]})), o["stamp"]["k"], out))
        r.ev(oi, kind, t, out)
        if bad:
            return
        r.count("operations")
        with _lib.Active(lb):
            if kind == "path":
                check(oi, "%r in %r by way of %r" % (c, a, b), ab * bc, W(a, c), a, c)
                r.nontrivial = True
            elif kind == "group":
                check(oi, "(%r>%r>%r)>%r" % (a, b, c, d), (ab * bc) * cd, W(a, d), a, d)
                check(oi, "%r>(%r>%r>%r)" % (a, b, c, d), ab * (bc * cd), W(a, d), a, d)
                check(oi, "the same backwards", (ab * bc * cd).inv(), W(d, a), d, a)
                check(oi, "backwards one by one", cd.inv() * bc.inv() * ab.inv(), W(d, a), d, a)
                r.nontrivial = True
            elif kind == "inverse":
                check(oi, "%r in %r inverted" % (b, a), ab.inv(), W(b, a), b, a)
                check(oi, "there and back", ab * ba, np.eye(4), a, a)
                check(oi, "inverted twice", ab.inv().inv(), W(a, b), a, b)
            elif kind == "relative":
                check(oi, "%r in %r seen from %r" % (b, a, c), ca.inv() * cb, W(a, b), a, b)
                r.nontrivial = True
            elif kind == "compare":
                x = ab * bc
                eye = lb.rox.Transform(np.eye(3), np.zeros(3))
                e = [0.02, 1e-3, 2e-4][o["pick"][3] % 3]
                far = lb.rox.Transform(np.array(x.R), np.array(x.p) + [0, 0, e * (1 + np.abs(x.p).max())], a, c)
                turned = lb.rox.Transform(models.rodrigues([0, 1, 0], e).dot(x.R), np.array(x.p), a, c)
                for what, y, same in (("the direct lookup", ac, True), ("the product with the identity", x * eye, True),
                                      ("a pose %g away" % e, far, False), ("a pose turned by %g" % e, turned, False)):
                    d = float(np.abs(np.asarray(x.p) - np.asarray(y.p)).max()) if same else 0
                    if d < 1e-9 and (bool(x.isclose(y)) != same or bool(y.isclose(x, 1e-6)) != same):
                        raise Violation("compare", where(oi) + "isclose of a path and %s is not %s" % (what, same))
                    if not same and (bool(x == y) or not x != y):
                        raise Violation("compare", where(oi) + "a path equals %s" % what)
                z = lb.rox.Transform(np.array(x.R), np.array(x.p), a, c)
                if not x == z or x != z:
                    raise Violation("compare", where(oi) + "a transform differs from one made of its own values")
            elif kind == "carry":
                # a rigid body seen at two points, axes of a
                p = W(a, b)[:3, 3]
                G = np.asarray(lb.rox.screw_matrix(np.asarray(ab.p)), dtype=float)
                v = np.array(o["six"])
                there = G.T.dot(v)
                want = np.concatenate((v[:3], v[3:] + np.cross(v[:3], p)))
                if G.shape != (6, 6) or np.abs(there - want).max() > 1e-7 * (1 + np.abs(want).max()):
                    raise Violation("carry", where(oi) + "twist %s carried over %s is %s instead of %s" % (v.tolist(), p.tolist(), there.tolist(), want.tolist()))
                here = G.dot(v)
                want = np.concatenate((v[:3] + np.cross(p, v[3:]), v[3:]))
                if np.abs(here - want).max() > 1e-7 * (1 + np.abs(want).max()):
                    raise Violation("carry", where(oi) + "wrench %s carried over %s is %s instead of %s" % (v.tolist(), p.tolist(), here.tolist(), want.tolist()))
                r.count("twists and wrenches carried")
            elif kind == "relay":
                x = ab * bc
                try:
                    m = lb.ros_msg.transform2pose_stamped_msg(x) if o["enc"] == "pose" else lb.ros_msg.transform2transform_stamped_msg(x)
                    data = m.serialize()
                except Exception as e:
                    raise Violation("fails", where(oi) + "passing a result on raised %r" % e)
                for n in range(o["n"]):
                    s.des.after(o["dt"] * (n + 1), relayed, oi, n, data, W(a, c), a, c)
                if not o["n"]:
                    r.count("fault:result lost")
                if o["n"] > 1:
                    r.count("fault:result repeated")
                r.nontrivial = True

    s.start()
    for oi, o in enumerate(case["ops"]):
        s.des.at(s.t0 + o["t"] * MS, op, oi)
    while s.des.step():
        s._sync()


def describe(case, run):
    return {"edges": [[e["parent"], e["child"], e["way"]] for e in case["sys"]["edges"]],
            "faults": [f["kind"] for f in case["sys"]["faults"]], "net": case["sys"]["net"], "ops": [o["f"] for o in case["ops"]]}
