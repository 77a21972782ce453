"""C06: ROS messages in flight carry exactly the value that was converted."""
import math

import numpy as np

from sim import calls, des, gens, held, lib as _lib, models, rosstub, values
from sim.engine import Violation

ID = "C06"
RUNS = {"quick": 6000, "thorough": 200000}
RULE = ("One run: 1-2 sender nodes convert 3-14 values and put the messages on a simulated network with per delivery delay, "
        "loss, duplication and reordering, as objects or serialised early or late; the senders reuse and overwrite their "
        "arrays meanwhile, relays edit single numbers or names of a message they hold, other encoders pick the opposite quaternion; a receiver without the toolbox reads every message; 1-3 receiver nodes decode and scribble on what they decoded. Non-trivial: a message was decoded "
        "after its sender had written into the converted arrays, or twice.")
MEASURE = "distinct (conversion, delivery mode, faults met before decoding) combinations"
REAL = ["general_robotics_toolbox.ros_msg and core", "numpy"]
STUBS = ["geometry_msgs (genpy semantics: slots, argument rules, serialisation)", "network", "clock"]
ASSUMPTIONS = ["messages behave as genpy messages do"]
SHRINK = lambda c: [["msgs"]] + [["msgs", i, "del"] for i in range(len(c["msgs"]))] + \
    [["msgs", i, "writes"] for i in range(len(c["msgs"]))]
ENC = {"q": ["q2msg"], "R": ["R2msg"], "p": ["p2msg", "p2point_msg"],
       "T": ["transform2msg", "transform2transform_stamped_msg", "transform2pose_msg", "transform2pose_stamped_msg"],
       "six": ["twist2msg", "wrench2msg"]}
DEC = {"q2msg": ["msg2q", "msg2R"], "R2msg": ["msg2R", "msg2q"], "p2msg": ["msg2p"], "p2point_msg": ["point_msg2p"],
       "transform2msg": ["msg2transform"], "transform2transform_stamped_msg": ["msg2transform"],
       "transform2pose_msg": ["msg2transform"], "transform2pose_stamped_msg": ["msg2transform"],
       "twist2msg": ["msg2twist"], "wrench2msg": ["msg2wrench"]}
FR = [None, "", "world", "base_link", "tool0", "a/b", "wrist_3_link", u"m\u00e4p", "/world", "/robot/tool0", " base", "tool ",
      "Base Link", "/", "x" * 300]


def setup():
    rosstub.install()


def _R(rng):
    c = rng.random()
    if c < 0.35:
        return rng.choice(calls.SPECIAL_R)
    if c < 0.6:
        # near half turns, and traces near 0
        k = np.array([rng.gauss(0, 1) for _ in range(3)])
        k = k / np.linalg.norm(k)
        th = rng.choice([math.pi, math.pi - 1e-7, math.pi - 1e-4, math.pi + 1e-5, 2 * math.pi / 3,
                         2 * math.pi / 3 + 1e-9, 1e-7, 1e-3, -3.1])
        return models.rodrigues(k, th).tolist()
    return gens.rnd_R(rng)


def _p(rng):
    c = rng.random()
    if c < 0.2:
        return [rng.choice([0.0, -0.0, 1.0, -2.0, 1e-300, 1e9, 3.0]) for _ in range(3)]
    if c < 0.3:     # a large offset next to a small one (map coordinates, nanometres)
        return [rng.choice([1, -1]) * rng.uniform(1, 10) * 10.0 ** rng.randrange(-12, 13) for _ in range(3)]
    return gens.rnd_p(rng, rng.choice([1.0, 1e-6, 1e4]))


def gen(rng, i, tier):
    nodes = rng.randrange(1, 3)
    rec = rng.randrange(1, 4)
    msgs = []
    t = 0
    for _ in range(rng.randrange(3, 15)):
        k = rng.choice(["q", "R", "p", "T", "T", "T", "six"])
        if k == "q":
            v = gens.rnd_q4(rng) if rng.random() < 0.8 else rng.choice([[1., 0, 0, 0], [0, 0, 1., 0], [-1., 0, 0, 0],
                                                                       [-0.5, 0.5, -0.5, 0.5]])
            if rng.random() < 0.2:          # any four numbers: read from a sensor, rounded, a difference, not yet normalised
                v = [x * rng.choice([2.0, 0.5, 1 + 1e-6, 1 - 3e-4]) if rng.random() < 0.7 else round(x, 3) for x in v]
        elif k == "R":
            v = _R(rng)
        elif k == "p":
            v = _p(rng)
        elif k == "six":
            v = _p(rng) + _p(rng)
            if rng.random() < 0.25:
                v[3:] = v[:3]               # the same three numbers twice
        else:
            v = {"R": _R(rng), "p": _p(rng), "parent": rng.choice(FR), "child": rng.choice(FR)}
        t += int(rng.expovariate(1.0) * 3e7)
        dels = []
        if rng.random() > 0.12:
            for n in range(rec):
                if rng.random() < 0.15:
                    continue
                for _ in range(rng.choice([1, 1, 1, 2, 3])):
                    dels.append({"dt": int(rng.expovariate(1.0) * rng.choice([1e6, 5e7, 4e8])), "to": n,
                                 "wire": rng.choice(["no", "no", "early", "late"]), "n": rng.choice([1, 1, 2]),
                                 "scribble": rng.random() < 0.5, "flip": rng.random() < 0.2, "restart": rng.random() < 0.08})
        writes = [{"dt": int(rng.expovariate(1.0) * rng.choice([1e6, 5e7, 4e8])), "leaf": rng.randrange(1000),
                   "how": rng.choice(["add", "fill", "swap", "one", "assign"]), "d": rng.choice([0.125, -0.5, 2.0])}
                  for _ in range(rng.choice([0, 1, 1, 2]))]
        relay = []
        if rng.random() < 0.25:
            relay = [{"dt": int(rng.expovariate(1.0) * rng.choice([1e6, 5e7, 4e8])), "leaf": rng.randrange(1000),
                      "d": rng.choice([0.125, -0.5, 2.0])} for _ in range(rng.choice([1, 1, 2]))]
        again = None                        # the same values, or the very object, once more
        if msgs and rng.random() < 0.2:
            c = [n for n, x in enumerate(msgs) if x["k"] == k]
            if c:
                again = rng.choice(c)
                v = msgs[again]["v"]
        msgs.append({"again": again, "relay": relay, "k": k, "enc": rng.choice(ENC[k]), "v": v, "t": t, "node": rng.randrange(nodes), "del": dels,
                     "writes": writes, "buf": rng.random() < 0.6,
                     "lay": rng.choice(["C", "C", "F", "view", "off", "ro", "list", "col", "int"])})
    return {"msgs": msgs, "nodes": nodes, "rec": rec}


def shape(m, v):
    lay = m["lay"]
    if m["buf"] or m["k"] == "T":
        lay = lay if lay in ("C", "F", "view", "off") else "C"
    if lay == "col" and m["k"] != "R":
        return np.array(v, dtype=float).reshape((-1, 1))
    if lay == "list" and m["k"] in ("q", "p", "six"):
        return [float(x) for x in v]
    if lay == "int" and all(float(x).is_integer() and abs(x) < 2 ** 31 for x in np.ravel(v)):
        return np.array(v).astype(int)
    return gens.arr(v, lay if lay in ("C", "F", "view", "off", "ro") else "C")


def run(case, r):
    w = des.Des()
    senders = [_lib.fresh("plain") for _ in range(case["nodes"])]
    receivers = [_lib.fresh("plain") for _ in range(case["rec"])]
    bufs = [dict() for _ in senders]
    live = {}
    order = []

    def convert(mi):
        m = case["msgs"][mi]
        lb = senders[m["node"] % len(senders)]
        b = bufs[m["node"] % len(senders)]
        with _lib.Active(lb):
            old = live.get(m.get("again"))
            if old is not None and not old["written"] and old["node"] == m["node"] % len(senders) and \
                    values.bits(old["x"]) == old["xbits"]:
                x = old["x"]
                r.count("fault:same object converted again")
            elif m["k"] == "T":
                x = gens.mk_tf(lb.rox, m["v"], m["lay"] if m["lay"] in ("F", "view", "off") else "C")
                if m["buf"]:
                    o = b.setdefault("T", x)
                    if o is not x:
                        o.R, o.p = np.array(o.R), np.array(o.p)
                        o.R[...], o.p[...] = x.R, x.p
                        o.parent_frame_id, o.child_frame_id = x.parent_frame_id, x.child_frame_id
                        x = o
            else:
                x = shape(m, m["v"])
                if m["buf"]:
                    o = b.setdefault(m["k"], x)
                    if o is not x:
                        o[...] = x
                        r.count("fault:sender buffer reused")
                        x = o
            try:
                msg = getattr(lb.ros_msg, m["enc"])(x)
            except Exception as e:
                raise Violation("conversion-fails", "%s of %s raised %r" % (m["enc"], values.brief(m["v"]), e))
        r.ev("convert", mi, m["enc"])
        state = {"msg": msg, "want": values.bits(msg), "written": 0, "decoded": 0, "x": x, "xbits": values.bits(x),
                 "node": m["node"] % len(senders), "v": m["v"], "edited": 0}
        live[mi] = state
        why = native(m, msg)
        if why:
            raise Violation("foreign-receiver", "a receiver without the toolbox reads a %s message as %s" % (m["enc"], why))
        try:
            wire0 = msg.serialize()
        except Exception as e:
            raise Violation("not-serialisable", "message of %s cannot be sent: %r" % (m["enc"], e))
        for wr in m["writes"]:
            w.after(wr["dt"], scribble, mi, state, wr)
        for e in m.get("relay", ()):
            w.after(e["dt"], relay, mi, state, e)
        if not m["del"]:
            r.count("fault:message lost")
        for d in m["del"]:
            w.after(d["dt"], deliver, mi, state, d, wire0)

    def scribble(mi, state, wr):
        p = held.write(state["x"], wr["leaf"], wr["how"], wr["d"])
        if p is not None:
            state["written"] += 1
            r.count("fault:sender writes while in flight")
            r.ev("write", mi, p)

    def relay(mi, state, e):
        # a node that holds the message object changes one number or name of it and passes it on; no other message may change,
        # and of this one nothing else
        slots = leaves(state["msg"])
        o, f = slots[e["leaf"] % len(slots)]
        if values.bits(state["msg"]) != state["want"]:
            raise Violation("message-changed", "message %d of %s changed while in flight" % (mi, case["msgs"][mi]["enc"]))
        was = [values.bits(getattr(*q)) for q in slots]
        v = getattr(o, f)
        setattr(o, f, v + "_relay" if isinstance(v, str) else type(v)(v.secs + 1, v.nsecs) if hasattr(v, "secs") else
                v + 1 if isinstance(v, int) else float(v) * 2 + e["d"])
        if sum(values.bits(getattr(*q)) != was[j] for j, q in enumerate(slots)) > 1:
            raise Violation("shared-message-parts", "changing one field of a %s message changed another of its fields"
                            % case["msgs"][mi]["enc"])
        state["want"] = values.bits(state["msg"])
        state["edited"] += 1
        r.count("fault:holder edits a message in flight")
        r.ev("edit", mi, f)

    def deliver(mi, state, d, wire0):
        m = case["msgs"][mi]
        if d["restart"]:
            receivers[d["to"] % len(receivers)] = _lib.fresh("plain")
            r.count("fault:receiver restart")
        lb = receivers[d["to"] % len(receivers)]
        msg = state["msg"]
        if values.bits(msg) != state["want"]:
            raise Violation("message-changed", "message %d of %s changed while in flight" % (mi, m["enc"]))
        fresh = d["wire"] == "early"        # what was sent before anybody edited the message
        if d["wire"] != "no":
            msg = type(msg).deserialize(wire0 if d["wire"] == "early" else msg.serialize())
            if d.get("flip") and m["k"] in ("R", "T"):      # the other quaternion of the same rotation
                o = msg
                for f in ("transform", "pose", "rotation", "orientation"):
                    o = getattr(o, f, o)
                o.x, o.y, o.z, o.w = -o.x, -o.y, -o.z, -o.w
                r.count("fault:opposite quaternion")
        if order and mi < order[-1]:
            r.count("fault:reordered")
        order.append(mi)
        if state["decoded"]:
            r.count("fault:duplicated")
        for k in range(d["n"]):
            for dec in DEC[m["enc"]]:
                if m["k"] == "q" and dec == "msg2R" and abs(np.linalg.norm(m["v"]) - 1) > 1e-9:
                    continue            # no rotation was converted
                before = values.bits(msg)
                with _lib.Active(lb):
                    try:
                        got = getattr(lb.ros_msg, dec)(msg)
                    except Exception as e:
                        raise Violation("decode-fails", "%s of a %s message raised %r" % (dec, m["enc"], e))
                r.ev("decode", mi, dec, values.digest_canon(values.canon(got)))
                r.count("decodes")
                if values.bits(msg) != before:
                    raise Violation("message-changed", "%s altered the message" % dec)
                if dec != "msg2transform" and not isinstance(got, np.ndarray):
                    raise Violation("value-differs", "%s returned a %s, not an array to compute with" % (dec, type(got).__name__))
                if state["edited"] and not fresh:
                    # the message as it is now, decoded by somebody who never saw it before
                    other = _lib.fresh("plain")
                    with _lib.Active(other):
                        want = values.canon(getattr(other.ros_msg, dec)(type(msg).deserialize(msg.serialize())))
                    why = None if values.canon(got) == want else "%s instead of %s" % (values.canon(got), want)
                else:
                    why = judge(m, dec, got)
                if why:
                    raise Violation("value-differs", "%s of %s (%s, message %d, decoded %d times before, sender wrote %d "
                                    "times): %s" % (dec, m["enc"], d["wire"], mi, state["decoded"], state["written"], why))
                state["decoded"] += 1
                if state["written"] or state["decoded"] > 1:
                    r.nontrivial = True
                r.keys.add("%s/%s/%s/%d%d" % (m["enc"], dec, d["wire"], min(state["written"], 2), min(state["decoded"], 3)))
                if d["scribble"]:
                    for n in range(4):
                        held.write(got, n * 3 + k, "fill", 7.5)
                    r.count("fault:receiver writes into decoded value")
                    if values.bits(msg) != before:
                        raise Violation("message-changed", "writing into what %s returned altered the message" % dec)

    t0 = w.now
    for mi, m in enumerate(case["msgs"]):
        w.at(t0 + m["t"], convert, mi)
    w.run()
    r.simtime = w.seconds


def leaves(msg):
    """every number and name a message holds, as (object, field)"""
    out = []
    for f, kind in zip(msg.__slots__, msg._kinds):
        if kind in ("d", "s"):
            out.append((msg, f))
        elif f == "header":
            out.extend((msg.header, n) for n in ("seq", "stamp", "frame_id"))
        elif kind != "u":
            out.extend(leaves(getattr(msg, f)))
    return out


class _T(object):
    def __init__(self, q, p, parent, child):
        self.R, self.p = models.quat_R([q.w, q.x, q.y, q.z]), np.array([p.x, p.y, p.z])
        self.parent_frame_id, self.child_frame_id = parent, child


def native(m, msg):
    """what somebody reads who knows the message definitions and nothing else"""
    def v3(x):
        return [x.x, x.y, x.z]
    e = m["enc"]
    if e in ("q2msg", "R2msg"):
        return judge(m, "msg2q", [msg.w, msg.x, msg.y, msg.z])
    if e in ("p2msg", "p2point_msg"):
        return judge(m, "msg2p", v3(msg))
    if e == "twist2msg":
        return judge(m, "msg2twist", v3(msg.angular) + v3(msg.linear))
    if e == "wrench2msg":
        return judge(m, "msg2wrench", v3(msg.torque) + v3(msg.force))
    if e == "transform2msg":
        t = _T(msg.rotation, msg.translation, None, None)
    elif e == "transform2transform_stamped_msg":
        t = _T(msg.transform.rotation, msg.transform.translation, msg.header.frame_id, msg.child_frame_id)
    elif e == "transform2pose_msg":
        t = _T(msg.orientation, msg.position, None, None)
    else:
        t = _T(msg.pose.orientation, msg.pose.position, msg.header.frame_id, None)
    return judge(m, "msg2transform", t)


def same(g, w):
    return g.shape == w.shape and bool(np.all(g == w))      # copied, not computed


def judge(m, dec, got):
    v = m["v"]
    if dec in ("msg2p", "point_msg2p", "msg2twist", "msg2wrench"):
        want = np.array(v, dtype=float)
        g = np.asarray(got, dtype=float)
        if g.shape != want.shape or not same(g, want):
            return "%s instead of %s" % (g, want)
        return None
    if dec == "msg2q":
        g = np.asarray(got, dtype=float)
        if g.shape != (4,):
            return "shape %s" % (g.shape,)
        if m["k"] == "q":
            if not same(g, np.array(v, dtype=float)):
                return "%s instead of %s" % (g, v)
            return None
        got, want = models.quat_R(g), np.array(v)
        if abs(np.linalg.norm(g) - 1) > 1e-7:
            return "not a unit quaternion"
    elif dec == "msg2R":
        want = models.quat_R(np.array(v)) if m["k"] == "q" else np.array(v)
    else:
        want = np.array(v["R"])
        if not same(np.asarray(got.p, dtype=float), np.array(v["p"], dtype=float)):
            return "p %s instead of %s" % (got.p, v["p"])
        par, chi = v.get("parent"), v.get("child")
        stamped, pst = m["enc"] == "transform2transform_stamped_msg", m["enc"] == "transform2pose_stamped_msg"
        if (stamped or pst) and (got.parent_frame_id or "") != (par or ""):
            return "parent frame %r instead of %r" % (got.parent_frame_id, par)
        if stamped and (got.child_frame_id or "") != (chi or ""):
            return "child frame %r instead of %r" % (got.child_frame_id, chi)
        if not (stamped or pst) and (got.parent_frame_id or got.child_frame_id):
            return "frame names %r/%r out of nowhere" % (got.parent_frame_id, got.child_frame_id)
        if pst and got.child_frame_id:
            return "child frame %r out of nowhere" % got.child_frame_id
        got = got.R
    g = np.asarray(got, dtype=float)
    if g.shape != (3, 3) or not np.abs(g - want).max() < 2e-8:
        return "rotation %s instead of %s" % (values.brief(g.tolist()), values.brief(want.tolist()))
    return None


def describe(case, run):
    return {"messages": [[m["enc"], len(m["del"]), len(m["writes"]), m["buf"]] for m in case["msgs"]]}
