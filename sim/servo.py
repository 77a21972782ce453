"""A leader moving through joint space streams target poses to a follower over a faulty link."""
import math

import numpy as np

from . import des, gens, models

MS = 10 ** 6


def wrist_angles(d):
    """angles of joint 5 that make axes 4 and 6 parallel"""
    H = np.asarray(d["H"], float)
    out = []
    for a in (0.0, math.pi / 2, -math.pi / 2, math.pi, -math.pi):
        c = abs(np.dot(H[:, 3], models.rodrigues(H[:, 4], a).dot(H[:, 5])))
        if abs(c - 1) < 1e-12:
            out.append(a)
    return out


def elbow_angles(d):
    """angles of joint 3 that stretch or fold the arm completely"""
    H, P = np.asarray(d["H"], float), np.asarray(d["P"], float)
    k, q = H[:, 2], P[:, 2]
    p = P[:, 3] if abs(abs(H[:, 1].dot(H[:, 3])) - 1) < 1e-9 else P[:, 3] + P[:, 4]
    p, q = p - k * k.dot(p), q - k * k.dot(q)
    if np.linalg.norm(p) < 1e-9 or np.linalg.norm(q) < 1e-9:
        return []
    a = math.atan2(k.dot(np.cross(p, q)), p.dot(q))
    return [a, a - math.pi if a > 0 else a + math.pi]


def limits(d, pad=0.0):
    n = len(d["joint_type"])
    if d["joint_lower_limit"] is None:
        lo = [-6.0 if t == 0 else -0.5 for t in d["joint_type"]]
        return np.array(lo), -np.array(lo)
    lo, up = np.array(d["joint_lower_limit"], float), np.array(d["joint_upper_limit"], float)
    m = np.minimum(pad, 0.1 * (up - lo))
    return lo + m, up - m


def scale(d):
    P = np.asarray(d["P"], float)
    s = float(np.sum(np.linalg.norm(P, axis=0)))
    if 1 in d["joint_type"]:
        lo, up = limits(d)
        s += sum(max(abs(lo[i]), abs(up[i])) for i, t in enumerate(d["joint_type"]) if t == 1)
    return max(s, 0.1)


def sigma_min(d, q):
    """smallest singular value of the Jacobian with lengths in units of the arm's size (chains of 6 or more joints)"""
    J = models.jac(d, q)
    J[3:] = J[3:] / scale(d)
    return float(np.linalg.svd(J, compute_uv=False)[-1])


def gen_segments(rng, d, n, wrist=True, teleport=True, outs=True):
    """leader program: list of segments with explicit numbers"""
    lo, up = limits(d, 0.02)
    q = np.array([rng.uniform(a, b) for a, b in zip(lo, up)])
    segs = [{"k": "jump", "to": q.tolist()}]
    left = n
    ws = wrist_angles(d) if wrist and len(d["joint_type"]) == 6 else []
    ws = [w for w in ws if lo[4] < w < up[4]]
    es = [e for e in (elbow_angles(d) if wrist and len(d["joint_type"]) == 6 else []) if lo[2] < e < up[2]]
    while left > 0:
        c = rng.random()
        m = min(left, rng.randrange(1, 14))
        if c < 0.45:
            step = rng.choice([0.02, 0.1, 0.3, 0.8, 1.3])
            to = q + np.array([rng.uniform(-1, 1) for _ in q]) * step * m
            if rng.random() < 0.3:
                # one joint only, far
                to = q.copy()
                j = rng.randrange(len(q))
                to[j] += rng.choice([-1, 1]) * step * m
            to = np.clip(to, lo, up)
            to = np.clip(to, q - 1.45 * m, q + 1.45 * m)
            segs.append({"k": "move", "to": to.tolist(), "n": m})
            q = to
        elif c < 0.6 and ws:
            w = rng.choice(ws)
            to = q.copy()
            to[4] = w + rng.choice([0.0, 0.0, 0.0, 1e-9, -1e-7, 1e-5, -1e-3])
            to = np.clip(to, lo, up)
            m = max(m, int(abs(to[4] - q[4]) / 1.2) + 1)
            segs.append({"k": "move", "to": to.tolist(), "n": m})
            over = to.copy()
            over[4] = np.clip(w + (w - q[4]) * rng.choice([0.3, 1.0, -0.5]), lo[4], up[4])
            for j in range(6):
                if j != 4 and rng.random() < 0.4:
                    over[j] = np.clip(over[j] + rng.uniform(-0.4, 0.4), lo[j], up[j])
            if rng.random() < 0.4:
                segs.append({"k": "hold", "n": rng.randrange(1, 4)})
            m2 = max(2, int(abs(over[4] - to[4]) / 1.2) + 1)
            segs.append({"k": "move", "to": over.tolist(), "n": m2})
            q = over
            m += m2
        elif c < 0.66 and es:
            to = q.copy()
            to[2] = rng.choice(es) + rng.choice([0.0, 0.0, 0.0, 1e-9, -1e-8, 1e-7, -1e-5, 1e-3])
            if ws and rng.random() < 0.3:
                to[4] = rng.choice(ws)
            m = int(max(abs(to - q)) / 1.2) + 1
            segs.append({"k": "move", "to": to.tolist(), "n": m})
            q = to
        elif c < 0.7:
            segs.append({"k": "hold", "n": min(m, 4)})
            m = min(m, 4)
        elif c < 0.85 and outs:
            m = min(m, 5)
            segs.append({"k": "out", "mode": rng.choice(["far", "near", "inside", "edge", "floor"]), "n": m,
                         "dir": [rng.gauss(0, 1) for _ in range(3)],
                         "s": rng.choice([1.05, 1.5, 10.0, 1e6]), "e": rng.choice([1e-12, 1e-9, 1e-6, 1e-3, 0.05])})
        elif c < 0.95 and teleport:
            q = np.array([rng.uniform(a, b) for a, b in zip(lo, up)])
            segs.append({"k": "jump", "to": q.tolist()})
            m = 1
        else:
            continue
        left -= m
    return segs


def samples(d, segs, period=10):
    """[(t ms, kind, q or None, R, p)]"""
    out = []
    q = None
    t = 0
    R0, p0 = np.eye(3), np.zeros(3)
    base = models.hom(d["T_base"]) if d.get("T_base") is not None else np.eye(4)
    sc = scale(d) + sum(np.linalg.norm(x) for x in ([d["p_tool"]] if d.get("p_tool") else [])) + \
        (np.linalg.norm(d["T_flange"]["p"]) if d.get("T_flange") else 0)

    def put(kind, q, R, p):
        out.append({"i": len(out), "t": t, "kind": kind, "q": None if q is None else np.array(q, float), "R": R, "p": p})
    for s in segs:
        if s["k"] == "jump":
            q = np.array(s["to"], float)
            R0, p0 = models.fk(d, q)
            put("jump", q, R0, p0)
            t += period
        elif s["k"] == "move":
            if q is None:
                continue
            to = np.array(s["to"], float)
            for k in range(1, s["n"] + 1):
                x = to if k == s["n"] else q + (to - q) * (k / float(s["n"]))
                R0, p0 = models.fk(d, x)
                put("move", x, R0, p0)
                t += period
            q = to
        elif s["k"] == "hold":
            if q is None:
                continue
            for k in range(s["n"]):
                R, p = models.fk(d, q)
                put("hold", q, R, p)
                t += period
        elif s["k"] == "flip":
            for k in range(s["n"]):
                put("flip", None, R0.dot(models.rodrigues(s["axis"], s["a"])), p0)
                t += period
        elif s["k"] == "out":
            v = np.array(s["dir"], float)
            v = v / (np.linalg.norm(v) or 1.0)
            b = base[:3, 3]
            for k in range(s["n"]):
                if s["mode"] == "far":
                    p = b + v * sc * s["s"]
                elif s["mode"] == "edge":
                    p = b + (p0 - b) / (np.linalg.norm(p0 - b) or 1.0) * sc * (1 + s["e"])
                elif s["mode"] == "near":
                    p = p0 + v * sc * s["e"]
                elif s["mode"] == "inside":
                    p = b + base[:3, :3].dot(np.array([s["e"] * v[0], s["e"] * v[1], 0.3 * v[2]]))
                else:
                    p = p0 * np.array([1, 1, 0.0]) + np.array([0, 0, -sc * s["s"]])
                put("out", None, R0, p)
                t += period
    return out


def R_to_quat(R):
    """Shepperd"""
    t = np.trace(R)
    v = [t, R[0, 0], R[1, 1], R[2, 2]]
    i = int(np.argmax(v))
    if i == 0:
        w = math.sqrt(max(0.0, 1 + t)) / 2
        q = [w, (R[2, 1] - R[1, 2]) / (4 * w), (R[0, 2] - R[2, 0]) / (4 * w), (R[1, 0] - R[0, 1]) / (4 * w)]
    else:
        i -= 1
        j, k = (i + 1) % 3, (i + 2) % 3
        x = math.sqrt(max(0.0, 1 + R[i, i] - R[j, j] - R[k, k])) / 2
        q = [0.0] * 4
        q[0] = (R[k, j] - R[j, k]) / (4 * x)
        q[1 + i] = x
        q[1 + j] = (R[j, i] + R[i, j]) / (4 * x)
        q[1 + k] = (R[k, i] + R[i, k]) / (4 * x)
    q = np.array(q)
    return q / np.linalg.norm(q)


def encode(R, p, wire):
    """the pose as it leaves the link"""
    if wire == "mat":
        return np.array(R), np.array(p, float)
    q = R_to_quat(np.asarray(R))
    p = np.array(p, float)
    if wire == "f32":
        q = q.astype(np.float32).astype(float)
        q = q / np.linalg.norm(q)
        p = p.astype(np.float32).astype(float)
    return models.quat_R(q), p


def gen_link(rng, n):
    """per message list of delivery delays in ms (empty: lost); messages not mentioned arrive after 1 ms"""
    style = rng.choice(["good", "lossy", "jitter", "dup", "mixed", "burst"])
    out = {}
    i = 0
    while i < n:
        c = rng.random()
        if style == "burst" and c < 0.1:
            for k in range(rng.randrange(3, 15)):
                out[str(i + k)] = []
            i += k + 1
            continue
        if style in ("lossy", "mixed") and c < 0.25:
            out[str(i)] = []
        elif style in ("jitter", "mixed") and c < 0.5:
            out[str(i)] = [rng.choice([1, 4, 12, 25, 60, 200])]
        elif style in ("dup", "mixed") and c < 0.7:
            out[str(i)] = [rng.choice([1, 1, 15, 40]) for _ in range(rng.randrange(2, 4))]
        i += 1
    return out


def gen_crashes(rng, n, period=10):
    return [{"t": rng.randrange(0, max(1, n * period)), "mode": rng.choice(["cold", "cold", "saved", "zero", "down"]),
             "down": rng.choice([20, 60, 200])} for _ in range(rng.choice([0, 0, 1, 1, 2, 3]))]


class Link(object):
    """replays the leader's samples through the link into follower callbacks on simulated time"""

    def __init__(self, case, d, r, period=10):
        self.case, self.r = case, r
        self.des = des.Des()
        self.samples = samples(d, case["segs"], period)
        self.down_until = -1
        self.newest = -1
        n = 0
        for s in self.samples:
            ds = case["link"].get(str(s["i"]), [1])
            if not ds:
                r.count("fault:target lost")
            if len(ds) > 1:
                r.count("fault:target duplicated", len(ds) - 1)
            if ds and max(ds) > period:
                r.count("fault:target delayed")
            for x in ds:
                self.des.at(self.des.start + (s["t"] + x) * MS, self._arrive, s)
                n += 1
        for c in case.get("crashes", []):
            self.des.at(self.des.start + c["t"] * MS, self._crash, c)
        self.on_target = self.on_crash = None

    def _arrive(self, s):
        if self.des.now < self.down_until:
            self.r.count("fault:target missed while down")
            return
        if s["i"] < self.newest:
            self.r.count("fault:target out of order")
            if self.case.get("policy") == "newest":
                return
        self.newest = max(self.newest, s["i"])
        self.on_target(s)

    def _crash(self, c):
        self.r.count("fault:follower restart " + c["mode"])
        if c["mode"] == "down":
            self.down_until = self.des.now + c["down"] * MS
        self.on_crash(c)

    def run(self):
        self.des.run()
        self.r.simtime = self.des.seconds
