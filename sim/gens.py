"""Seeded generation of robots, joints, poses and documents (JSON specs)."""
import copy
import math
import os

import numpy as np
import yaml

from . import models

DATA = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data")
_text = {}


def text(name):
    if name not in _text:
        with open(os.path.join(DATA, name), "r") as f:
            _text[name] = f.read()
    return _text[name]


def doc(name):
    return yaml.safe_load(text(name))


YAMLS = {
    "abb1200": "abb_1200_5_90_robot_default_config.yml",
    "rp260": "rp260_robot_default_config.yml",
    "m10ia": "FANUC_m10ia_robot_default_config.yml",
    "ur5e_yml": "ur5e_robot_default_config.yml",
    "sawyer": "sawyer_robot_default_config.yml",
    "sawyer_tool": "sawyer_robot_with_electric_gripper_config.yml",
}
GRIPPER = "sawyer_electric_gripper_default_config.yml"


def _cols(*v):
    return np.array(v, float).T.tolist()


def R_of(axis, ang):
    return models.rodrigues(np.asarray(axis, float), ang).tolist()


def _base(H, P, lo, up, **kw):
    n = len(H[0])
    d = {"H": H, "P": P, "joint_type": [0] * n, "joint_lower_limit": lo, "joint_upper_limit": up,
         "joint_vel_limit": None, "joint_acc_limit": None, "R_tool": None, "p_tool": None, "T_flange": None,
         "T_base": None, "joint_names": None, "root_link_name": None, "tip_link_name": None}
    d.update(kw)
    return d


def _deg(*v):
    return [math.radians(x) for x in v]


def named(name):
    x, y, z, a = [np.array(t, float) for t in ([1, 0, 0], [0, 1, 0], [0, 0, 1], [0, 0, 0])]
    if name == "puma":
        return _base(_cols(z, y, y, z, y, x),
                     (np.array([13 * z, a, (-4.9 * y + 7.8 * x - 0.75 * z), -8.0 * z, a, a, 2.2 * x]).T * 0.0254).tolist(),
                     _deg(-5, -256, -214, -384, -32, -267), _deg(313, 76, 34, 194, 212, 267))
    if name == "irb6640":
        return _base(_cols(z, y, y, x, y, x),
                     _cols(0.78 * z, 0.32 * x, 1.075 * z, 0.2 * z, 1.142 * x, 0.2 * x, a),
                     _deg(-170, -65, -180, -300, -120, -360), _deg(170, 85, 70, 300, 120, 360),
                     R_tool=R_of([0, 1, 0], math.pi / 2), p_tool=[0., 0., 0.])
    if name == "ur5e":
        return _base(_cols(z, -y, -y, -y, -z, -y),
                     _cols(0.1625 * z, a, -0.425 * x, -0.3922 * x - 0.1333 * y, -0.0997 * z, -0.0996 * y, a),
                     [-2 * math.pi, -2 * math.pi, -math.pi] + [-2 * math.pi] * 3,
                     [2 * math.pi, 2 * math.pi, math.pi] + [2 * math.pi] * 3,
                     R_tool=R_of([1, 0, 0], math.pi / 2), p_tool=[0., 0., 0.])
    r = models.rr_robot(doc(YAMLS[name]))
    for k in ("unit_quats", "unit_axes"):
        r.pop(k)
    for k in ("T_flange", "T_base"):
        if r[k] is not None:
            r[k].pop("qn", None)
    return r


SPHERICAL = ["puma", "irb6640", "abb1200", "rp260", "m10ia"]
UR = ["ur5e", "ur5e_yml"]
ALL_NAMED = SPHERICAL + UR + ["sawyer", "sawyer_tool"]
TESS = {"abb1200": "OPWInvKin", "rp260": "OPWInvKin", "m10ia": "OPWInvKin", "ur5e_yml": "URInvKin",
        "sawyer": "KDLInvKinChainLMA", "sawyer_tool": "KDLInvKinChainNR"}


def rnd_axis(rng):
    if rng.random() < 0.5:
        v = [0., 0., 0.]
        v[rng.randrange(3)] = rng.choice([1., -1.])
        return v
    while True:
        v = np.array([rng.gauss(0, 1) for _ in range(3)])
        n = np.linalg.norm(v)
        if n > 0.1:
            return (v / n).tolist()


def rnd_R(rng):
    q = np.array([rng.gauss(0, 1) for _ in range(4)])
    q = q / np.linalg.norm(q)
    # renormalise to double precision
    q = q / np.linalg.norm(q)
    return models.quat_R(q).tolist()


def rnd_q4(rng):
    q = np.array([rng.gauss(0, 1) for _ in range(4)])
    q = q / np.linalg.norm(q)
    return q.tolist()


def rnd_p(rng, s=1.0):
    return [rng.uniform(-s, s) for _ in range(3)]


def rnd_tf(rng, s=1.0, labels=False):
    if rng.random() < 0.03:             # nothing to do
        d = {"R": np.eye(3).tolist(), "p": [0.0, 0.0, 0.0]}
        if labels:
            d["parent"] = rng.choice([None, None, "world"])
            d["child"] = rng.choice([None, None, "tool"])
        return d
    c = rng.random()
    if c < 0.72:
        R = rnd_R(rng)
    elif c < 0.8:
        R = np.eye(3).tolist()
    elif c < 0.87:                  # a small misalignment
        R = models.rodrigues(rnd_axis(rng), 10 ** rng.uniform(-9, -1.7)).tolist()
    elif c < 0.95:                  # axes exchanged, exactly
        R = np.eye(3)[rng.choice([[0, 1, 2], [1, 2, 0], [2, 0, 1]])]
        R = (R * np.array(rng.choice([(1, 1, 1), (-1, -1, 1), (1, -1, -1), (-1, 1, -1)]))[:, None]).tolist()
    else:
        a = np.array(rnd_axis(rng))
        R = (2 * np.outer(a, a) - np.eye(3)).tolist()
    p = rnd_p(rng, s)
    c = rng.random()
    if c < 0.08:
        p = [0.0, 0.0, 0.0]
    elif c < 0.12:
        p = [x * 1e-6 for x in p]
    elif c < 0.2:
        p[rng.randrange(3)] = 0.0
    d = {"R": R, "p": p}
    if labels:
        d["parent"] = rng.choice([None, "world", "base", "a"])
        d["child"] = rng.choice([None, "tool", "b", "base"])
    return d


def rnd_chain(rng, n=None, types=(0, 1)):
    n = n or rng.randrange(2, 8)
    jt = [rng.choice(types) if rng.random() < 0.35 else 0 for _ in range(n)]
    H = np.array([rnd_axis(rng) for _ in range(n)]).T.tolist()
    P = np.array([rnd_p(rng, 0.6) if rng.random() < 0.8 else [0., 0., 0.] for _ in range(n + 1)]).T.tolist()
    lo = [-rng.uniform(1.0, 5.0) if t == 0 else -rng.uniform(0.2, 1.0) for t in jt]
    up = [rng.uniform(1.0, 5.0) if t == 0 else rng.uniform(0.2, 1.0) for t in jt]
    d = _base(H, P, lo, up, joint_type=jt)
    if rng.random() < 0.3:
        d["joint_lower_limit"] = d["joint_upper_limit"] = None
    return d


def rnd_spherical(rng, corrected=None):
    """random robot with spherical wrist; `corrected`: wrist offsets to be folded away"""
    x, y, z, a = [np.array(t, float) for t in ([1, 0, 0], [0, 1, 0], [0, 0, 1], [0, 0, 0])]
    h4 = x if rng.random() < 0.5 else z
    h6 = h4 if rng.random() < 0.7 else (x if h4[0] == 0 else z)
    sg = [rng.choice([1., 1., -1.]) for _ in range(6)]
    H = [sg[0] * z, sg[1] * y, sg[1] * y, sg[3] * h4, sg[4] * y, sg[5] * h6]
    if corrected is None:
        corrected = rng.random() < 0.6
    dy = rng.choice([0.0, 0.0, rng.uniform(-0.15, 0.15)])
    P = [rng.uniform(0.2, 0.8) * z, rng.choice([0.0, rng.uniform(0.05, 0.35)]) * x,
         rng.uniform(0.3, 1.1) * z + dy * y,
         rng.choice([0.0, rng.uniform(0.02, 0.2)]) * z + rng.uniform(0.3, 0.6) * x, a, a,
         rng.uniform(0.05, 0.25) * h6]
    if corrected:
        if rng.random() < 0.7:
            P[4] = rng.choice([0.25, 0.5, 0.125, -0.25]) * H[3]
        if rng.random() < 0.7 or not np.any(P[4]):
            P[5] = rng.choice([0.0625, 0.125, 0.25]) * H[5]
    lim = [rng.uniform(2.0, 6.2) for _ in range(6)]
    d = _base(_cols(*H), _cols(*P), [-l for l in lim], lim)
    if rng.random() < 0.2:
        d["joint_lower_limit"] = d["joint_upper_limit"] = None
    return d


def rnd_ur(rng):
    x, y, z, a = [np.array(t, float) for t in ([1, 0, 0], [0, 1, 0], [0, 0, 1], [0, 0, 0])]
    s = rng.uniform(0.6, 1.6)
    if rng.random() < 0.6:
        H = _cols(z, -y, -y, -y, -z, -y)
        P = _cols(0.1625 * z * s, a, -0.425 * x * s, -0.3922 * x * s - 0.1333 * y * s, -0.0997 * z * s,
                  -0.0996 * y * s, a)
    else:
        H = _cols(z, y, y, y, -z, y)
        P = _cols(0.1625 * z * s, a, 0.425 * x * s, 0.3922 * x * s + 0.1333 * y * s, -0.0997 * z * s,
                  0.0996 * y * s, a)
    l = rng.choice([math.pi, 2 * math.pi, 2 * math.pi])
    lo, up = [-l] * 6, [l] * 6
    if rng.random() < 0.2:
        lo = up = None
    return _base(H, P, lo, up)


def rnd_opw(rng):
    """ortho-parallel arm with spherical wrist in the form the OPW solver is documented for"""
    x, y, z, a = [np.array(t, float) for t in ([1, 0, 0], [0, 1, 0], [0, 0, 1], [0, 0, 0])]
    sg = [rng.choice([1., 1., -1.]) for _ in range(6)]
    bend = rng.choice([0, 2, 3])            # outstretched along Z, or along X with the bend at joint 2 or 3
    a1, a2 = rng.choice([0, rng.uniform(.02, .3)]), rng.choice([0, rng.uniform(-.15, .15)])
    b = rng.choice([0, 0, rng.uniform(-.1, .1)])
    c1, c2, c3, c4 = rng.uniform(.2, .6), rng.uniform(.3, .9), rng.uniform(.3, .8), rng.uniform(.05, .2)
    s, w = rng.choice([0, c1 * .4]), rng.choice([0., .3, 1.])
    P = [(c1 - s) * z, a1 * x + s * z, None, None, None, a, None]
    u = z if bend == 0 else x
    tilt = rng.choice([0., 0., 0., rng.uniform(-.6, .6)])   # of the upper arm at the zero configuration
    P[2] = np.round(models.rodrigues(y, tilt).dot((x if bend == 2 else z) * c2), 12) + b * y
    P[3] = c3 * w * u + (a2 * x if bend == 0 else -a2 * z)
    P[4] = c3 * (1 - w) * u
    P[6] = c4 * u
    if rng.random() < .3:
        P[5], P[6] = P[6], P[5]
    if bend == 3 and w == 0. or bend == 2 and abs(a2) > c2:
        P[3], P[4] = P[3] + P[4], a
    H = [h * t for h, t in zip((z, y, y, u, y, u), sg)]
    lim = [rng.uniform(2.0, 6.2) for _ in range(6)]
    d = _base(_cols(*H), _cols(*P), [-l for l in lim], lim)
    d["T_flange"] = {"R": R_of([0, 1, 0], math.pi / 2 if bend else 0.), "p": [0., 0., 0.]}
    return d


def rnd_ur_tess(rng):
    """UR arm with the base and flange frames the UR solver is documented for"""
    x, y, z, a = [np.array(t, float) for t in ([1, 0, 0], [0, 1, 0], [0, 0, 1], [0, 0, 0])]
    s = rng.uniform(0.6, 1.6)
    t = [rng.uniform(0.7, 1.3) * s for _ in range(6)]
    w = rng.choice([0., 0., 1., .4])        # how much of the last offset lies behind joint 6
    sh = rng.choice([0., 0., .3])           # how much of the sideways offset lies at the shoulder
    P = [.1625 * z * t[0], -sh * .1333 * y * t[3], -0.425 * x * t[1], -0.3922 * x * t[2] - (1 - sh) * 0.1333 * y * t[3],
         -0.0997 * z * t[4], -0.0996 * y * t[5] * (1 - w), -0.0996 * y * t[5] * w]
    H = [z, -y, -y, -y, -z, -y]
    F = np.array([[1, 0, 0], [0, 0, -1], [0, 1, 0]], float)
    l = rng.choice([math.pi, 2 * math.pi, 2 * math.pi])
    d = None
    R = models.rodrigues(z, math.pi)
    if rng.random() < .5:
        d = _base(_cols(*H), _cols(*P), [-l] * 6, [l] * 6)
        d["T_base"] = {"R": R.tolist(), "p": [0., 0., 0.]}
    else:
        d = _base(_cols(*[np.round(R.dot(v)) + 0. for v in H]), _cols(*[R.dot(v) for v in P]), [-l] * 6, [l] * 6)
        F = R.dot(F)
        if rng.random() < .5:
            d["T_base"] = {"R": np.eye(3).tolist(), "p": [0., 0., 0.]}
    d["T_flange"] = {"R": F.tolist(), "p": [0., 0., 0.]}
    return d


def with_aux(rng, d, p=0.5):
    d = copy.deepcopy(d)
    if rng.random() < p:
        t = rnd_tf(rng, 0.2)
        d["R_tool"], d["p_tool"] = t["R"], t["p"]
    if rng.random() < p:
        d["T_flange"] = rnd_tf(rng, 0.1)
    if rng.random() < p:
        d["T_base"] = rnd_tf(rng, 1.0)
    return d


def exact(d):
    """rotations of a named robot made orthonormal to rounding"""
    d = copy.deepcopy(d)

    def o(R):
        u, _, v = np.linalg.svd(np.array(R, float))
        return u.dot(v).tolist()
    if d["R_tool"] is not None:
        d["R_tool"] = o(d["R_tool"])
    for k in ("T_flange", "T_base"):
        if d[k] is not None:
            d[k] = dict(d[k], R=o(d[k]["R"]))
    return d


def rnd_robot(rng, kinds=("named", "chain", "sph", "ur")):
    d = _rnd_robot(rng, kinds)
    c = rng.random()
    if c < 0.08:                        # limits in plain lists
        d = dict(d, lists=True)
    elif c < 0.16 and d.get("p_tool") is not None:
        d = dict(d, pcol=True)          # column vector
    return d


def _rnd_robot(rng, kinds):
    k = rng.choice(kinds)
    if k == "named":
        d = named(rng.choice(ALL_NAMED))
        return with_aux(rng, d, 0.2)
    if k == "chain":
        return with_aux(rng, rnd_chain(rng), 0.4)
    if k == "sph":
        return with_aux(rng, rnd_spherical(rng), 0.4)
    if k == "ur":
        return with_aux(rng, rnd_ur(rng), 0.3)
    raise ValueError(k)


def rnd_joints(rng, d, margin=0.02, wide=False):
    out = []
    for i, t in enumerate(d["joint_type"]):
        if d["joint_lower_limit"] is not None:
            l, u = d["joint_lower_limit"][i], d["joint_upper_limit"][i]
            m = min(margin, (u - l) * 0.1)
            v = rng.uniform(l + m, u - m)
            if wide and rng.random() < 0.2:
                v = rng.choice([l + m, u - m, 0.5 * (l + u)])
        else:
            v = rng.uniform(-3, 3) if t in (0, 2) else rng.uniform(-0.5, 0.5)
        out.append(v)
    return out


# -- materialising -------------------------------------------------------------

def arr(v, layout="C", dtype=float):
    a = np.array(v, dtype=dtype)
    if layout == "F":
        a = np.asfortranarray(a)
    elif layout == "view":
        big = np.zeros(tuple(2 * s for s in a.shape), dtype=a.dtype)
        sl = tuple(slice(None, None, 2) for _ in a.shape)
        big[sl] = a
        a = big[sl]
    elif layout == "off":
        big = np.zeros(tuple(s + 2 for s in a.shape), dtype=a.dtype)
        sl = tuple(slice(1, -1) for _ in a.shape)
        big[sl] = a
        a = big[sl]
    elif layout == "list":
        return a.tolist()
    elif layout == "ro":
        a.flags.writeable = False
    return a


def mk_tf(rox, t, layout="C"):
    if t is None:
        return None
    return rox.Transform(arr(t["R"], layout), arr(t["p"], layout), t.get("parent"), t.get("child"))


def mk_robot(rox, d, layout="C"):
    def a(k):
        if d.get("lists") and k.startswith("joint_"):
            return None if d.get(k) is None else [float(x) for x in d[k]]
        if d.get("pcol") and k == "p_tool":
            return arr(np.reshape(d[k], (3, 1)), layout)
        return None if d.get(k) is None else arr(d[k], layout)
    jt = d["joint_type"]
    if d.get("jt_array"):
        jt = np.array(jt, dtype=float)
    else:
        jt = list(jt)
    kw = {}
    if d.get("M") is not None:
        kw["M"] = [arr(m) for m in d["M"]]
    return rox.Robot(arr(d["H"], layout), arr(d["P"], layout), jt, a("joint_lower_limit"), a("joint_upper_limit"),
                     a("joint_vel_limit"), a("joint_acc_limit"), R_tool=a("R_tool"), p_tool=a("p_tool"),
                     joint_names=list(d["joint_names"]) if d.get("joint_names") else None,
                     root_link_name=d.get("root_link_name"), tip_link_name=d.get("tip_link_name"),
                     T_flange=mk_tf(rox, d.get("T_flange"), layout), T_base=mk_tf(rox, d.get("T_base"), layout), **kw)
