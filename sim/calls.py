"""Vocabulary of library calls for the history based properties.

An operation is {"f": name, "a": [argspec...]}; an argspec is
  {"o": i}      object i of the run's heap
  {"v": x, "l": layout}   fresh numpy array
  {"s": x}      plain scalar, list or string
  {"t": tf}     fresh Transform
Heap objects are described by specs too, so every call can be repeated alone
on the same values in a fresh process image.
"""
import copy
import io
import math
import os

import numpy as np
import yaml

from . import gens, lib as _lib
from .values import canon


REL = os.path.relpath(gens.DATA)


def build(lib, spec):
    k = spec["k"]
    if k == "robot":
        return gens.mk_robot(lib.rox, spec["d"], spec.get("l", "C"))
    if k == "tf":
        return gens.mk_tf(lib.rox, spec["d"], spec.get("l", "C"))
    if k == "arr":
        return gens.arr(spec["v"], spec.get("l", "C"))
    if k == "list":
        return copy.deepcopy(spec["v"])
    if k == "vlist":
        return [gens.arr(x) for x in spec["v"]]
    if k == "doc":
        return copy.deepcopy(spec["v"])
    if k == "tess":
        tess = lib.tesseract
        return tess.TesseractRobot(gens.mk_robot(lib.rox, spec["d"]), spec["name"], spec["solver"])
    if k == "msg":
        return getattr(lib.ros_msg, spec["conv"])(build(lib, spec["of"]))
    raise ValueError(k)


def arg(lib, heap, a):
    if "o" in a:
        return heap[a["o"]]
    if "v" in a:
        return gens.arr(a["v"], a.get("l", "C"))
    if "t" in a:
        return gens.mk_tf(lib.rox, a["t"])
    if "b" in a:
        return build(lib, a["b"])
    return copy.deepcopy(a["s"])


def _tess_joint(j):
    return {"type": str(j.type), "origin": j.parent_to_joint_origin_transform.matrix(),
            "axis": np.array(j.axis).ravel(), "parent": j.parent_link_name, "child": j.child_link_name,
            "lim": None if j.limits is None else [j.limits.lower, j.limits.upper, j.limits.effort, j.limits.velocity,
                                                  j.limits.acceleration], "name": j.getName()}


def _sg(sg):
    return {"links": sorted(l.getName() for l in sg.getLinks()),
            "joints": sorted((_tess_joint(j) for j in sg.getJoints()), key=lambda d: d["name"])}


def fn(lib, name):
    """callable of the library, or an adapter around one"""
    rox = lib.rox
    if hasattr(rox, name):
        return getattr(rox, name)
    if name == "T_mul":
        return lambda a, b: a * b
    if name == "T_inv":
        return lambda a: a.inv()
    if name == "T_eq":
        return lambda a, b: bool(a == b)
    if name == "T_neq":
        return lambda a, b: bool(a.__neq__(b))
    if name == "T_isclose":
        return lambda a, b: bool(a.isclose(b))
    if name == "T_repr":
        return lambda a: repr(a)
    if name == "T_str":
        return lambda a: str(a)
    if name == "T_new":
        return lambda R, p: rox.Transform(R, p, "a", "b")
    if name == "R_new":
        return lambda H, P, jt, lo, up: rox.Robot(H, P, jt, lo, up)
    if name == "rr_dict":
        return lambda d, n=0: lib.rr.load_robot_info_yaml_to_robot(d, n)
    if name == "rr_tool_dict":
        return lambda d, t, n=0: lib.rr.load_robot_and_tool_info_yaml_to_robot(d, t, n)
    if name == "rr_text":
        return lambda s, n=0: lib.rr.load_robot_info_yaml_to_robot(io.StringIO(s), n)
    if name == "rr_file":
        def rr_file(n, c=0):
            with open(os.path.join(gens.DATA, n), "r") as f:
                return lib.rr.load_robot_info_yaml_to_robot(f, c)
        return rr_file
    if name == "urdf_string":
        return lambda n, root=None, tip=None: lib.urdf.robot_from_xml_string(gens.text(n), root, tip)
    if name == "urdf_file":
        return lambda n, root=None, tip=None: lib.urdf.robot_from_xml_file(os.path.join(gens.DATA, n), None, root, tip)
    if name == "urdf_rel":
        return lambda n: lib.urdf.robot_from_xml_file(os.path.join(REL, n))
    if name == "urdf_xrel":
        return lambda n: lib.urdf.robot_from_xacro_file(os.path.join(REL, n))
    if name == "urdf_xacro":
        return lambda n: lib.urdf.robot_from_xacro_file(os.path.join(gens.DATA, n))
    if name.startswith("msg_"):
        return getattr(lib.ros_msg, name[4:])
    if name == "tess_iso":
        return lambda T: lib.tesseract.isometry3d_to_transform(lib.tesseract.transform_to_isometry3d(T))
    if name == "tess_iso_m":
        return lambda T: lib.tesseract.transform_to_isometry3d(T).matrix()
    if name == "tess_link":
        def tl(h, p, jt):
            l, j = lib.tesseract.get_link_and_joint(h, p, jt, -1.0, 1.5, 2.0, 3.0, 4.0, "lk", "jt", "par")
            return l.getName(), _tess_joint(j)
        return tl
    if name == "tess_fixed":
        def tf(T):
            l, j = lib.tesseract.get_fixed_link_and_joint(T, "lk", "jt", "par")
            return l.getName(), _tess_joint(j)
        return tf
    if name == "tess_base":
        return lambda r, n: _tess_joint(lib.tesseract.get_robot_world_to_base_joint(r, n))
    if name == "tess_sg":
        def tsg(r):
            sg, a, b, c = lib.tesseract.robot_to_scene_graph(r, True)
            return _sg(sg), list(a), list(b), list(c)
        return tsg
    if name == "tess_plugin":
        def tp(r, n, solver):
            return lib.tesseract.kinematics_plugin_info_string(r, n, [n + "_base_link", n + "_tip"], ["j1"],
                                                               [n + "_base_link", n + "_l1"], solver)
        return tp
    if name == "tess_plugin2":
        def tp2(r, n, libs):
            info = {"inv_kin_plugins": {n: {"default": "X", "plugins": {"X": {"class": "XF", "config": {}}}}}}
            return lib.tesseract.kinematics_plugin_info_string(r, n, [n + "_base_link", n + "_tip"], ["j1"],
                                                               [n + "_base_link", n + "_l1"], None, (info, libs))
        return tp2
    if name == "tess_pdict":
        return lambda r, n, solver: lib.tesseract.kinematics_plugin_info_dict(
            r, n, [n + "_base_link", n + "_tip"], ["j1"], [n + "_base_link", n + "_l1"], solver)
    if name == "tess_sol":
        return lambda n, solver: lib.tesseract.kinematics_plugin_invkin_kdl_plugin_info_dict(n, "b", "t", solver)
    if name == "tess_opw":
        return lambda r: lib.tesseract.robot_to_opw_inv_kin_parameters(r)
    if name == "tess_ur":
        return lambda r: lib.tesseract.robot_to_ur_inv_kin_parameters(r)
    if name == "tess_cmds":
        def tc(r, n):
            cmds, a, b = lib.tesseract.robot_to_tesseract_env_commands(r, n, True, True)
            return len(cmds), list(a), list(b)
        return tc
    if name == "tess_fk":
        return lambda t, q: t.fwdkin(q)
    if name == "tess_jac":
        return lambda t, q: t.jacobian(q)
    if name == "tess_ik":
        return lambda t, T, q: t.invkin(T, q)
    if name == "tess_red":
        return lambda t, q: t.redundant_solutions(q)
    if name == "tess_new":
        def tn(r, n, solver, q):
            t = lib.tesseract.TesseractRobot(r, n, solver)
            return t.fwdkin(q), t.jacobian(q), t.base_link_name, t.tip_link_name
        return tn
    raise ValueError("unknown function " + name)


def call(lib, heap, op, keep=False):
    """canonical result of one operation; library exceptions become ["exc", type]"""
    f = fn(lib, op["f"])
    a = [arg(lib, heap, x) for x in op.get("a", [])]
    kw = {k: arg(lib, heap, x) for k, x in op.get("kw", {}).items()}
    try:
        r = f(*a, **kw)
    except Exception as e:
        r = e
    if keep:
        return canon(r), r, a
    return canon(r)


def call_args(lib, heap, op):
    return (fn(lib, op["f"]), [arg(lib, heap, x) for x in op.get("a", [])],
            {k: arg(lib, heap, x) for k, x in op.get("kw", {}).items()})


# -- generation -----------------------------------------------------------------

class Heap(object):
    """specs of the objects of a run, with indices by kind"""

    def __init__(self):
        self.specs = []

    def add(self, s):
        self.specs.append(s)
        return len(self.specs) - 1

    def of(self, k):
        return [i for i, s in enumerate(self.specs) if s["k"] == k]


SPECIAL_P = [[0., 0., 0.], [1., 0., 0.], [0., 1., 0.], [0., 0., 1.], [0., 0., -1.], [-1., 0., 0.], [1., 1., 1.], [0., 0., 1e-9]]


def _lay(rng):
    return rng.choice(["C", "C", "C", "F", "view", "off"])


def gen_heap(rng, tess=False, robots=2, kinds=("named", "chain", "sph", "ur", "sph"), planned=0):
    h = Heap()
    for _ in range(robots):
        h.add({"k": "robot", "d": gens.rnd_robot(rng, kinds), "l": rng.choice(["C", "C", "F"])})
    for _ in range(2):
        h.add({"k": "tf", "d": gens.rnd_tf(rng, labels=True), "l": _lay(rng)})
    h.add({"k": "arr", "v": gens.rnd_axis(rng), "l": _lay(rng)})
    h.add({"k": "arr", "v": gens.rnd_R(rng), "l": _lay(rng)})
    h.add({"k": "arr", "v": gens.rnd_q4(rng), "l": _lay(rng)})
    h.add({"k": "arr", "v": gens.rnd_p(rng), "l": _lay(rng)})
    for _ in range(planned):            # robots that environments are made of
        n = rng.choice(sorted(gens.TESS))
        d = gens.named(n)
        if rng.random() < 0.6:
            d["joint_names"] = None
        h.add({"k": "robot", "d": d, "l": rng.choice(["C", "C", "F"]), "planned": n})
    if tess:
        n = rng.choice(sorted(gens.TESS))
        d = gens.named(n)
        h.add({"k": "tess", "d": d, "name": "robot", "solver": gens.TESS[n]})
    return h


SPECIAL_R = [np.eye(3).tolist(), gens.R_of([1, 0, 0], math.pi), gens.R_of([0, 1, 0], math.pi),
             gens.R_of([0, 0, 1], math.pi), gens.R_of([0.6, 0.8, 0], math.pi), gens.R_of([0, 0.6, -0.8], math.pi),
             gens.R_of([1, 0, 0], 1e-8), gens.R_of([0, 0, 1], math.pi / 2), gens.R_of([0, 1, 0], math.pi / 2)]


def _Rarg(rng, h):
    c = rng.random()
    if c < 0.3:
        ids = [i for i in h.of("arr") if np.shape(h.specs[i]["v"]) == (3, 3)]
        if ids:
            return {"o": rng.choice(ids)}
    if c < 0.6:
        return {"v": rng.choice(SPECIAL_R), "l": _lay(rng)}
    return {"v": gens.rnd_R(rng), "l": _lay(rng)}


def _arrarg(rng, h, shape, mk):
    if rng.random() < 0.5:
        ids = [i for i in h.of("arr") if np.shape(h.specs[i]["v"]) == shape]
        if ids:
            return {"o": rng.choice(ids)}
    return {"v": mk(rng), "l": _lay(rng)}


def _k(rng, h):
    return _arrarg(rng, h, (3,), gens.rnd_axis)


def _p(rng, h):
    if rng.random() < 0.15:
        return {"v": rng.choice(SPECIAL_P), "l": rng.choice(["C", "C", "list"])}
    return _arrarg(rng, h, (3,), gens.rnd_p)


def _q4(rng, h):
    if rng.random() < 0.15:
        return {"v": rng.choice([[1., 0, 0, 0], [0, 1., 0, 0], [-1., 0, 0, 0], [0, 0, 0, 1.], [0.5, 0.5, 0.5, 0.5]]), "l": _lay(rng)}
    return _arrarg(rng, h, (4,), gens.rnd_q4)


def _T(rng, h):
    if rng.random() < 0.6:
        return {"o": rng.choice(h.of("tf"))}
    if rng.random() < 0.2:
        return {"t": {"R": rng.choice(SPECIAL_R), "p": rng.choice([gens.rnd_p(rng), [0., 0., 0.]])}}
    if rng.random() < 0.12:
        return {"t": {"R": np.eye(3).tolist(), "p": [0., 0., 0.]}}
    return {"t": gens.rnd_tf(rng, labels=True)}


def _ang(rng):
    return {"s": rng.choice([rng.uniform(-7, 7), 0.0, math.pi, -math.pi / 2, 1e-9])}


def perp(rng):
    k = np.array(gens.rnd_axis(rng))
    while True:
        p = np.array([rng.gauss(0, 1) for _ in range(3)])
        p = np.cross(k, p)
        if np.linalg.norm(p) > 0.1:
            break
    from .models import rodrigues
    q = rodrigues(k, rng.uniform(-3, 3)).dot(p)
    return p.tolist(), q.tolist(), k.tolist()


def gen_math(rng, h):
    f = rng.choice(["hat", "invhat", "rot", "R2rot", "screw_matrix", "q2R", "R2q", "q2rot", "rot2q", "quatcomplement",
                    "quatproduct", "quatjacobian", "rpy2R", "R2rpy", "slerp", "subproblem0", "subproblem1",
                    "subproblem2", "subproblem3", "subproblem4", "T_mul", "T_inv", "T_eq", "T_isclose", "T_neq",
                    "T_repr", "T_str", "T_new", "identity_transform", "rot", "rot", "R2rot"])
    if f in ("hat", "screw_matrix"):
        return {"f": f, "a": [_p(rng, h)]}
    if f == "invhat":
        p = gens.rnd_p(rng)
        return {"f": f, "a": [{"v": [[0, -p[2], p[1]], [p[2], 0, -p[0]], [-p[1], p[0], 0]], "l": _lay(rng)}]}
    if f == "rot":
        return {"f": f, "a": [_k(rng, h), _ang(rng)]}
    if f in ("R2rot", "R2q", "R2rpy"):
        return {"f": f, "a": [_Rarg(rng, h)]}
    if f in ("q2R", "q2rot", "quatcomplement", "quatproduct", "quatjacobian"):
        return {"f": f, "a": [_q4(rng, h)]}
    if f == "rot2q":
        return {"f": f, "a": [_k(rng, h), _ang(rng)]}
    if f == "rpy2R":
        return {"f": f, "a": [_p(rng, h)]}
    if f == "slerp":
        a = _q4(rng, h)
        b = dict(a) if rng.random() < 0.15 else _q4(rng, h)
        return {"f": f, "a": [a, b, {"s": rng.choice([0.0, 1.0, rng.random(), 1.5])}]}
    if f == "subproblem0":
        if rng.random() < 0.3:
            return {"f": f, "a": [{"v": [1., 0, 0]}, {"v": [0, 1., 0]}, {"v": [0, 0, 1.]}]}
        p, q, k = perp(rng)
        return {"f": f, "a": [{"v": p}, {"v": q}, {"v": k}]}
    if f == "subproblem1":
        if rng.random() < 0.5:
            p, q, k = perp(rng)
        else:
            p, q, k = gens.rnd_p(rng), gens.rnd_p(rng), gens.rnd_axis(rng)
        return {"f": f, "a": [{"v": p}, {"v": q}, {"v": k}]}
    if f == "subproblem2":
        from .models import rodrigues
        p = np.array(gens.rnd_p(rng))
        k1, k2 = gens.rnd_axis(rng), gens.rnd_axis(rng)
        q = rodrigues(k1, rng.uniform(-3, 3)).dot(rodrigues(k2, rng.uniform(-3, 3))).dot(p)
        if rng.random() < 0.2:
            q = np.array(gens.rnd_p(rng))
        return {"f": f, "a": [{"v": p.tolist()}, {"v": q.tolist()}, {"v": k1}, {"v": k2}]}
    if f in ("subproblem3", "subproblem4"):
        return {"f": f, "a": [_p(rng, h), {"v": gens.rnd_p(rng)}, _k(rng, h), {"s": rng.uniform(0, 1.2)}]}
    if f in ("T_mul", "T_eq", "T_isclose", "T_neq"):
        return {"f": f, "a": [_T(rng, h), _T(rng, h)]}
    if f in ("T_inv", "T_repr", "T_str"):
        return {"f": f, "a": [_T(rng, h)]}
    if f == "T_new":
        p = _p(rng, h)
        if rng.random() < 0.3:          # column vector
            p = {"v": [[x] for x in gens.rnd_p(rng)], "l": _lay(rng)}
        return {"f": f, "a": [_Rarg(rng, h), p]}
    return {"f": f, "a": []}


def _robot_of(rng, h, pred=None):
    ids = [i for i in h.of("robot") if pred is None or pred(h.specs[i]["d"])]
    return rng.choice(ids) if ids else None


def is_six(d):
    return len(d["joint_type"]) == 6


def is_sph(d):
    H = np.array(d["H"])
    P = np.array(d["P"])
    if H.shape[1] != 6 or abs(H[2, 0]) != 1 or abs(H[1, 1]) != 1 or not np.array_equal(H[:, 1], H[:, 2]) \
            or abs(H[1, 4]) != 1:
        return False
    return not is_ur(d)


def is_ur(d):
    H = np.array(d["H"])
    return bool(H.shape[1] == 6 and abs(H[1, 3]) == 1 and abs(H[2, 4]) == 1 and abs(H[1, 5]) == 1)


def fkpose(d, q):
    from . import models
    R, p = models.fk(d, q)
    return {"R": R.tolist(), "p": p.tolist()}


def gen_kin(rng, h, iters=(1, 3, 15)):
    i = _robot_of(rng, h)
    d = h.specs[i]["d"]
    q = gens.rnd_joints(rng, d)
    c = rng.random()
    out = rng.random() < 0.1
    if out and d["joint_lower_limit"] is not None:
        k = rng.randrange(len(q))
        q[k] = d["joint_upper_limit"][k] + 0.5
    if c < 0.22:
        return {"f": "fwdkin", "a": [{"o": i}, {"v": q}]}
    if c < 0.40:
        return {"f": "robotjacobian", "a": [{"o": i}, {"v": q}]}
    if c < 0.52:
        f = rng.choice(["apply_robot_aux_transforms", "unapply_robot_aux_transforms"])
        return {"f": f, "a": [{"o": i}, _T(rng, h)]}
    if c < 0.62:
        if d["joint_lower_limit"] is None:
            return {"f": "fwdkin", "a": [{"o": i}, {"v": q}]}
        last = [{"v": gens.rnd_joints(rng, d)}] if rng.random() < 0.5 else []
        return {"f": "equivalent_configurations", "a": [{"o": i}, {"b": {"k": "vlist", "v": [q]}}] + last}
    if c < 0.80:
        j = _robot_of(rng, h, lambda x: is_sph(x) or is_ur(x))
        if j is not None:
            return gen_ik(rng, h, j)
        c = 0.9
    T = fkpose(d, gens.rnd_joints(rng, d))
    return {"f": "iterative_invkin", "a": [{"o": i}, {"t": T}, {"v": q}, {"s": rng.choice(iters)}]}


SPECIAL_J = [0.0, -0.0, 1e-9, -3e-8, 1e-5, math.pi, -math.pi, math.pi / 2, 7.0, -20.0, 6.283185]


def gen_ik(rng, h, j):
    d = h.specs[j]["d"]
    f = "ur_invkin" if is_ur(d) else "robot6_sphericalwrist_invkin"
    c = rng.random()
    qq = gens.rnd_joints(rng, d)
    if c < 0.85:
        T = fkpose(d, qq)
    else:
        T = gens.rnd_tf(rng, 5.0)
    a = [{"o": j}, {"t": T}]
    if rng.random() < 0.6:
        last = [x + rng.uniform(-0.3, 0.3) for x in qq]
        if rng.random() < 0.25:
            for n in rng.sample(range(6), rng.randrange(1, 4)):
                last[n] = rng.choice(SPECIAL_J)
        a.append({"v": last, "l": _lay(rng)})
    return {"f": f, "a": a}


def equal_values(rng, d):
    """the document with values that happen to be equal"""
    d = copy.deepcopy(d)
    k = rng.random()
    for j in d["joint_info"]:
        l = j["joint_limits"]
        if k < 0.5:
            l["acceleration"] = l["velocity"]
        if k < 0.2:
            l["upper"] = l["velocity"]
            l["lower"] = -l["upper"]
        if 0.5 <= k < 0.6:
            l["lower"], l["upper"], l["velocity"], l["acceleration"] = -1.0, 1.0, 1.0, 1.0
    if 0.4 <= k < 0.8:
        for c in d["chains"]:
            if isinstance(c.get("current_tool"), dict) and isinstance(c["current_tool"].get("tcp"), dict):
                c["flange_pose"] = copy.deepcopy(c["current_tool"]["tcp"])
            c["P"] = [copy.deepcopy(c["P"][0]) for _ in c["P"]]
    return d


def gen_load(rng, h, docs=None):
    c = rng.random()
    if c < 0.35:
        n = rng.choice(sorted(gens.YAMLS))
        if rng.random() < 0.15:
            return {"f": "rr_text", "a": [{"s": yaml.safe_dump(equal_values(rng, gens.doc(gens.YAMLS[n])))}]}
        return {"f": "rr_text", "a": [{"s": gens.text(gens.YAMLS[n])}]}
    if c < 0.55:
        n = rng.choice(sorted(gens.YAMLS))
        if rng.random() < 0.4:
            return {"f": "rr_dict", "a": [{"s": equal_values(rng, gens.doc(gens.YAMLS[n]))}]}
        return {"f": "rr_dict", "a": [{"s": gens.doc(gens.YAMLS[n])}]}
    if c < 0.65:
        return {"f": "rr_tool_dict", "a": [{"s": gens.doc(gens.YAMLS["sawyer"])}, {"s": gens.doc(gens.GRIPPER)}]}
    if c < 0.78:
        return {"f": rng.choice(["urdf_string", "urdf_file"]), "a": [{"s": "irb6640_180_255_nogeom.urdf"}]}
    if c < 0.83:
        return {"f": rng.choice(["urdf_string", "urdf_file"]), "a": [{"s": "irb6640_180_255_nogeom_twist.urdf"}]}
    if c < 0.87:
        return {"f": rng.choice(["urdf_string", "urdf_file"]), "a": [{"s": "inertial.urdf"}]}
    if c < 0.95:
        tip = rng.choice([[{"s": None}, {"s": "arm_left_link_tool0"}],
                          [{"s": "torso_link_b1"}, {"s": "arm_right_link_tool0"}], []])
        return {"f": "urdf_string", "a": [{"s": "sda10f_nogeom.urdf"}] + tip}
    return {"f": rng.choice(["urdf_xacro", "urdf_xacro", "urdf_xrel"]), "a": [{"s": rng.choice(["irb6640_180_255_nogeom.xacro", "inertial.xacro"])}]}


def gen_files(rng, h):
    """loads of files by several callers"""
    f = rng.choice(["urdf_xacro", "urdf_xrel", "urdf_rel", "urdf_rel", "urdf_file", "rr_file"])
    n = rng.choice(["inertial.", "inertial.", "irb6640_180_255_nogeom."]) + ("xacro" if f in ("urdf_xacro", "urdf_xrel") else "urdf")
    return {"f": f, "a": [{"s": gens.YAMLS[rng.choice(sorted(gens.YAMLS))] if f == "rr_file" else n}]}


def gen_tess(rng, h):
    ids = h.of("tess")
    c = rng.random()
    if not ids or c < 0.35:
        f = rng.choice(["tess_iso", "tess_link", "tess_fixed", "tess_base", "tess_sg", "tess_plugin", "tess_opw",
                        "tess_ur", "tess_cmds", "tess_iso_m", "tess_pdict", "tess_sol"])
        shared = [i for i in h.of("robot") if "planned" in h.specs[i]]
        if shared and rng.random() < 0.5:
            f = rng.choice(["tess_sg", "tess_plugin", "tess_plugin", "tess_cmds", "tess_cmds", "tess_opw", "tess_new"])
        if f == "tess_sol":
            return {"f": f, "a": [{"s": rng.choice(["robot", "left"])}, {"s": "KDLInvKinChainLMA"}]}
        if f in ("tess_iso", "tess_fixed", "tess_iso_m"):
            return {"f": f, "a": [_T(rng, h)]}
        if f == "tess_link":
            return {"f": f, "a": [_k(rng, h), _p(rng, h), {"s": rng.choice([0, 1])}]}
        n = rng.choice(sorted(gens.TESS))
        r = {"b": {"k": "robot", "d": gens.named(n)}}
        if shared and rng.random() < 0.75:
            i = rng.choice(shared)
            n, r = h.specs[i]["planned"], {"o": i}
        if f == "tess_new":
            d = gens.named(n)
            return {"f": f, "a": [r, {"s": rng.choice(["robot", "left"])}, {"s": gens.TESS[n]}, {"v": gens.rnd_joints(rng, d)}]}
        if f == "tess_base":
            return {"f": f, "a": [r, {"s": rng.choice(["robot", "left"])}]}
        if f in ("tess_plugin", "tess_pdict"):
            return {"f": f, "a": [r, {"s": rng.choice(["robot", "left"])}, {"s": gens.TESS[n]}]}
        if f == "tess_cmds":
            return {"f": f, "a": [r, {"s": rng.choice(["robot", "left"])}]}
        return {"f": f, "a": [r]}
    i = rng.choice(ids)
    d = h.specs[i]["d"]
    q = gens.rnd_joints(rng, d)
    if c < 0.6:
        return {"f": "tess_fk", "a": [{"o": i}, {"v": q}]}
    if c < 0.8:
        return {"f": "tess_jac", "a": [{"o": i}, {"v": q}]}
    if c < 0.93:
        return {"f": "tess_ik", "a": [{"o": i}, {"t": fkpose(d, q)}, {"v": [x * 0.9 for x in q]}]}
    return {"f": "tess_red", "a": [{"o": i}, {"v": q}]}


def gen_msg(rng, h):
    f = rng.choice(["q2msg", "R2msg", "p2msg", "p2point_msg", "transform2msg", "transform2transform_stamped_msg",
                    "transform2pose_msg", "transform2pose_stamped_msg", "twist2msg", "wrench2msg"])
    if f == "q2msg":
        a = _q4(rng, h)
    elif f == "R2msg":
        a = _Rarg(rng, h)
    elif f in ("p2msg", "p2point_msg"):
        a = _p(rng, h)
    elif f in ("twist2msg", "wrench2msg"):
        a = {"v": gens.rnd_p(rng) + gens.rnd_p(rng)}
    else:
        a = _T(rng, h)
    return {"f": "msg_" + f, "a": [a]}


def gen_op(rng, h, mix):
    """mix: {"math": w, "kin": w, "ik": w, "load": w, "tess": w, "msg": w}"""
    ks = sorted(k for k in mix if mix[k] > 0)
    k = rng.choices(ks, [mix[x] for x in ks])[0]
    if k == "math":
        return gen_math(rng, h)
    if k == "kin":
        return gen_kin(rng, h)
    if k == "ik":
        j = _robot_of(rng, h, lambda x: is_sph(x) or is_ur(x))
        return gen_ik(rng, h, j) if j is not None else gen_kin(rng, h)
    if k == "load":
        return gen_load(rng, h)
    if k == "files":
        return gen_files(rng, h)
    if k == "tess":
        return gen_tess(rng, h)
    if k == "msg":
        return gen_msg(rng, h)
    raise ValueError(k)


_base_cache = {}


def baseline(spec_heap, op, edits=None):
    """result of the operation alone in a fresh library instance"""
    lib = _lib.fresh("plain")
    need = sorted({a["o"] for a in list(op.get("a", [])) + list(op.get("kw", {}).values()) if "o" in a})
    heap = {i: build(lib, spec_heap[i]) for i in need}
    with _lib.Active(lib):
        return call(lib, heap, op)
