"""Independent reference models (no code shared with the library)."""
import math
import re
import xml.dom.minidom

import numpy as np


def rodrigues(k, th):
    k = np.asarray(k, float).ravel()
    x, y, z = k
    c, s = math.cos(th), math.sin(th)
    v = 1 - c
    n2 = x * x + y * y + z * z
    # R = I + s K + (1-c) K^2, also for axes that are not of unit length
    K2 = np.outer(k, k) - n2 * np.eye(3)
    K = np.array([[0, -z, y], [z, 0, -x], [-y, x, 0]])
    return np.eye(3) + s * K + v * K2


def quat_R(q):
    """rotation matrix of a (unit) quaternion w,x,y,z"""
    w, x, y, z = [float(t) for t in q]
    return np.array([
        [1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
        [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
        [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])


def rpy_R(r, p, y):
    return rodrigues([0, 0, 1], y).dot(rodrigues([0, 1, 0], p)).dot(rodrigues([1, 0, 0], r))


def rot_angle(R):
    """angle of a rotation matrix, accurate near 0 and pi"""
    w = np.array([R[2, 1] - R[1, 2], R[0, 2] - R[2, 0], R[1, 0] - R[0, 1]])
    return math.atan2(0.5 * np.linalg.norm(w), 0.5 * (np.trace(R) - 1.0))


def pose_err(Ra, pa, Rb, pb):
    return rot_angle(Ra.T.dot(Rb)), float(np.linalg.norm(np.asarray(pa).ravel() - np.asarray(pb).ravel()))


def fk(spec, q):
    """(R, p) of a robot spec (see gens.robot specs), for joint types 0..3"""
    H = np.asarray(spec["H"], float)
    P = np.asarray(spec["P"], float)
    T = np.eye(4)
    T[:3, 3] = P[:, 0]
    for i in range(H.shape[1]):
        D = np.eye(4)
        if spec["joint_type"][i] in (0, 2):
            D[:3, :3] = rodrigues(H[:, i], q[i])
        else:
            D[:3, 3] = q[i] * H[:, i]
        L = np.eye(4)
        L[:3, 3] = P[:, i + 1]
        T = T.dot(D).dot(L)
    if spec.get("T_flange") is not None:
        T = T.dot(hom(spec["T_flange"]))
    if spec.get("R_tool") is not None and spec.get("p_tool") is not None:
        T = T.dot(hom({"R": spec["R_tool"], "p": spec["p_tool"]}))
    if spec.get("T_base") is not None:
        T = hom(spec["T_base"]).dot(T)
    return T[:3, :3], T[:3, 3]


def hom(t):
    T = np.eye(4)
    T[:3, :3] = np.asarray(t["R"], float)
    T[:3, 3] = np.asarray(t["p"], float).ravel()
    return T


def jac(spec, q):
    """geometric Jacobian (angular on top) in all joint rates, frame of T_base's parent"""
    H = np.asarray(spec["H"], float)
    P = np.asarray(spec["P"], float)
    n = H.shape[1]
    B = hom(spec["T_base"]) if spec.get("T_base") is not None else np.eye(4)
    T = B.copy()
    T[:3, 3] = T[:3, 3] + T[:3, :3].dot(P[:, 0])
    ax, org = [], []
    for i in range(n):
        ax.append(T[:3, :3].dot(H[:, i]))
        D = np.eye(4)
        if spec["joint_type"][i] in (0, 2):
            org.append(T[:3, 3].copy())
            D[:3, :3] = rodrigues(H[:, i], q[i])
        else:
            org.append(None)
            D[:3, 3] = q[i] * H[:, i]
        D[:3, 3] += D[:3, :3].dot(P[:, i + 1])
        T = T.dot(D)
    _, pe = fk(spec, q)
    J = np.zeros((6, n))
    for i in range(n):
        if spec["joint_type"][i] in (0, 2):
            J[:3, i] = ax[i]
            J[3:, i] = np.cross(ax[i], pe - org[i])
        else:
            J[3:, i] = ax[i]
    return J


# -- documents ----------------------------------------------------------------

class CannotInterpret(Exception):
    pass


class Ambiguous(CannotInterpret):
    """can be read in more than one way"""


def _num(x):
    if isinstance(x, bool):
        return float(x)
    if isinstance(x, (int, float)):
        return float(x)
    if isinstance(x, str):
        try:
            return float(x)
        except ValueError:
            raise CannotInterpret("not a number: %r" % x)
    raise CannotInterpret("not a number: %r" % (x,))


def _get(d, k):
    if not isinstance(d, dict) or k not in d:
        raise CannotInterpret("missing " + str(k))
    return d[k]


def _v3(d):
    return [_num(_get(d, "x")), _num(_get(d, "y")), _num(_get(d, "z"))]


def _tf(d):
    if not isinstance(d, dict):
        raise CannotInterpret("pose")
    if "orientation" in d:
        q, p = d["orientation"], _get(d, "position")
    else:
        q, p = _get(d, "rotation"), _get(d, "translation")
    qq = [_num(_get(q, c)) for c in "wxyz"]
    return {"R": quat_R(qq).tolist(), "p": _v3(p), "qn": math.sqrt(sum(t * t for t in qq))}


def _name(x):
    if isinstance(x, str):
        return x
    return _get(x, "name")


def rr_robot(doc, chain_number=0, tool=None):
    """spec of the robot that a Robot Raconteur RobotInfo document describes"""
    if not isinstance(doc, dict):
        raise CannotInterpret("document")
    chains = _get(doc, "chains")
    ji = _get(doc, "joint_info")
    if not isinstance(chains, list) or not isinstance(ji, list):
        raise CannotInterpret("chains/joint_info")
    if not -len(chains) <= chain_number < len(chains):
        raise CannotInterpret("chain number")
    ch = chains[chain_number]
    nums = _get(ch, "joint_numbers")
    if not isinstance(nums, list):
        raise CannotInterpret("joint_numbers")
    n = len(nums)
    for a in nums:
        if not isinstance(a, int) or a < 0 or a >= len(ji):
            raise CannotInterpret("joint number")
    if any(nums[i - 1] >= nums[i] for i in range(1, n)):
        raise CannotInterpret("joint numbers not increasing")
    Hs, Ps = _get(ch, "H"), _get(ch, "P")
    if not isinstance(Hs, list) or not isinstance(Ps, list) or len(Hs) != n or len(Ps) != n + 1:
        raise CannotInterpret("H/P")
    out = {"H": np.array([_v3(h) for h in Hs]).reshape(n, 3).T.tolist(),
           "P": np.array([_v3(p) for p in Ps]).T.tolist()}
    jt, lo, up, ve, ac, nm = [], [], [], [], [], []
    for a in nums:
        j = ji[a]
        t = _get(j, "joint_type")
        if t == "revolute":
            jt.append(0)
        elif t == "prismatic":
            jt.append(1)
        else:
            raise CannotInterpret("joint type")
        lim = _get(j, "joint_limits")
        lo.append(_num(_get(lim, "lower")))
        up.append(_num(_get(lim, "upper")))
        ve.append(_num(_get(lim, "velocity")))
        ac.append(_num(_get(lim, "acceleration")))
        ident = _get(j, "joint_identifier")
        nm.append(_name(ident) if ident is not None else "")
    out.update(joint_type=jt, joint_lower_limit=lo, joint_upper_limit=up, joint_vel_limit=ve,
               joint_acc_limit=ac, joint_names=nm)
    qn = []
    root = None
    li = ch.get("link_identifiers")
    if isinstance(li, list) and li and li[0] is not None:
        root = _name(li[0])
    elif "link_identifiers" in ch and not (isinstance(li, list) or isinstance(li, dict) and not li):
        raise CannotInterpret("link identifiers")
    tip = None
    if _get(ch, "flange_identifier") is not None:
        tip = _name(ch["flange_identifier"])
    f = _tf(_get(ch, "flange_pose"))
    qn.append(f["qn"])
    out["T_flange"] = f
    out["R_tool"] = out["p_tool"] = None
    ct = ch.get("current_tool")
    if ct is not None:
        if not isinstance(ct, dict):
            raise CannotInterpret("tool")
        tcp = ct.get("tcp")
        if tcp is not None:
            t = _tf(tcp)
            qn.append(t["qn"])
            out["R_tool"], out["p_tool"] = t["R"], t["p"]
            di = ct.get("device_info")
            if di is not None:
                tip = _name(_get(di, "device"))
    out["T_base"] = None
    di = doc.get("device_info")
    if di is not None:
        if not isinstance(di, dict):
            raise CannotInterpret("device_info")
        op = di.get("device_origin_pose")
        if op is not None:
            b = _tf(_get(op, "pose"))
            qn.append(b["qn"])
            out["T_base"] = b
    if tool is not None:
        t = _tf(_get(tool, "tcp"))
        qn.append(t["qn"])
        out["R_tool"], out["p_tool"] = t["R"], t["p"]
        tip = _name(_get(_get(tool, "device_info"), "device"))
    out["root_link_name"], out["tip_link_name"] = root, tip
    out["unit_quats"] = all(abs(x - 1) < 1e-6 for x in qn)
    Hn = np.linalg.norm(np.array(out["H"]).reshape(3, -1), axis=0)
    out["unit_axes"] = bool(np.all(np.abs(Hn - 1) < 1e-8))
    return out


def _floats(s):
    return [float(t) for t in s.split()]


def urdf_parse(text):
    """links and joints of a URDF text: joint name -> dict"""
    dom = _dom(text)
    root = dom.documentElement
    links, joints = [], []
    for e in root.childNodes:
        if e.nodeType != e.ELEMENT_NODE:
            continue
        if e.tagName == "link":
            links.append(e.getAttribute("name"))
        elif e.tagName == "joint":
            j = {"name": e.getAttribute("name"), "type": e.getAttribute("type"), "xyz": [0, 0, 0], "rpy": [0, 0, 0],
                 "axis": None, "limit": None}
            once = set()
            for c in e.childNodes:
                if c.nodeType != c.ELEMENT_NODE:
                    continue
                if c.tagName in ("origin", "parent", "child", "axis", "limit"):
                    if c.tagName in once:           # which of the two counts is not specified
                        j["ambiguous"] = True
                    once.add(c.tagName)
                if c.tagName == "origin":
                    if c.hasAttribute("xyz"):
                        j["xyz"] = _floats(c.getAttribute("xyz"))
                    if c.hasAttribute("rpy"):
                        j["rpy"] = _floats(c.getAttribute("rpy"))
                elif c.tagName == "parent":
                    j["parent"] = c.getAttribute("link")
                elif c.tagName == "child":
                    j["child"] = c.getAttribute("link")
                elif c.tagName == "axis":
                    j["axis"] = _floats(c.getAttribute("xyz"))
                elif c.tagName == "limit":
                    j["limit"] = {k: float(c.getAttribute(k)) if c.hasAttribute(k) else None
                                  for k in ("lower", "upper", "velocity", "effort")}
            joints.append(j)
    return links, joints


def _dom(text):
    """the content was read as text: what an XML declaration says about its encoding no longer counts"""
    if isinstance(text, bytes):
        text = text.decode("utf-8")
    text = re.sub(r"""^(<\?xml[^>]*?)\s+encoding\s*=\s*("[^"]*"|'[^']*')""", r"\1", text.lstrip("\ufeff"), count=1)
    return xml.dom.minidom.parseString(text.encode("utf-8"))


def urdf_robot(text, root=None, tip=None):
    """reference chain of an intact URDF document: list of moving joints and an fk function"""
    links, joints = urdf_parse(text)
    if any(j.get("ambiguous") for j in joints):
        raise Ambiguous("repeated element")
    by_child = {j["child"]: j for j in joints}
    if len(by_child) != len(joints) or len({j["name"] for j in joints}) != len(joints):
        raise CannotInterpret("duplicate joints")
    links = list(dict.fromkeys(links))
    if any(j["parent"] not in links or j["child"] not in links for j in joints):
        raise CannotInterpret("undeclared link")
    parents = {j["parent"] for j in joints}
    if root is None:
        r = [l for l in links if l not in by_child]
        if len(r) != 1:
            raise CannotInterpret("root")
        root = r[0]

    for j in joints:
        t, k = j["child"], 0
        while t in by_child:
            t, k = by_child[t]["parent"], k + 1
            if k > len(joints):
                raise CannotInterpret("loop")

    def path(t):
        out = []
        while t != root:
            if t not in by_child:
                return None
            j = by_child[t]
            out.append(j)
            if len(out) > len(joints):
                raise CannotInterpret("loop")
            t = j["parent"]
        return out[::-1]
    if tip is None:
        c = []
        for l in links:
            if l in parents:
                continue
            p = path(l)
            if p is None or any(j["type"] == "floating" for j in p) or all(j["type"] == "fixed" for j in p):
                continue
            c.append(l)
        if len(c) != 1:
            raise CannotInterpret("tips")
        tip = c[0]
    ch = path(tip)
    if not ch:
        raise CannotInterpret("chain")
    mov = [j for j in ch if j["type"] != "fixed"]
    if any(j["type"] not in ("revolute", "prismatic") for j in mov):
        raise CannotInterpret("joint type")

    def fkf(q):
        T = np.eye(4)
        i = 0
        for j in ch:
            O = np.eye(4)
            O[:3, :3] = rpy_R(*j["rpy"])
            O[:3, 3] = j["xyz"]
            T = T.dot(O)
            if j["type"] != "fixed":
                D = np.eye(4)
                ax = j["axis"] if j["axis"] is not None else [1, 0, 0]
                if j["type"] == "revolute":
                    D[:3, :3] = rodrigues(ax, q[i])
                else:
                    D[:3, 3] = q[i] * np.asarray(ax, float)
                T = T.dot(D)
                i += 1
        return T[:3, :3], T[:3, 3]
    return {"joints": mov, "fk": fkf, "root": root, "tip": tip, "links": links, "all_joints": joints}
