"""Documents: URDF, xacro and Robot Raconteur YAML from seeded specs, and corruption of their bytes."""
import math

import numpy as np
import yaml

from . import gens


def _f(x):
    return repr(float(x))


def _v(v):
    return " ".join(_f(x) for x in v)


# what calibration, unit conversion, rounding and hand editing leave in documents
LENGTHS = [1e-7, -3e-6, 5e-5, -8e-4, 0.0, -0.0, 1, 250.0, -1.25e5, 0.1 + 0.2]
ANGLES = [1e-7, -2e-5, 5e-5, -9e-4, 1.5708, -1.57, 3.1416, 3.14159265, 6.2832, -6.28318530718, 12.0, 1]
LIMITS = [{"lower": -1e-3, "upper": 1e-3}, {"lower": 0.25, "upper": 0.25}, {"lower": -1e9, "upper": 1e9}, {"lower": 0.5, "upper": 2.0},
          {"lower": -2.0, "upper": -0.5}, {"lower": 1.0, "upper": -1.0}, {"lower": -3.14159, "upper": 3.14159},
          {"lower": -360.0, "upper": 360.0}, {"velocity": 1e-4}, {"velocity": 1e6, "effort": 1e12}, {"effort": -1.0}]


def _odd(rng, x, odd):
    return rng.choice(odd) if rng.random() < 0.06 else x


def gen_urdf(rng):
    """JSON spec of a URDF: a main chain, fixed links, perhaps a branch"""
    n = rng.randrange(1, 7)
    names = iter(["l%d" % k if rng.random() < 0.7 else "link_%d" % (k * 3) for k in range(40)])
    pre = rng.choice(["", "", "arm_", "r2/"])
    joints = []
    cur = "base" if rng.random() < 0.5 else "world"
    links = [cur]

    def add(parent, typ):
        c = pre + next(names)
        links.append(c)
        j = {"name": pre + "j%d" % len(joints), "type": typ, "parent": parent, "child": c}
        if rng.random() < 0.92:
            if rng.random() < 0.95:
                j["xyz"] = [_odd(rng, round(x, 5), LENGTHS) for x in gens.rnd_p(rng, 0.8)]
            if rng.random() < 0.6:
                j["rpy"] = [round(rng.choice([0.0, math.pi / 2, -math.pi / 2, rng.uniform(-3, 3)]), 12) for _ in range(3)]
                j["rpy"] = [_odd(rng, x, ANGLES) for x in j["rpy"]]
        if typ in ("revolute", "prismatic"):
            a = gens.rnd_axis(rng)
            j["axis"] = [round(x, 15) for x in a]
            if rng.random() < 0.93:
                j["limit"] = {"lower": round(-rng.uniform(0.1, 6), 4), "upper": round(rng.uniform(0.1, 6), 4),
                              "velocity": round(rng.uniform(0.5, 9), 3), "effort": round(rng.uniform(1, 300), 1)}
                if rng.random() < 0.08:
                    j["limit"].update(rng.choice(LIMITS))
                if rng.random() < 0.15:
                    for key in rng.sample(["lower", "upper", "velocity", "effort"], rng.choice([1, 1, 2])):
                        j["limit"][key] = 0.0
        joints.append(j)
        return c
    k = 0
    chain = [cur]
    while k < n:
        if rng.random() < 0.25:
            cur = add(cur, "fixed")
        else:
            cur = add(cur, rng.choice(["planar", "continuous"]) if rng.random() < 0.012 else
                      "revolute" if rng.random() < 0.75 else "prismatic")
            k += 1
        chain.append(cur)
    if rng.random() < 0.6:
        cur = add(cur, "fixed")
        chain.append(cur)
    tip = None
    root = None
    c = rng.random()
    if c < 0.3:                             # a second tip
        b = rng.choice(chain[:-1])
        o = add(b, rng.choice(["revolute", "prismatic", "fixed"]))
        if rng.random() < 0.4:
            o = add(o, "fixed")
        tip = rng.choice([None, cur, cur, o])
    elif c < 0.4:
        add(rng.choice(chain[:-1]), "fixed")
    elif c < 0.48:
        o = add(rng.choice(chain[:-1]), "floating")
        if rng.random() < 0.5:
            add(o, "revolute")
    if rng.random() < 0.15 and len(chain) > 3:
        root = chain[rng.randrange(0, 2)]
    order = list(range(len(joints)))
    if rng.random() < 0.4:
        rng.shuffle(order)
    return {"k": "urdf", "links": links, "joints": [joints[i] for i in order], "root": root, "tip": tip,
            "name": rng.choice(["robot1", "r", "irb"]), "inert": rng.random() < 0.2, "eol": rng.choice(["\n", "\n", "\r\n"]),
            "decl": rng.choice(["", '<?xml version="1.0"?>', '<?xml version="1.0" encoding="utf-8"?>']), "pad": gen_pad(rng), "flat": rng.randrange(8) if rng.random() < 0.4 else None}


def gen_pad(rng):
    """comments that make a document longer than any buffer or chunk"""
    if rng.random() < 0.88:
        return None
    return [rng.choice([4096, 8192, 9000, 20000, 66000, 140000]), rng.random(), rng.choice(["comment", "blank", "spaces"])]


def _pad(lines, pad, mk):
    """the comment as a line of its own, not before the first line nor after the last"""
    if pad:
        k = 2 + int(pad[1] * max(0, len(lines) - 4))
        fill = [mk("filler " * (pad[0] // 7))] if pad[2:] in ([], ["comment"]) else \
            [""] * pad[0] if pad[2] == "blank" else [" " * pad[0]]
        lines = lines[:k] + fill + lines[k:]
    return lines


def _xml_comment(t):
    return "  <!-- %s -->" % t


def joint_xml(j, num=None):
    num = num or (lambda key, v: _v(v) if isinstance(v, list) else _f(v))
    o = '  <joint name="%s" type="%s">' % (j["name"], j["type"])
    if "xyz" in j or "rpy" in j:
        o += "<origin" + (' xyz="%s"' % num("xyz", j["xyz"]) if "xyz" in j else "") + \
            (' rpy="%s"' % " ".join(repr(x) for x in j["rpy"]) if "rpy" in j else "") + "/>"
    o += '<parent link="%s"/><child link="%s"/>' % (j["parent"], j["child"])
    if "axis" in j:
        o += '<axis xyz="%s"/>' % " ".join(repr(x) for x in j["axis"])
    if "limit" in j:
        l = j["limit"]
        o += '<limit lower="%s" upper="%s" velocity="%s" effort="%s"/>' % tuple(
            num(k, l[k]) for k in ("lower", "upper", "velocity", "effort"))
    return o + "</joint>"


def link_xml(s, l):
    if s["inert"]:
        return ('  <link name="%s"><inertial><origin xyz="0 0 0.1"/><mass value="2.0"/><inertia ixx="0.1" ixy="0" ixz="0" '
                'iyy="0.1" iyz="0" izz="0.1"/></inertial></link>' % l)
    return '  <link name="%s"/>' % l


def urdf_text(s):
    o = ([s["decl"]] if s["decl"] else []) + ['<robot name="%s">' % s["name"]]
    o += [link_xml(s, l) for l in s["links"]]
    o += [joint_xml(j) for j in s["joints"]]
    return s["eol"].join(_pad(o + ["</robot>", ""], s.get("pad"), _xml_comment))


def xacro_texts(s, inc):
    """{file: text} of the same robot written as xacro: properties, a macro and an included file"""
    props = []

    def num(key, v):
        if isinstance(v, list):
            return " ".join(num(key, x) for x in v)
        if key == "upper":
            props.append(_f(v))
            return "${p%d}" % (len(props) - 1)
        if key == "lower":
            return "${-1.0*%s}" % _f(-v)
        return _f(v)
    if s.get("flat"):
        return xacro_flat(s, inc)
    js = [joint_xml(j, num) for j in s["joints"]]
    half = len(js) // 2
    X = '<robot name="%s" xmlns:xacro="http://www.ros.org/wiki/xacro">' % s["name"]
    main = ['<?xml version="1.0"?>', X]
    main += ['  <xacro:property name="p%d" value="%s"/>' % (k, p) for k, p in enumerate(props)]
    main += ['  <xacro:include filename="%s"/>' % inc]
    main += ['  <xacro:lk n="%s"/>' % l for l in s["links"]] if not s["inert"] else [link_xml(s, l) for l in s["links"]]
    main += ["  <xacro:jts/>"] + js[half:] + ["</robot>", ""]
    part = ['<?xml version="1.0"?>', X, '  <xacro:macro name="lk" params="n"><link name="${n}"/></xacro:macro>',
            '  <xacro:macro name="jts">'] + js[:half] + ["  </xacro:macro>", "</robot>", ""]
    pad = s.get("pad")
    return s["eol"].join(_pad(main, pad, _xml_comment)), s["eol"].join(_pad(part, pad, _xml_comment))


def xacro_flat(s, inc):
    """the same without macros: the included file holds one joint and everything beyond it"""
    X = '<robot name="%s" xmlns:xacro="http://www.ros.org/wiki/xacro">' % s["name"]
    cut = s["joints"][s["flat"] % len(s["joints"])]
    far = {cut["child"]}
    for _ in s["joints"]:
        far |= {j["child"] for j in s["joints"] if j["parent"] in far}
    a = [link_xml(s, l) for l in s["links"] if l not in far] + [joint_xml(j) for j in s["joints"] if j["child"] not in far]
    b = [link_xml(s, l) for l in s["links"] if l in far] + [joint_xml(j) for j in s["joints"] if j["child"] in far]
    main = ['<?xml version="1.0"?>', X, '  <xacro:include filename="%s"/>' % inc] + a + ["</robot>", ""]
    part = ['<?xml version="1.0"?>', X] + b + ["</robot>", ""]
    pad = s.get("pad")
    return s["eol"].join(_pad(main, pad, _xml_comment)), s["eol"].join(_pad(part, pad, _xml_comment))


# -- Robot Raconteur YAML ----------------------------------------------------------------

def _xyz(rng, s=1.0):
    return dict(zip("xyz", [_odd(rng, round(v, 6), LENGTHS) for v in gens.rnd_p(rng, s)]))


def _axis(rng):
    return dict(zip("xyz", gens.rnd_axis(rng)))


def _pose(rng):
    q = gens.rnd_q4(rng) if rng.random() < 0.7 else [1.0, 0.0, 0.0, 0.0]
    q = dict(zip("wxyz", q))
    if rng.random() < 0.5:
        return {"orientation": q, "position": _xyz(rng, 0.5)}
    return {"rotation": q, "translation": _xyz(rng, 0.5)}


def _ident(rng, name):
    return name if rng.random() < 0.4 else {"name": name, "uuid": "%08x" % rng.getrandbits(32)}


def gen_rr(rng):
    m = rng.randrange(1, 8)
    ji = []
    for k in range(m):
        t = rng.choice(["revolute", "revolute", "prismatic"])
        ji.append({"joint_identifier": _ident(rng, "joint_%d" % (k + 1)) if rng.random() < 0.95 else None,
                   "joint_type": t, "joint_limits": {
                       "lower": round(-rng.uniform(0.2, 6), 5), "upper": round(rng.uniform(0.2, 6), 5),
                       "velocity": round(rng.uniform(0.3, 9), 4), "acceleration": round(rng.uniform(0.3, 30), 4),
                       "effort": 1.0}})
        if rng.random() < 0.08:
            ji[-1]["joint_limits"].update(rng.choice(LIMITS))
        if rng.random() < 0.12:
            ji[-1]["joint_limits"][rng.choice(["lower", "upper", "velocity", "acceleration"])] = rng.choice([0.0, 0, -0.0, 1])
    chains = []
    for c in range(rng.choice([1, 1, 2, 3])):
        nums = sorted(rng.sample(range(m), rng.randrange(1, m + 1))) if c or rng.random() < 0.3 else list(range(m))
        ch = {"kinematic_chain_identifier": "chain%d" % c, "joint_numbers": nums, "H": [_axis(rng) for _ in nums],
              "P": [_xyz(rng, 0.7) for _ in range(len(nums) + 1)],
              "flange_identifier": _ident(rng, "flange%d" % c) if rng.random() < 0.9 else None, "flange_pose": _pose(rng)}
        if rng.random() < 0.6:
            ch["link_identifiers"] = rng.choice([[], [_ident(rng, "base%d" % c)],
                                                 [_ident(rng, "base%d" % c), _ident(rng, "x")], [None]])
        if rng.random() < 0.4:
            ch["current_tool"] = rng.choice([None, gen_tool(rng)])
            if ch["current_tool"] and rng.random() < 0.3:
                del ch["current_tool"]["device_info"]
            if ch["current_tool"] and rng.random() < 0.15:
                ch["current_tool"]["tcp"] = None
        chains.append(ch)
    d = {"joint_info": ji, "chains": chains}
    if rng.random() < 0.6:
        d["device_info"] = {"device": {"name": "robot"}}
        if rng.random() < 0.7:
            d["device_info"]["device_origin_pose"] = {"pose": _pose(rng), "parent_frame": "world"}
    if rng.random() < 0.3:
        d["robot_capabilities"] = ["position_command"]
    if rng.random() < 0.4:
        ks = list(d)
        rng.shuffle(ks)
        d = {k: d[k] for k in ks}
    return d


def gen_tool(rng):
    return {"device_info": {"device": _ident(rng, "tool%d" % rng.randrange(9))}, "tcp": _pose(rng),
            "inertia": {"m": 1.0}}


def rr_text(d, flow=False, pad=None):
    t = yaml.safe_dump(d, default_flow_style=flow or None, sort_keys=False)
    if pad and not flow and isinstance(d, dict) and d:
        ls = t.split("\n")
        tops = [i for i, l in enumerate(ls) if l[:1].isalpha()]
        k = tops[int(pad[1] * len(tops))] if tops else 0
        if pad[2:] in ([], ["comment"]):
            fill = ["# " + "filler " * 10] * (pad[0] // 72)
        else:
            fill = [""] * pad[0] if pad[2] == "blank" else [" " * 60] * (pad[0] // 61)
        t = "\n".join(ls[:k] + fill + ls[k:])
    return t


# -- corruption ------------------------------------------------------------------------------

def gen_corrupt(rng):
    k = rng.choice(["cut", "cut", "flip", "flip", "zero", "dup", "drop", "noise", "digit", "digit", "tail", "empty", "after"])
    return {"k": k, "at": rng.random(), "n": rng.choice([1, 3, 16, 100, 512]), "b": rng.randrange(8), "s": rng.getrandbits(30)}


def corrupt(data, c):
    if not data:
        return data
    n = len(data)
    i = min(n - 1, int(c["at"] * n))
    k = c["k"]
    if k == "cut":
        return data[:i]
    if k == "empty":
        return [b"", b"", b"\n", b"   \r\n", b"\0" * n][c["s"] % 5]
    if k == "after":                        # somebody appended where he should have replaced
        return data + (b"\n---\n", b"\n", b"---\n")[c["s"] % 3] + data[:i if c["s"] % 2 else n]
    if k == "tail":
        return data[:max(0, n - c["n"])]
    if k == "flip":
        return data[:i] + bytes([data[i] ^ (1 << c["b"])]) + data[i + 1:]
    e = min(n, i + c["n"])
    if k == "zero":
        return data[:i] + b"\0" * (e - i) + data[e:]
    if k == "dup":
        return data[:e] + data[i:e] + data[e:]
    if k == "drop":
        return data[:i] + data[e:]
    if k == "noise":
        import random
        r = random.Random(c["s"])
        return data[:i] + bytes(r.getrandbits(8) for _ in range(e - i)) + data[e:]
    if k == "digit":                        # another digit somewhere: still well formed, another robot
        for j in range(n):
            p = (i + j) % n
            if 48 <= data[p] <= 57:
                return data[:p] + bytes([48 + (data[p] - 48 + 1 + c["b"]) % 10]) + data[p + 1:]
    return data


STRUCT = [None, "abc", 7, -1, [], {}, True, "1.5", float("inf")]


def gen_struct(rng):
    """damage to a parsed document: a random node is removed or replaced"""
    return {"path": [rng.random() for _ in range(rng.choice([1, 2, 3, 4, 5, 6]))],
            "do": rng.choice(["del", "del", "set", "swap", "dup", "dup", "append"]), "v": rng.randrange(len(STRUCT))}


def damage(d, c):
    import copy
    d = copy.deepcopy(d)
    parent, key, cur = None, None, d
    last = None
    for x in c["path"]:
        if isinstance(cur, dict) and cur:
            ks = sorted(cur)
        elif isinstance(cur, list) and cur:
            ks = list(range(len(cur)))
        else:
            break
        parent, key = cur, ks[int(x * len(ks)) % len(ks)]
        if isinstance(parent, list):
            last = parent, key
        cur = cur[key]
    if parent is None:
        return d
    if c["do"] in ("dup", "append") and last:       # an entry of the innermost list once more
        last[0].insert(len(last[0]) if c["do"] == "append" else last[1], copy.deepcopy(last[0][last[1]]))
        return d
    if c["do"] == "del":
        del parent[key]
    elif c["do"] == "swap" and isinstance(parent, list) and len(parent) > 1:
        parent[key], parent[key - 1] = parent[key - 1], parent[key]
    else:
        parent[key] = STRUCT[c["v"]]
    return d
