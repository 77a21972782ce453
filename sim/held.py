"""Values a caller holds: their leaves, copies of them, and writes into them."""
import copy

import numpy as np

from .values import ROBOT_ATTRS, TF_ATTRS


def _children(v):
    """[(label, child, kind of slot)] of a container, or None for a leaf"""
    if isinstance(v, dict):
        return [("[%r]" % (k,), x, k) for k, x in v.items()]
    if isinstance(v, (list, tuple)):
        if hasattr(v, "_fields"):
            return [("." + f, getattr(v, f), None) for f in v._fields]
        return [("[%d]" % i, x, i) for i, x in enumerate(v)]
    n = type(v).__name__
    if n == "Transform" and hasattr(v, "R") and hasattr(v, "p") or n == "Robot" and hasattr(v, "H"):
        return [("." + k, getattr(v, k, None), k) for k in (ROBOT_ATTRS if n == "Robot" else TF_ATTRS)]
    if type(v).__module__.startswith("geometry_msgs") and hasattr(v, "__slots__"):
        return [("." + k, getattr(v, k), k) for k in v.__slots__]
    if hasattr(v, "secs") and hasattr(v, "nsecs"):
        return [(".secs", v.secs, "secs"), (".nsecs", v.nsecs, "nsecs")]
    return None


def leaves(v, path="", out=None, depth=0, parent=None, slot=None):
    """[(path, leaf, parent container, slot)]; aliases are listed once per path"""
    if out is None:
        out = []
    c = _children(v) if depth < 10 else None
    if c is None:
        out.append((path, v, parent, slot))
        return out
    if not c:
        out.append((path, type(v).__name__ + "()", None, None))
    for label, x, s in c:
        leaves(x, path + label, out, depth + 1, v, s)
    return out


def bits(v):
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return repr(v.tolist())
        return (v.shape, np.ascontiguousarray(v, dtype=float).tobytes())
    if isinstance(v, float):
        return v.hex()
    return repr(v) if isinstance(v, (int, str, bool, bytes, np.generic)) or v is None else type(v).__name__


def leafmap(v):
    return {p: bits(x) for p, x, _, _ in leaves(v)}


NOWRITE = "nowrite"


def write(v, leaf_no, kind, amount):
    """write into one leaf of v; returns its path ("*": v itself got another element) or None if it cannot be written"""
    if isinstance(v, list) and (kind == "grow" or not v):
        v.append(amount)
        return "*"
    ls = [l for l in leaves(v) if isinstance(l[1], np.ndarray) or (l[2] is not None and not isinstance(l[2], tuple))]
    if not ls:
        return None
    path, x, parent, slot = ls[leaf_no % len(ls)]
    if isinstance(x, np.ndarray) and x.size and kind != "assign":
        if not x.flags.writeable or x.dtype == object:
            return None
        if kind == "add":
            x[...] = x + amount
        elif kind == "fill":
            x.fill(amount)
        elif kind == "swap":
            x[...] = -x - amount
        else:
            i = (leaf_no // 7) % x.size
            x[np.unravel_index(i, x.shape)] += amount
        return path
    if parent is None or isinstance(parent, tuple):
        return None
    if isinstance(x, np.ndarray):
        new = np.array(x, dtype=float) + amount
    elif isinstance(x, bool):
        new = not x
    elif isinstance(x, (int, np.integer)):
        new = int(x) + 1
    elif isinstance(x, (float, np.floating)):
        new = float(x) + amount
    elif isinstance(x, str):
        new = x + "_w"
    elif x is None:
        if isinstance(parent, (dict, list)) or slot in ("parent_frame_id", "child_frame_id", "root_link_name",
                                                        "tip_link_name"):
            new = "written"
        else:
            return None
    else:
        return None
    if isinstance(parent, (dict, list)):
        parent[slot] = new
    else:
        setattr(parent, slot, new)
    return path


def clone(rox, v, depth=0):
    """copy of v made of objects of another library instance"""
    if isinstance(v, np.ndarray):
        return np.array(v)
    if v is None or isinstance(v, (str, bytes, int, float, bool, np.generic)) or depth > 10:
        return v
    if isinstance(v, dict):
        return {k: clone(rox, x, depth + 1) for k, x in v.items()}
    if isinstance(v, list):
        return [clone(rox, x, depth + 1) for x in v]
    if isinstance(v, tuple):
        return tuple(clone(rox, x, depth + 1) for x in v)
    n = type(v).__name__
    if n == "Transform":
        t = rox.Transform(np.eye(3), np.zeros(3), v.parent_frame_id, v.child_frame_id)
        for k in TF_ATTRS:
            setattr(t, k, clone(rox, getattr(v, k), depth + 1))
        return t
    if n == "Robot":
        kw = {k: clone(rox, x, depth + 1) for k, x in [(k, getattr(v, k, None)) for k in ROBOT_ATTRS]}
        # the constructor checks shapes; contents are then assigned exactly as they are
        z = kw["H"].shape[1]
        H = np.zeros((3, z))
        H[2, :] = 1.0
        r = rox.Robot(H, np.zeros((3, z + 1)), [0] * z)
        for k, x in kw.items():
            setattr(r, k, x)
        return r
    return copy.deepcopy(v)


