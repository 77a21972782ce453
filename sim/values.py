"""Canonical form, exact digest and tolerant comparison of values."""
import hashlib
import math
import struct

import numpy as np


ROBOT_ATTRS = ("H", "P", "joint_type", "joint_lower_limit", "joint_upper_limit", "joint_vel_limit", "joint_acc_limit",
               "M", "R_tool", "p_tool", "joint_names", "root_link_name", "tip_link_name", "T_flange", "T_base")
TF_ATTRS = ("R", "p", "parent_frame_id", "child_frame_id")


def canon(v, _depth=0):
    """Plain nested structure of v (lists, floats, strings, dicts)."""
    if _depth > 12:
        return "<deep>"
    if v is None or isinstance(v, (bool, str)):
        return v
    if isinstance(v, (int, np.integer)) and not isinstance(v, bool):
        return int(v)
    if isinstance(v, (float, np.floating)):
        return float(v)
    if isinstance(v, np.bool_):
        return bool(v)
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return ["arr", list(v.shape), [canon(x, _depth + 1) for x in v.ravel().tolist()]]
        return ["arr", list(v.shape), v.astype(np.float64).ravel().tolist()]
    if isinstance(v, BaseException):
        return ["exc", type(v).__name__]
    if isinstance(v, bytes):
        return ["bytes", v.hex()]
    if isinstance(v, dict):
        return {str(k): canon(x, _depth + 1) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return ["seq", [canon(x, _depth + 1) for x in v]]
    n = type(v).__name__
    if n == "Transform" and hasattr(v, "R") and hasattr(v, "p"):
        return {"T.R": canon(v.R, _depth + 1), "T.p": canon(v.p, _depth + 1), "parent": canon(v.parent_frame_id),
                "child": canon(v.child_frame_id)}
    if n == "Robot" and hasattr(v, "H"):
        return {"Robot." + k: canon(getattr(v, k, None), _depth + 1) for k in ROBOT_ATTRS}
    if hasattr(v, "_fields"):
        return {k: canon(getattr(v, k), _depth + 1) for k in v._fields}
    if hasattr(v, "__slots__") and type(v).__module__.startswith("geometry_msgs"):
        return {"msg": n, "f": {k: canon(getattr(v, k), _depth + 1) for k in v.__slots__}}
    if hasattr(v, "secs") and hasattr(v, "nsecs"):
        return ["time", int(v.secs), int(v.nsecs)]
    if isinstance(v, (set, frozenset)):
        return ["set", sorted(repr(canon(x)) for x in v)]
    if isinstance(v, np.generic):
        return canon(v.item())
    return ["obj", n]


def _feed(h, c):
    if c is None:
        h.update(b"N")
    elif isinstance(c, bool):
        h.update(b"b1" if c else b"b0")
    elif isinstance(c, int):
        h.update(b"i%d;" % c)
    elif isinstance(c, float):
        h.update(b"f")
        h.update(struct.pack("<d", c))
    elif isinstance(c, str):
        b = c.encode("utf-8", "surrogatepass")
        h.update(b"s%d:" % len(b))
        h.update(b)
    elif isinstance(c, dict):
        h.update(b"{")
        for k in sorted(c):
            _feed(h, k)
            _feed(h, c[k])
        h.update(b"}")
    else:
        h.update(b"[")
        for x in c:
            _feed(h, x)
        h.update(b"]")


def digest_canon(c):
    h = hashlib.blake2b(digest_size=12)
    _feed(h, c)
    return h.hexdigest()


def bits(v):
    """digest of the exact contents; of a robot also of the attributes the caller can see
    beyond those it was made with"""
    c = canon(v)
    if type(v).__name__ == "Robot" and hasattr(v, "H"):
        c["+"] = {k: canon(x) for k, x in vars(v).items()
                  if not k.startswith("_") and k not in ROBOT_ATTRS}
    return digest_canon(c)


def close(a, b, tol=1e-9):
    """Tolerant comparison of canonical values."""
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b or (isinstance(a, bool) and isinstance(b, bool) and a == b)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
    if type(a) is not type(b):
        if not (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple))):
            return False
    if isinstance(a, dict):
        return sorted(a) == sorted(b) and all(close(a[k], b[k], tol) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(close(x, y, tol) for x, y in zip(a, b))
    return a == b


def finite(v):
    c = canon(v)

    def w(x):
        if isinstance(x, float):
            return math.isfinite(x)
        if isinstance(x, dict):
            return all(w(y) for y in x.values())
        if isinstance(x, (list, tuple)):
            return all(w(y) for y in x)
        return True
    return w(c)


def brief(c, n=200):
    s = repr(c)
    return s if len(s) <= n else s[:n] + "..."


def arrays_in(v, path="", out=None, seen=None, depth=0):
    """all numpy arrays and mutable lists reachable from a value: [(path, obj)]"""
    if out is None:
        out, seen = [], set()
    if v is None or isinstance(v, (str, bytes, int, float, bool, np.generic)) or depth > 10:
        return out
    if id(v) in seen:
        return out
    seen.add(id(v))
    if isinstance(v, np.ndarray):
        out.append((path, v))
        return out
    if isinstance(v, dict):
        out.append((path, v))
        for k, x in v.items():
            arrays_in(x, path + "[%r]" % (k,), out, seen, depth + 1)
        return out
    if isinstance(v, list):
        out.append((path, v))
        for i, x in enumerate(v):
            arrays_in(x, path + "[%d]" % i, out, seen, depth + 1)
        return out
    if isinstance(v, tuple):
        for i, x in enumerate(v):
            arrays_in(x, path + "[%d]" % i, out, seen, depth + 1)
        return out
    n = type(v).__name__
    if n in ("Transform", "Robot") or type(v).__module__.startswith("geometry_msgs"):
        names = ROBOT_ATTRS if n == "Robot" else TF_ATTRS if n == "Transform" else list(v.__slots__)
        out.append((path, v))
        for k in names:
            arrays_in(getattr(v, k, None), path + "." + k, out, seen, depth + 1)
    return out
