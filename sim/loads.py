"""Load operations of the URDF and Robot Raconteur loaders on simulated files, and their judges."""
import copy
import io
import os
import pathlib
import random

import numpy as np
import yaml

from . import docs, gens, lib as _lib, models, rosstub, simio, values
from .engine import Violation
from .sched import SimHang, SimInterrupt, Solo

SCRATCH = [None]
HARD = ("ENOENT", "EACCES", "EMFILE", "EIO", "EISDIR", "ESTALE", "ENOMEM", "INTR", "MEM", "limit")


def setup():
    rosstub.install()
    d = "/tmp/verif-io-%d" % os.getpid()
    os.makedirs(os.path.join(d, "disk"), exist_ok=True)
    os.makedirs(os.path.join(d, "ref"), exist_ok=True)
    SCRATCH[0] = d
    os.environ["ROS_PACKAGE_PATH"] = os.path.join(d, "disk")
    # third party modules are loaded before any run
    import rospkg, xacro, urdf_parser_py.urdf  # noqa
    import urdf_parser_py.xml_reflection.core as core
    core.on_error = lambda message: None


def teardown():
    d = SCRATCH[0]
    if d and d.startswith("/tmp/verif-io-"):
        simio.wipe(d)
        os.rmdir(d)


# -- generation ---------------------------------------------------------------------------

def gen_policy(rng, p=0.5):
    """faults of one handle"""
    pol = {}
    if rng.random() < 0.5:
        pol["chunk"] = rng.choice([1, 7, 64, 500, 4096])
    if rng.random() < p:
        c = rng.random()
        if c < 0.25:
            pol["open"] = rng.choice(["ENOENT", "EACCES", "EMFILE", "EIO", "ESTALE", "INTR"])
        else:
            pol["at"] = [[rng.choice([0, 0, 1, 2, 5, 20]), rng.choice(["EIO", "EIO", "EINTR", "EINTR", "INTR", "MEM", "ESTALE"])]
                         for _ in range(rng.choice([1, 1, 2]))]
    return pol


def gen_inject(rng):
    if rng.random() < 0.8:
        return None
    return [rng.choice(["interrupt", "memory", "os"]), int(10 ** rng.uniform(0, 3.7))]


INJ = {"interrupt": SimInterrupt, "memory": lambda: MemoryError("simulated"), "os": lambda: OSError(5, "simulated")}
URDF_FILES = ["irb6640_180_255_nogeom.urdf", "irb6640_180_255_nogeom_twist.urdf", "sda10f_nogeom.urdf"]


def gen_urdf_doc(rng, prev):
    if prev and rng.random() < 0.35:
        d = copy.deepcopy(rng.choice(prev))         # nearly the same robot again
        if d["k"] == "urdf" and rng.random() < 0.8:
            j = rng.choice(d["joints"])
            if "xyz" in j:
                j["xyz"][rng.randrange(3)] = round(rng.uniform(-0.9, 0.9), 5)
            elif "limit" in j:
                j["limit"]["upper"] = round(rng.uniform(0.1, 6), 4)
        return d
    if rng.random() < 0.12:
        n = rng.choice(URDF_FILES)
        d = {"k": "data", "file": n, "root": None, "tip": None}
        if n.startswith("sda10f"):
            d.update(rng.choice([{"tip": "arm_left_link_tool0"}, {"root": "torso_link_b1", "tip": "arm_right_link_tool0"}, {}]))
        return d
    return docs.gen_urdf(rng)


URDF_DAMAGE = ["axis", "parent", "swap", "swap", "child", "origin", "limit", "type", "name", "robot", "link", "link"]


def gen_urdf_op(rng, prev, fail=0.35, via=None):
    via = via or rng.choice(["string", "file", "file", "file", "xacro", "xacro", "param"])
    op = {"fam": "urdf", "via": via, "name": "f%d" % rng.randrange(3), "pkg": None}
    if via in ("file", "xacro") and rng.random() < 0.3:
        op["pkg"] = "nosuch_pkg" if rng.random() < 0.08 else rng.choice(["pkg1", "pkg2"])
    if prev and rng.random() < 0.25:
        op["doc"] = None                            # whatever is there
    else:
        op["doc"] = gen_urdf_doc(rng, prev)
        prev.append(op["doc"])
    if via == "xacro" and op["doc"] is not None and op["doc"]["k"] == "data":
        op["doc"] = docs.gen_urdf(rng)
    if rng.random() < fail:
        op["corrupt"] = [dict(docs.gen_corrupt(rng), file=rng.randrange(2)) for _ in range(rng.choice([1, 1, 2]))]
    elif rng.random() < fail * 0.6:
        op["damage"] = [rng.choice(URDF_DAMAGE), rng.randrange(8), rng.choice(["drop", "blank", "word"])]
    op["how"] = rng.choice(["rename", "inplace"])
    if via in ("file", "xacro"):
        op["faults"] = [gen_policy(rng, fail) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
        if rng.random() < 0.25:
            op["event"] = {"doc": gen_urdf_doc(rng, prev), "how": rng.choice(["rename", "inplace", "remove"])}
            if via == "xacro" and op["event"]["doc"]["k"] == "data":
                op["event"]["doc"] = docs.gen_urdf(rng)
            if not op["faults"]:
                op["faults"] = [{"chunk": rng.choice([64, 500, 4096])}]
            f = rng.choice(op["faults"])
            f["chunk"] = f.get("chunk") or rng.choice([64, 500])
            f.setdefault("at", []).append([rng.choice([0, 1, 2, 4]), "event", 0])
        if rng.random() < 0.05:
            op["gone"] = True
        op["path"] = rng.choice(["str", "str", "pathlib", "rel"])
    if via == "param":
        op["value"] = rng.choice(["text"] * 6 + ["missing", "raise", "int", "none", "interrupt"])
        op["key"] = rng.choice([None, "robot_description", "/arm/robot_description", "other"])
    if op["pkg"] in ("pkg1", "pkg2") and rng.random() < 0.2:
        op["move"] = rng.choice(["away", "keep", "copy"])
    if rng.random() < 0.06:
        op["badlink"] = rng.choice(["root", "tip"])
    op["inject"] = gen_inject(rng)
    return op


def gen_rr_src(rng, mk, prev, key, fail):
    s = {"src": rng.choice(["dict", "dict", "text", "text", "StringIO", "BytesIO", "file", "file", "bfile", "str"]),
         "obj": "%s%d" % (key, rng.randrange(2)), "flow": rng.random() < 0.3,
         "again": rng.random() < 0.5, "pad": docs.gen_pad(rng)}
    if prev and rng.random() < 0.4:
        d = copy.deepcopy(rng.choice(prev))
        if rng.random() < 0.8:
            s["damage1"] = "digit"
        s["doc"] = d
    else:
        s["doc"] = mk()
        prev.append(s["doc"])
    if rng.random() < fail:
        if rng.random() < 0.5 and s["src"] != "dict":
            s["corrupt"] = [docs.gen_corrupt(rng) for _ in range(rng.choice([1, 1, 2]))]
        else:
            s["struct"] = [docs.gen_struct(rng) for _ in range(rng.choice([1, 1, 2]))]
    s["pol"] = gen_policy(rng, fail) if s["src"] in ("text", "file", "bfile") else {}
    s["pol"].pop("open", None)
    if s["pol"].get("at") and rng.random() < 0.35:      # a stream that fails in its middle, what follows can still be read
        s["flow"] = False
        s["pad"] = [rng.choice([4096, 9000, 20000]), rng.random(), rng.choice(["blank", "blank", "comment"])]
        s["pol"]["chunk"] = rng.choice([500, 4096, 4096])
        s["pol"]["at"] = [[rng.choice([1, 1, 2, 3]), rng.choice(["EIO", "EIO", "ESTALE", "INTR", "MEM"])]]
    return s


def gen_rr_op(rng, prev, prevt, fail=0.35):
    def mk():
        if rng.random() < 0.12:
            return {"data": rng.choice(sorted(gens.YAMLS.values()))}
        return docs.gen_rr(rng)

    def mkt():
        if rng.random() < 0.1:
            return {"data": gens.GRIPPER}
        return docs.gen_tool(rng)
    op = {"fam": "rr", "robot": gen_rr_src(rng, mk, prev, "r", fail), "tool": None,
          "chain": rng.choice([0, 0, 0, 1, 1, 2, 3]), "how": rng.choice(["pos", "kw"]), "inject": gen_inject(rng)}
    if rng.random() < 0.3:
        op["tool"] = gen_rr_src(rng, mkt, prevt, "t", fail * 0.6)
    return op


# -- execution ------------------------------------------------------------------------------

class Session(object):
    def __init__(self, case, r, handles=False, kind="instr"):
        self.r = r
        self.case = case
        self.handles = handles
        d = SCRATCH[0]
        simio.wipe(os.path.join(d, "disk"))
        simio.wipe(os.path.join(d, "ref"))
        self.disk = simio.Disk(os.path.join(d, "disk"))
        self.pkgdir = {"pkg1": "pkg1", "pkg2": "pkg2"}
        for p in ("pkg1", "pkg2"):
            self.disk.put(p + "/package.xml", b"<package><name>%s</name></package>" % p.encode())
        self.lib = _lib.fresh(kind)
        with _lib.Active(self.lib):
            self.lib.sub("urdf")
            self.lib.sub("robotraconteur")
        self.cur = {}           # file or parameter name -> what it holds: spec, altered
        self.objs = {}
        self.put = {}           # what the caller put into its documents
        self.kept = []
        self.intact = set()
        self.kernel = rosstub.Kernel()
        rosstub.set_kernel(self.kernel)
        self.ok = self.refused = 0

    def close(self):
        rosstub.set_kernel(rosstub.Kernel())
        self.kept = []

    def call(self, fn, inject):
        """(result, exception, fired)"""
        inj = None
        if inject is not None:
            inj = [inject[1], INJ[inject[0]]]
        so = Solo(step_cap=4000000, inject=inj)
        fd0 = simio.fds() if self.handles else None
        out = exc = None
        here = os.getcwd()
        os.chdir(self.disk.root)        # files of one name lie in the working directory and in the packages
        try:
            with _lib.Active(self.lib):
                with self.disk:
                    simio.audit.on = self.handles
                    out = so.run(fn)
        except SimHang as e:
            raise Violation("hang", "the load does not end: %s" % e)
        except BaseException as e:
            exc = e
        finally:
            simio.audit.on = False
            os.chdir(here)
        fired = sorted(set(self.disk.fired))
        self.disk.fired = []
        if so.fired:
            fired.append("async:" + inject[0])
            self.r.keys.add("async@%s" % so.fired[1])
        for f in fired:
            self.r.count("fault:" + f)
        self.fd0 = fd0
        return out, exc, fired

    # -- URDF ------------------------------------------------------------------------------
    def base_text(self, spec):
        if spec["k"] == "data":
            return gens.text(spec["file"]).encode()
        return docs.urdf_text(spec).encode()

    def move(self, pkg, how):
        """the package is installed elsewhere; its old files may stay, but are no longer a package"""
        self.r.count("fault:package moved, files " + {"away": "gone", "keep": "left", "copy": "left, altered"}[how])
        old = self.pkgdir[pkg]
        new = self.pkgdir[pkg] = ("ws/" + pkg) if old == pkg else pkg
        for p in [p for p in self.disk.files if p.startswith(self.disk.path(old) + os.sep)]:
            rel = os.path.relpath(p, self.disk.path(old))
            data = self.disk.files[p].data
            self.disk.put(new + "/" + rel, data)
            if how == "away" or rel == "package.xml":
                self.disk.remove(p)
            elif how == "copy":
                self.disk.put(old + "/" + rel, docs.corrupt(data, {"k": "digit", "at": 0.7, "n": 1, "b": 2}))
        for slot, st in self.cur.items():
            if slot[1] == pkg and slot[0] in ("file", "xacro"):
                st["files"] = [[new + n[len(old):], b] for n, b in st["files"]]

    def contents(self, op, spec, corrupt, damage):
        """[(file name, bytes)], altered"""
        base = (self.pkgdir[op["pkg"]] + "/" if op["pkg"] in self.pkgdir else "") + op["name"]
        if op["via"] == "xacro":
            inc = op["name"] + "_part.xacro"
            a, b = docs.xacro_texts(spec, inc)
            fs = [[base + ".xacro", a.encode()], [base + "_part.xacro", b.encode()]]
        else:
            fs = [[base + ".urdf", self.base_text(spec)]]
        orig = [x[1] for x in fs]
        for c in corrupt or []:
            k = c["file"] % len(fs)
            fs[k][1] = docs.corrupt(fs[k][1], c)
            self.r.count("fault:content " + c["k"])
        if damage:
            fs[-1][1] = urdf_damage(fs[-1][1], damage)
            self.r.count("fault:element damaged")
        if orig == [x[1] for x in fs]:
            self.intact.add(tuple(orig) if len(orig) > 1 else orig[0])
        return fs, orig != [x[1] for x in fs]

    def urdf(self, op):
        r = self.r
        via = op["via"]
        lb = self.lib
        kw = {}
        slot = (via if via in ("xacro", "param", "string") else "file", op["pkg"] if op["pkg"] in ("pkg1", "pkg2") else None,
                op["name"])
        if via == "param":
            slot = ("param", op["key"] or "robot_description")
        if op.get("move") and op["pkg"] in self.pkgdir:
            self.move(op["pkg"], op["move"])
        if op["doc"] is not None:
            fs, altered = self.contents(op, op["doc"], op.get("corrupt"), op.get("damage"))
            self.cur[slot] = {"spec": op["doc"], "files": fs, "altered": altered}
            if via in ("file", "xacro"):
                for n, b in fs:
                    self.disk.put(n, b, op["how"])
        st = self.cur.get(slot)
        spec = st["spec"] if st else None
        if spec:
            for k in ("root", "tip"):
                if spec.get(k) is not None:
                    kw[k + "_link"] = spec[k]
        if op.get("badlink"):
            kw[op["badlink"] + "_link"] = "no_such_link"
        self.disk.plan = [dict(p) for p in op.get("faults", [])]
        n0 = len(self.disk.handles)
        versions = list(st["files"]) if st else []
        removed = []

        def event(_):
            e = op["event"]
            self.r.count("fault:file %s during load" % {"inplace": "overwritten", "rename": "replaced"}.get(e["how"], "removed"))
            if e["how"] == "remove":
                for n, _b in st["files"] if st else []:
                    self.disk.remove(n)
                removed.append(1)
                return
            fs, alt = self.contents(op, e["doc"], None, None)
            for n, b in fs:
                self.disk.put(n, b, e["how"])
            versions.extend(fs)
            self.cur[slot] = {"spec": e["doc"], "files": fs, "altered": False}
        self.disk.on_event = event
        if op.get("gone") and st:
            for n, _b in st["files"]:
                self.disk.remove(n)
            del self.cur[slot]
            removed.append(1)
            r.count("fault:file missing")
        hard = False
        delivered = None
        if via in ("file", "xacro"):
            ext = ".xacro" if via == "xacro" else ".urdf"
            name = op["name"] + ext
            if op["pkg"] is None:
                p = self.disk.path(name)
                arg = {"str": p, "pathlib": pathlib.Path(p), "rel": os.path.relpath(p, self.disk.root)}[op["path"]]
            else:
                arg = name
                kw["package"] = op["pkg"]
            target = self.disk.path((self.pkgdir.get(op["pkg"], op["pkg"]) + "/" if op["pkg"] else "") + name)
            fn = lb.urdf.robot_from_xml_file if via == "file" else lb.urdf.robot_from_xacro_file
            out, exc, fired = self.call(lambda: fn(arg, **kw), op["inject"])
        elif via == "string":
            if st is None:
                return
            text = st["files"][0][1].decode("latin-1")
            fn = lb.urdf.robot_from_xml_string
            out, exc, fired = self.call(lambda: fn(text, **kw), op["inject"])
            delivered = [text.encode("utf-8")]
        else:
            key = op["key"] or "robot_description"
            v = op["value"]
            text = st["files"][0][1].decode("latin-1") if st else None
            if v == "text" and text is None:
                v = "missing"
            def boom(e):
                def f():
                    raise e
                return f
            val = {"text": text, "int": 7, "none": None, "raise": boom(OSError(104, "Connection reset by peer")),
                   "interrupt": boom(SimInterrupt("interrupted"))}.get(v)
            if v == "missing":
                self.kernel.params.pop(key, None)
            else:
                self.kernel.params[key] = val
            if v != "text":
                hard = True
                r.count("fault:parameter " + v)
            if op["key"] is not None:
                kw["key"] = key
            fn = lb.urdf.robot_from_parameter_server
            out, exc, fired = self.call(lambda: fn(**kw), op["inject"])
            delivered = [] if hard else [text.encode("utf-8")]
        handles = self.disk.handles[n0:]
        if any(f.split(":")[1] in HARD for f in fired if not f.startswith("async")):
            hard = True
        # the file may have been renewed since; the next operation sees it as it is
        if removed:
            self.cur.pop(slot, None)
        what = "%s%s(%s%s)" % ({"file": "robot_from_xml_file", "xacro": "robot_from_xacro_file", "string": "robot_from_xml_string",
                                "param": "robot_from_parameter_server"}[via], "", op["name"],
                               "".join(", %s=%s" % kv for kv in sorted(kw.items())))
        r.ev("urdf", via, op["name"], type(exc).__name__ if exc is not None else "robot", ",".join(fired))
        r.keys.add("%s/%s/%s" % (via, type(exc).__name__ if exc is not None else "robot", "+".join(sorted(set(fired)))))
        if exc is None:
            self.ok += 1
        else:
            self.refused += 1
        rk = {k: v for k, v in kw.items() if k in ("root_link", "tip_link")}
        if via == "xacro":
            cands = self._xacro_cands(op, handles, target, versions)
        elif via == "file":
            hs = [h for h in handles if h.name == target]
            if hs:
                cands = [h.delivered() for h in hs]
            else:
                cands = [b for n, b in versions if self.disk.path(n) == target]
            cands = [c for c in cands if c is not None]
        else:
            cands = delivered
        self.kept.append(exc)
        if exc is not None:
            if hard or removed or op["pkg"] == "nosuch_pkg" or any(f.startswith("async") for f in fired):
                return what, out, exc, fired
            if not cands and not fired and not op.get("event") and via in ("file", "xacro"):
                # nothing kept the loader from reading all of it
                cands = [b for n, b in versions if self.disk.path(n) == target] if via == "file" else \
                    [(versions[0][1], versions[1][1])] if len(versions) == 2 else []
            if not cands:
                return what, out, exc, fired
            for c in cands:
                ref = self._model(via, c, rk, versions)
                if ref is None or c not in self.intact:
                    return what, out, exc, fired
            raise Violation("intact-refused", "%s raised %r although the content is intact (faults: %s)" % (
                what, exc, ", ".join(fired) or "none"))
        if out is None or type(out).__name__ != "Robot":
            raise Violation("not-a-robot", "%s returned %r" % (what, out))
        if not cands:
            raise Violation("robot-from-nothing", "%s returned a robot although no content was delivered completely "
                            "(faults: %s)" % (what, ", ".join(fired) or "none"))
        why = None
        for c in cands:
            why = self._matches(via, c, rk, out, versions, op)
            if why is None:
                return what, out, exc, fired
        raise Violation("robot-differs", "%s (faults: %s): %s" % (what, ", ".join(fired) or "none", why))

    def _xacro_cands(self, op, handles, target, versions):
        part = os.path.join(os.path.dirname(target), op["name"] + "_part.xacro")
        hm = [h.delivered() for h in handles if h.name == target]
        hp = [h.delivered() for h in handles if h.name == part]
        if not hm:
            hm = [b for n, b in versions if self.disk.path(n) == target]
        if not hp:
            hp = [b for n, b in versions if self.disk.path(n) == part] or [b""]
        return [(a, b) for a in hm for b in hp if a is not None and b is not None]

    def _model(self, via, c, rk, versions):
        """reference robot of delivered content, or None if it must not or need not be readable"""
        if via == "xacro":
            for k in range(0, len(versions) - 1, 2):
                if (versions[k][1], versions[k + 1][1]) == c:
                    sp = self._spec_of.get(versions[k][1] + versions[k + 1][1])
                    if sp is None:
                        return None
                    c = docs.urdf_text(sp).encode()
                    break
            else:
                return None
        try:
            return models.urdf_robot(c, rk.get("root_link"), rk.get("tip_link"))
        except Exception:
            return None

    _spec_of = {}

    def _matches(self, via, c, rk, out, versions, op):
        m = self._model(via, c, rk, versions)
        if m is not None:
            return urdf_differs(out, m)
        ref = self._reference(via, c, rk, op)
        if isinstance(ref, BaseException):
            return "a robot was returned, the delivered content (%d bytes) is refused with %s otherwise" % (
                len(c) if isinstance(c, bytes) else sum(map(len, c)), type(ref).__name__)
        self.r.count("judged against a fault free load only")
        if via != "xacro":
            try:
                models.urdf_robot(c, rk.get("root_link"), rk.get("tip_link"))
            except models.Ambiguous:
                pass
            except Exception as e:
                return "a robot was returned for content that describes none (%s: %s)" % (type(e).__name__, e)
        a, b = values.canon(ref), values.canon(out)
        if not values.close(a, b):
            return "differs from a fault free load of the delivered content"
        return None

    def _reference(self, via, c, rk, op):
        lb = _lib.fresh("plain")
        d = os.path.join(SCRATCH[0], "ref")
        simio.wipe(d)
        try:
            with _lib.Active(lb):
                if via == "xacro":
                    for n, b in zip((op["name"] + ".xacro", op["name"] + "_part.xacro"), c):
                        with open(os.path.join(d, n), "wb") as f:
                            f.write(b)
                    return lb.urdf.robot_from_xacro_file(os.path.join(d, op["name"] + ".xacro"), **rk)
                if via == "file":
                    with open(os.path.join(d, "x.urdf"), "wb") as f:
                        f.write(c)
                    return lb.urdf.robot_from_xml_file(os.path.join(d, "x.urdf"), **rk)
                return lb.urdf.robot_from_xml_string(c.decode("utf-8"), **rk)
        except Exception as e:
            return e

    # -- Robot Raconteur -----------------------------------------------------------------------
    def _source(self, s):
        """(what is passed, bytes or dict delivered, altered, cleanup)"""
        d = s["doc"]
        if "data" in d and len(d) == 1:
            text = gens.text(d["data"])
            doc = None
        else:
            doc = d
            text = None
        altered = False
        if s["src"] == "dict" and s.get("again") and "d" + s["obj"] in self.put:
            # the caller loads the document it loaded before once more
            self.r.count("documents loaded again")
            doc, altered = self.put["d" + s["obj"]]
            return self.objs["d" + s["obj"]], copy.deepcopy(doc), altered, None
        if s.get("struct"):
            doc = yaml.safe_load(text) if doc is None else doc
            new = doc
            for c in s["struct"]:
                new = docs.damage(new, c)
                self.r.count("fault:node damaged")
            altered = values.canon(new) != values.canon(doc)
            doc, text = new, None
        if s["src"] == "dict":
            doc = yaml.safe_load(text) if doc is None else doc
            doc = copy.deepcopy(doc)
            o = self.objs.setdefault("d" + s["obj"], {})
            o.clear()                    # the same dict object with other contents
            if isinstance(doc, dict):
                o.update(doc)
            self.put["d" + s["obj"]] = copy.deepcopy(o), altered
            return o, copy.deepcopy(o), altered, None
        if text is None:
            text = docs.rr_text(doc, s["flow"], s.get("pad"))
        data = text.encode()
        b0 = data
        for c in s.get("corrupt") or []:
            data = docs.corrupt(data, c)
            self.r.count("fault:content " + c["k"])
        if s.get("damage1") == "digit":
            data = docs.corrupt(data, {"k": "digit", "at": 0.4, "n": 1, "b": 3})
        altered = altered or data != b0
        k = s["src"]
        if k == "BytesIO":
            o = self.objs.setdefault("b" + s["obj"], io.BytesIO())
            if o.closed:
                o = self.objs["b" + s["obj"]] = io.BytesIO()
            o.seek(0)
            o.truncate()
            o.write(data)
            o.seek(0)
            return o, data, altered, None
        if k in ("file", "bfile"):
            n = "%s.yml" % s["obj"]
            self.disk.put(n, data)
            self.disk.who = "caller"
            try:
                with self.disk:
                    f = open(self.disk.path(n), "rb" if k == "bfile" else "r",
                             **({} if k == "bfile" else {"encoding": "utf-8"}))
            finally:
                self.disk.who = "lib"
            raw = self.disk.handles[-1]
            raw.pol = dict(s["pol"])
            return f, (data if k == "bfile" else ("utf8", data)), altered, f
        text = data.decode("latin-1") if not _utf8(data) else data.decode("utf-8")
        if k == "str":
            return text, text, altered, None
        if k == "StringIO":
            o = self.objs.setdefault("s" + s["obj"], io.StringIO())
            if o.closed:
                o = self.objs["s" + s["obj"]] = io.StringIO()
            o.seek(0)
            o.truncate()
            o.write(text)
            o.seek(0)
            return o, o.getvalue(), altered, None
        o = simio.SimText(text, s["pol"], self.disk.fired, s["obj"])
        return o, text, altered, None

    def rr(self, op):
        r = self.r
        lb = self.lib
        srcs = [self._source(op["robot"])] + ([self._source(op["tool"])] if op["tool"] else [])
        streams = [x[0] for x in srcs if hasattr(x[0], "read")]
        if op["tool"]:
            fn = lb.rr.load_robot_and_tool_info_yaml_to_robot
            a = [srcs[0][0], srcs[1][0]]
            kn = "robot_chain_number"
        else:
            fn = lb.rr.load_robot_info_yaml_to_robot
            a = [srcs[0][0]]
            kn = "chain_number"
        k = {}
        if op["chain"]:
            if op["how"] == "kw":
                k[kn] = op["chain"]
            else:
                a.append(op["chain"])
        self.disk.plan = []
        out, exc, fired = self.call(lambda: fn(*a, **k), op["inject"])
        self.kept.append(exc)
        what = "%s(%s, chain %d)" % (fn.__name__, ", ".join(s["src"] for s in [op["robot"]] + ([op["tool"]] if op["tool"] else [])),
                                     op["chain"])
        r.ev("rr", op["robot"]["src"], type(exc).__name__ if exc is not None else "robot", ",".join(fired))
        r.keys.add("%s/%s/%s" % (op["robot"]["src"], type(exc).__name__ if exc is not None else "robot",
                                 "+".join(sorted(set(fired)))))
        hard = any(f.split(":")[1] in HARD for f in fired) or any(f.startswith("async") for f in fired)
        if exc is None:
            self.ok += 1
        else:
            self.refused += 1
        try:
            if exc is not None and hard:
                return what, out, exc, fired, streams
            parsed = []
            for x in srcs:
                d = x[1]
                try:
                    if isinstance(d, dict):
                        parsed.append(d)
                    elif isinstance(d, tuple):
                        parsed.append(yaml.safe_load(io.TextIOWrapper(io.BytesIO(d[1]), encoding="utf-8")))
                    else:
                        parsed.append(yaml.safe_load(d))
                except Exception as e:
                    parsed.append(e)
            ref = None
            try:
                for p in parsed:
                    if isinstance(p, Exception):
                        raise p
                ref = models.rr_robot(parsed[0], op["chain"], parsed[1] if op["tool"] else None)
            except Exception as e:
                ref = e
            if exc is not None:
                if isinstance(ref, Exception) or any(x[2] for x in srcs) or not ref["unit_axes"] or \
                        any(isinstance(x[0], (str, bytes)) for x in srcs):      # text instead of a stream: not promised
                    return what, out, exc, fired, streams
                raise Violation("intact-refused", "%s raised %r although the document is intact (faults: %s)" % (
                    what, exc, ", ".join(fired) or "none"))
            if type(out).__name__ != "Robot":
                raise Violation("not-a-robot", "%s returned %r" % (what, out))
            if isinstance(ref, Exception):
                raise Violation("robot-from-nothing", "%s returned a robot although the delivered document describes none: "
                                "%s %s (faults: %s)" % (what, type(ref).__name__, str(ref)[:200], ", ".join(fired) or "none"))
            why = rr_differs(out, ref)
            if why:
                raise Violation("robot-differs", "%s (faults: %s): %s" % (what, ", ".join(fired) or "none", why))
            return what, out, exc, fired, streams
        finally:
            self.callers = [x[3] for x in srcs if x[3] is not None]
            if not self.handles:
                self.close_callers()

    def close_callers(self):
        for f in self.callers:
            try:
                f.close()
            except ValueError:          # detached by the loader
                pass
        self.callers = []


def _utf8(b):
    try:
        b.decode("utf-8")
        return True
    except UnicodeDecodeError:
        return False


def urdf_damage(data, d):
    """damage one joint element of a URDF text"""
    import re
    text = data.decode("utf-8")
    what, n, how = d
    if what == "swap":          # the parent or child link of one joint becomes another link
        ms = list(re.finditer(r'<(parent|child) link="([^"]*)"', text))
        if not ms:
            return data
        a, b = ms[n % len(ms)], ms[(n * 3 + len(how)) % len(ms)]
        return (text[:a.start(2)] + b.group(2) + text[a.end(2):]).encode()
    pats = {"axis": r"<axis [^>]*/>", "parent": r"<parent [^>]*/>", "child": r"<child [^>]*/>", "origin": r"<origin [^>]*/>",
            "limit": r"<limit [^>]*/>", "type": r' type="[^"]*"', "name": r' name="[^"]*"', "robot": r"</robot>", "link": r"<link .*?/(?:link)?>(?=\s*<)"}
    ms = list(re.finditer(pats[what], text))
    if not ms:
        return data
    m = ms[n % len(ms)]
    s = m.group(0)
    if how == "blank":
        s = re.sub(r'"[^"]*"', '""', s)
    elif how == "word":
        s = re.sub(r'"[^"]*"', '"x y z"', s, 1)
    else:
        s = ""
    return (text[:m.start()] + s + text[m.end():]).encode()


_q = random.Random(5)
QS = [[_q.uniform(-2.5, 2.5) for _ in range(64)] for _ in range(3)]


def spec_of(out):
    """model spec of a robot object"""
    def t(x):
        return None if x is None else {"R": np.asarray(x.R, float).tolist(), "p": np.asarray(x.p, float).ravel().tolist()}
    return {"H": np.asarray(out.H, float).tolist(), "P": np.asarray(out.P, float).tolist(),
            "joint_type": [int(x) for x in np.ravel(out.joint_type)], "T_flange": t(out.T_flange), "T_base": t(out.T_base),
            "R_tool": out.R_tool, "p_tool": out.p_tool}


def _lim(a, b):
    if a is None or b is None:
        return a is None and b is None
    a, b = np.asarray(a, float).ravel(), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all((a == b) | (np.abs(a - b) <= 1e-12 * np.maximum(1, np.abs(b))) |
                                              (np.isnan(a) & np.isnan(b))))


def urdf_differs(out, m):
    """None or how a loaded robot differs from the reference chain"""
    mov = m["joints"]
    n = len(mov)
    if np.asarray(out.H).shape != (3, n) or np.asarray(out.P).shape != (3, n + 1):
        return "H %s P %s for %d joints" % (np.asarray(out.H).shape, np.asarray(out.P).shape, n)
    jt = [0 if j["type"] == "revolute" else 1 for j in mov]
    if [int(x) for x in np.ravel(out.joint_type)] != jt:
        return "joint types %s instead of %s" % (np.ravel(out.joint_type).tolist(), jt)
    if list(out.joint_names or []) != [j["name"] for j in mov]:
        return "joint names %s instead of %s" % (out.joint_names, [j["name"] for j in mov])
    if (out.root_link_name, out.tip_link_name) != (m["root"], m["tip"]):
        return "root and tip %s instead of %s" % ((out.root_link_name, out.tip_link_name), (m["root"], m["tip"]))
    lim = [j["limit"] for j in mov]

    def col(k, d):
        if any(l is None for l in lim):
            return None
        v = [l[k] if l[k] is not None else d for l in lim]
        return None if any(x is None for x in v) else v
    for attr, k, d in (("joint_lower_limit", "lower", 0.0), ("joint_upper_limit", "upper", 0.0),
                       ("joint_vel_limit", "velocity", None)):
        if not _lim(getattr(out, attr), col(k, d)):
            return "%s %s instead of %s" % (attr, getattr(out, attr), col(k, d))
    if out.joint_acc_limit is not None:
        return "acceleration limits %s" % out.joint_acc_limit
    e = getattr(out, "joint_effort_limit", None)
    if e is not None and not _lim(e, col("effort", None)) or e is None and col("effort", None) is not None:
        return "joint_effort_limit %s instead of %s" % (e, col("effort", None))
    sp = spec_of(out)
    for q in QS:
        R1, p1 = models.fk(sp, q[:n])
        R2, p2 = m["fk"](q[:n])
        if not (np.abs(R1 - R2).max() < 1e-7 and np.abs(p1 - p2).max() < 1e-7 * (1 + np.abs(p2).max())):
            return "kinematics differ: at q=%s p=%s instead of %s" % (values.brief(q[:n]), p1.tolist(), p2.tolist())
    return None


def rr_differs(out, ref):
    for k in ("H", "P"):
        a, b = np.asarray(getattr(out, k), float), np.asarray(ref[k], float)
        if a.shape != b.shape or not np.all((a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) < 1e-14)):
            return "%s %s instead of %s" % (k, a.tolist(), b.tolist())
    if [int(x) for x in np.ravel(out.joint_type)] != ref["joint_type"]:
        return "joint types %s instead of %s" % (out.joint_type, ref["joint_type"])
    for k in ("joint_lower_limit", "joint_upper_limit", "joint_vel_limit", "joint_acc_limit"):
        if not _lim(getattr(out, k), ref[k]):
            return "%s %s instead of %s" % (k, getattr(out, k), ref[k])
    if list(out.joint_names) != ref["joint_names"]:
        return "joint names %s instead of %s" % (out.joint_names, ref["joint_names"])
    if (out.root_link_name, out.tip_link_name) != (ref["root_link_name"], ref["tip_link_name"]):
        return "root and tip %s instead of %s" % ((out.root_link_name, out.tip_link_name),
                                                  (ref["root_link_name"], ref["tip_link_name"]))
    def tf(a, b, what):
        if (a is None) != (b is None):
            return "%s is %s" % (what, "missing" if a is None else "there, the document has none")
        if a is not None:
            if not _lim(a[1], np.ravel(b["p"])):
                return "%s position %s instead of %s" % (what, a[1], b["p"])
            if ref["unit_quats"] and not np.abs(np.asarray(a[0], float) - np.array(b["R"])).max() < 2e-6:
                return "%s rotation %s instead of %s" % (what, np.asarray(a[0]).tolist(), b["R"])
    t = {"R": ref["R_tool"], "p": ref["p_tool"]} if ref["R_tool"] is not None else None
    return tf((out.T_flange.R, out.T_flange.p) if out.T_flange is not None else None, ref["T_flange"], "flange") or \
        tf((out.T_base.R, out.T_base.p) if out.T_base is not None else None, ref["T_base"], "base") or \
        tf((out.R_tool, out.p_tool) if out.R_tool is not None else None, t, "tool")
