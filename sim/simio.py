"""Simulated files: a disk under a scratch directory, read through a faulty device.

open() of a path below the scratch directory yields Python's own I/O stack
(TextIOWrapper over BufferedReader) over SimRaw, which takes its bytes from the
simulated disk and its faults from a plan.  The real files are kept in step with
the simulated ones, always with the same modification time.
"""
import builtins
import errno
import io
import os
import shutil
import sys

from .sched import SimInterrupt

real_open = builtins.open
MTIME = 1600000000

ERR = {"ENOENT": (FileNotFoundError, errno.ENOENT), "EACCES": (PermissionError, errno.EACCES),
       "EMFILE": (OSError, errno.EMFILE), "EIO": (OSError, errno.EIO), "EISDIR": (IsADirectoryError, errno.EISDIR),
       "ESTALE": (OSError, errno.ESTALE), "ENOMEM": (OSError, errno.ENOMEM)}


def oserr(name, path):
    c, e = ERR[name]
    return c(e, os.strerror(e), path)


WRITE = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
ALTER = ("os.remove", "os.rename", "os.mkdir", "os.rmdir", "os.truncate", "os.link", "os.symlink", "os.chmod", "os.chown", "os.utime")


class Audit(object):
    """whatever way a loader takes to change a file: it is recorded and refused"""

    def __init__(self):
        self.on = False
        self.seen = []
        self.installed = False

    def install(self):
        if not self.installed:
            self.installed = True
            sys.addaudithook(self.hook)

    def hook(self, event, args):
        if not self.on:
            return
        if event == "open" and isinstance(args[2], int) and args[2] & WRITE or event in ALTER:
            if isinstance(args[0], int) or args[0] in ("/dev/null", b"/dev/null"):
                return
            self.seen.append("%s %s" % (event, args[0]))
            raise PermissionError(errno.EACCES, "simulated", str(args[0]))


audit = Audit()


def unaudited(f):
    def g(*a, **k):
        on, audit.on = audit.on, False
        try:
            return f(*a, **k)
        finally:
            audit.on = on
    return g


class Inode(object):
    def __init__(self, data):
        self.data = bytes(data)


class Disk(object):
    def __init__(self, root):
        self.root = os.path.realpath(root)
        self.files = {}         # absolute path -> Inode
        self.handles = []       # every handle ever opened in this run
        self.plan = []          # policies of the next opens
        self.nopen = 0
        self.who = "lib"
        self.writes = []
        self.limit = None
        self.on_event = None
        self.fired = []

    def path(self, name):
        return os.path.join(self.root, name)

    def put(self, name, data, how="rename"):
        """rename: open handles keep the old file; inplace: they see the new bytes from where they are"""
        p = self.path(name)
        if how == "inplace" and p in self.files:
            self.files[p].data = bytes(data)
        else:
            self.files[p] = Inode(data)
        self._sync(p)

    @unaudited
    def _sync(self, p):
        os.makedirs(os.path.dirname(p), exist_ok=True)
        t = p + ".new~"
        with real_open(t, "wb") as f:
            f.write(self.files[p].data)
        os.replace(t, p)
        os.utime(p, (MTIME, MTIME))

    @unaudited
    def remove(self, name):
        p = self.path(name)
        if p in self.files:
            del self.files[p]
            os.unlink(p)

    def open_handles(self, who=None):
        return [h for h in self.handles if not h.closed and (who is None or h.who == who)]

    def listing(self):
        out = {}
        for d, _, fs in sorted(os.walk(self.root)):
            for f in fs:
                p = os.path.join(d, f)
                with real_open(p, "rb") as g:
                    out[p] = g.read()
        return out

    def changed(self):
        """what differs between the real directory and the simulated disk"""
        l = self.listing()
        return sorted(p for p in set(l) | set(self.files) if l.get(p) != getattr(self.files.get(p), "data", None))

    # the open() the library sees ----------------------------------------------------
    def sim_open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if isinstance(file, int):
            return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        p = os.path.abspath(os.fsdecode(os.fspath(file)))
        inside = p == self.root or p.startswith(self.root + os.sep)
        if any(c in mode for c in "wax+"):
            self.writes.append(p)
            if not inside:
                raise PermissionError(errno.EACCES, "simulated", p)
            return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        if not inside:
            return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        pol = self.plan.pop(0) if self.plan and self.who == "lib" else {}
        self.nopen += 1
        if pol.get("open"):
            e = pol["open"]
            self.fired.append("open:" + e)
            if e == "INTR":
                raise SimInterrupt("interrupted in open")
            raise oserr(e, p)
        if self.limit is not None and len(self.open_handles("lib")) >= self.limit:
            self.fired.append("open:limit")
            raise oserr("EMFILE", p)
        if p not in self.files:
            if os.path.isdir(p):
                raise oserr("EISDIR", p)
            raise oserr("ENOENT", p)
        raw = SimRaw(self, p, self.files[p], pol)
        raw.who = self.who
        self.handles.append(raw)
        if buffering == 0:
            if "b" not in mode:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        buf = io.BufferedReader(raw, buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE)
        if "b" in mode:
            return buf
        t = io.TextIOWrapper(buf, encoding, errors, newline)
        t.mode = mode
        return t

    def __enter__(self):
        builtins.open = self.sim_open
        io.open = self.sim_open
        return self

    def __exit__(self, *a):
        builtins.open = real_open
        io.open = real_open


class SimRaw(io.RawIOBase):
    def __init__(self, disk, path, inode, pol):
        io.RawIOBase.__init__(self)
        self.disk, self.name, self.inode, self.pol = disk, path, inode, pol
        self.pos = 0
        self.nread = 0
        self.out = []
        self.ended = None       # where the device said, last, that the file ends
        self.reached = None     # where it ended when the last byte was given
        self.mode = "rb"
        self._fd = None

    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, off, whence=0):
        if whence == 1:
            off += self.pos
        elif whence == 2:
            off += len(self.inode.data)
        self.pos = max(0, off)
        return self.pos

    def tell(self):
        return self.pos

    def fileno(self):
        if self._fd is None:
            self._fd = os.open(self.name, os.O_RDONLY)
        return self._fd

    def isatty(self):
        return False

    def close(self):
        if self._fd is not None:
            os.close(self._fd)
            self._fd = None
        io.RawIOBase.close(self)

    def readinto(self, b):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        k = self.nread
        self.nread += 1
        for ev in self.pol.get("at", []):
            if ev[0] == k:
                what = ev[1]
                self.disk.fired.append("read:" + what)
                if what == "EINTR":
                    raise InterruptedError(errno.EINTR, "simulated")
                if what == "INTR":
                    raise SimInterrupt("interrupted in read")
                if what == "MEM":
                    raise MemoryError("simulated")
                if what == "event":
                    self.disk.on_event(ev[2])
                else:
                    raise oserr(what, self.name)
        n = len(b)
        c = self.pol.get("chunk")
        if c:
            n = min(n, c)
            if n < len(b) and self.pos + n < len(self.inode.data):
                self.disk.fired.append("read:short")
        d = self.inode.data[self.pos:self.pos + n]
        b[:len(d)] = d
        if d:
            self.out.append((self.pos, d))
        elif len(b):
            self.ended = self.pos
        self.pos += len(d)
        if self.pos == len(self.inode.data):
            self.reached = self.pos
        return len(d)

    def delivered(self):
        """bytes this handle gave from the start to the end of the file, or None if it did not reach the end"""
        buf, want = b"", 0
        for p, d in self.out:
            if p == want:
                buf += d
                want += len(d)
            elif p == 0:
                buf, want = d, len(d)
        if want != self.ended and want != self.reached:
            return None
        return buf


class SimText(io.TextIOBase):
    """a caller's text stream without seeking (a pipe or a socket)"""

    def __init__(self, text, pol, log, name=None):
        io.TextIOBase.__init__(self)
        self.text, self.pol, self.log = text, pol, log
        self.at = 0
        self.nread = 0
        if name is not None:
            self.name = name

    def readable(self):
        return True

    def _take(self, n):
        k = self.nread
        self.nread += 1
        for ev in self.pol.get("at", []):
            if ev[0] == k:
                if ev[1] == "EINTR":        # nobody below a text stream retries
                    ev = [k, "EIO"]
                self.log.append("read:" + ev[1])
                if ev[1] == "INTR":
                    raise SimInterrupt("interrupted in read")
                if ev[1] == "MEM":
                    raise MemoryError("simulated")
                raise oserr(ev[1], "stream")
        m = len(self.text) - self.at if n is None or n < 0 else n
        c = self.pol.get("chunk")
        if c and n is not None and n >= 0:      # read() without a size reads to the end, whatever the chunks
            if c < min(m, len(self.text) - self.at):
                self.log.append("read:short")
            m = min(m, c)
        d = self.text[self.at:self.at + m]
        self.at += len(d)
        return d

    def read(self, n=-1):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        return self._take(n)

    def readline(self, n=-1):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        i = self.text.find("\n", self.at)
        e = len(self.text) if i < 0 else i + 1
        if n is not None and n >= 0:
            e = min(e, self.at + n)
        d = self.text[self.at:e]
        self.at = e
        return d


def fds():
    """descriptors of this process and what they refer to"""
    out = []
    for n in sorted(os.listdir("/proc/self/fd"), key=int):
        try:
            t = os.readlink("/proc/self/fd/" + n)
        except OSError:
            continue
        if not t.endswith("/fd"):
            out.append((int(n), t))
    return out


def wipe(root):
    """empty a scratch directory made by this process"""
    for n in os.listdir(root):
        p = os.path.join(root, n)
        if os.path.isdir(p) and not os.path.islink(p):
            shutil.rmtree(p)
        else:
            os.unlink(p)
