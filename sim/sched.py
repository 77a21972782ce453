"""Deterministic thread scheduler over sys.monitoring INSTRUCTION events.

Simulated threads are real threads, of which exactly one holds the baton.  At
every bytecode of the library (code objects registered through lib._on_code)
the scheduler may pass the baton on, or raise an injected exception.  All
decisions are either drawn from a seeded strategy and recorded, or replayed
from such a record: switches are [thread, local step, next thread].
"""
import dis
import random
import sys
import threading
import types

from . import des as _des, lib as _lib

mon = sys.monitoring
TOOL = 4
_RealLock = threading.Lock
_RealRLock = threading.RLock
_get_ident = threading.get_ident


class SimInterrupt(KeyboardInterrupt):
    """asynchronous interruption injected by the simulator"""


class SimAbort(BaseException):
    """unwinds simulated threads once the run is decided"""


class SimHang(SimAbort):
    pass


class SimDeadlock(SimAbort):
    pass


_opnames = {}
_ops_of = {}       # id(code) -> bytes
_store_ops = set()
for _n in ("STORE_SUBSCR", "STORE_ATTR", "STORE_GLOBAL", "STORE_SLICE", "DELETE_SUBSCR", "DELETE_ATTR",
           "LIST_APPEND", "BINARY_OP", "POP_TOP"):
    if _n in dis.opmap:
        _store_ops.add(dis.opmap[_n])
_call_ops = set(dis.opmap[n] for n in ("CALL", "CALL_FUNCTION_EX") if n in dis.opmap)
_strict_store = set(dis.opmap[n] for n in ("STORE_SUBSCR", "STORE_ATTR", "STORE_GLOBAL", "STORE_SLICE")
                    if n in dis.opmap)

# clean-up instructions at which CPython never delivers an exception and which no handler covers
_no_raise = set(dis.opmap[n] for n in ("PUSH_EXC_INFO", "POP_EXCEPT", "RERAISE", "COPY") if n in dis.opmap)

_state_ops = set(dis.opmap[n] for n in ("STORE_GLOBAL", "STORE_ATTR", "DELETE_ATTR", "DELETE_GLOBAL") if n in dis.opmap)
_touch_ops = _call_ops | _strict_store
_LOAD_GLOBAL = dis.opmap.get("LOAD_GLOBAL", -1)
_PUSH_EXC = dis.opmap.get("PUSH_EXC_INFO", -1)
_plain = (types.ModuleType, types.FunctionType, types.BuiltinFunctionType, type, float, int, str, bytes, tuple, frozenset,
          type(None), types.MethodType)
_global_names = {}      # id(code) -> {offset: name}
_guarded = {}           # id(code) -> offsets inside a try or with block


def _name_at(code, offset):
    d = _global_names.get(id(code))
    if d is None:
        d = _global_names[id(code)] = {i.offset: i.argval for i in dis.get_instructions(code) if i.opcode == _LOAD_GLOBAL}
    return d.get(offset)


def state_global(code, offset, g):
    """the instruction loads a module level object that calls could share"""
    n = _name_at(code, offset)
    if n is None or n not in g:
        return False
    v = g[n]
    return not isinstance(v, _plain) and not callable(v)


def touches(code, offset):
    return _ops_of[id(code)][offset] in _touch_ops


def guarded(code):
    """offsets at which an exception would be caught by the function itself"""
    d = _guarded.get(id(code))
    if d is None:
        d = set()
        co = code.co_code
        for e in dis._parse_exception_table(code):
            if co[e.target] == _PUSH_EXC:
                d.update(range(e.start, e.end, 2))
        _guarded[id(code)] = d
    return d


_sheltered = {}
_gap_ops = set(dis.opmap[n] for n in ("NOP", "STORE_FAST", "STORE_NAME", "STORE_DEREF", "POP_TOP", "LOAD_CONST", "CACHE", "SWAP")
               if n in dis.opmap)


def sheltered(code):
    """offsets at which no Python function could be interrupted without a trace: the clean-up of its own try or with blocks
    (also where it runs on the normal path) and the step from an acquisition into the block that protects it"""
    d = _sheltered.get(id(code))
    if d is not None:
        return d
    d = set()
    ins = list(dis.get_instructions(code))
    at = {i.offset: k for k, i in enumerate(ins)}
    line, cur = {}, None
    for i in ins:
        p = i.positions.lineno if i.positions is not None else None
        line[i.offset] = p
    table = dis._parse_exception_table(code)
    handlers = {e.target for e in table if code.co_code[e.target] == _PUSH_EXC}
    lines = set()
    for h in handlers:
        body = [i for e in table for i in ins
                if e.start <= i.offset < e.end and e.start <= h < e.end and code.co_code[e.target] != _PUSH_EXC]
        names = {i.opname for i in body}
        if "CHECK_EXC_MATCH" in names or "CHECK_EG_MATCH" in names:
            continue
        d.update(i.offset for i in body)
        if "WITH_EXCEPT_START" not in names:
            lines |= {line[i.offset] for i in body if i.opname not in ("PUSH_EXC_INFO", "RERAISE", "NOP")}
    lines.discard(None)
    protected = guarded(code)
    for k, i in enumerate(ins):
        if line[i.offset] in lines and i.offset not in protected:
            d.add(i.offset)
        if i.opname in ("CALL", "PRECALL") and i.arg == 2 and k >= 3 and \
                all(x.opname == "LOAD_CONST" and x.argval is None for x in ins[k - 3:k]):
            d.update(x.offset for x in ins[k - 3:k + 2])
    for e in table:
        if e.target in handlers and e.start in at:
            k = at[e.start] - 1
            while k >= 0 and ins[k].opcode in _gap_ops and ins[k].offset not in protected:
                d.add(ins[k].offset)
                k -= 1
    d.update(i.offset for i in ins if i.opname == "BEFORE_WITH")
    for k in range(len(ins) - 2, -1, -1):
        if ins[k].opcode in _gap_ops and ins[k].offset not in protected and ins[k + 1].offset in d and \
                ins[k + 1].opname not in ("BEFORE_WITH", "PUSH_EXC_INFO"):
            d.add(ins[k].offset)
    _sheltered[id(code)] = d
    return d


def in_shelter(code, offset, frame):
    """the instruction, or one of the library's calls under way, is clean-up"""
    if offset in sheltered(code):
        return True
    f = frame.f_back
    while f is not None:
        c = f.f_code
        if id(c) in _ops_of and f.f_lasti in sheltered(c):
            return True
        f = f.f_back
    return False


_current = [None]   # active Sched
_keep = []


def _cb(code, offset):
    s = _current[0]
    if s is None:
        return
    t = s.cur
    if t is None or t.ident != _get_ident():
        return
    s.on_instr(t, code, offset)


_registered = False


def install():
    global _registered
    if _registered:
        return
    _registered = True
    mon.use_tool_id(TOOL, "verif-sim")
    mon.register_callback(TOOL, mon.events.INSTRUCTION, _cb)

    def on_code(code):
        _keep.append(code)
        _ops_of[id(code)] = code.co_code
        mon.set_local_events(TOOL, code, mon.events.INSTRUCTION)
    _lib._on_code.append(on_code)
    _patch_locks()


# -- locks -----------------------------------------------------------------

class SimLock(object):
    def __init__(self, reentrant=False):
        self.owner = None
        self.count = 0
        self.reentrant = reentrant

    def _me(self):
        s = _current[0]
        if s is not None and s.cur is not None and s.cur.ident == _get_ident():
            return s.cur
        return ("os", _get_ident())

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        if self.owner is not None and self.reentrant and self.owner == me:
            self.count += 1
            return True
        s = _current[0]
        while self.owner is not None:
            if not blocking:
                return False
            if s is None or isinstance(me, tuple):
                task = _des.current_task()
                if task is not None:        # simulated client: wait on the simulated clock
                    t0 = task.des.now
                    task.sleep(10 ** 6)
                    if timeout is not None and timeout > 0 and task.des.now - t0 >= timeout * 1e9:
                        return False
                    continue
                if timeout is not None and timeout > 0:
                    return False
                raise SimDeadlock("lock is held and nobody can release it")
            s.blocked_on(me, self)
        self.owner = me
        self.count = 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        if self.reentrant and self.owner != self._me():
            raise RuntimeError("cannot release un-acquired lock")
        self.count -= 1
        if self.count <= 0:
            self.owner = None
            self.count = 0

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    # used by threading.Condition
    def _is_owned(self):
        return self.owner == self._me()


def _lock_factory(real, reentrant):
    def make(*a, **k):
        f = sys._getframe(1)
        n = f.f_globals.get("__name__", "")
        if isinstance(n, str) and (n == _lib.PKG or n.startswith(_lib.PKG + ".")):
            return SimLock(reentrant)
        return real(*a, **k)
    return make


def _patch_locks():
    threading.Lock = _lock_factory(_RealLock, False)
    threading.RLock = _lock_factory(_RealRLock, True)


# -- scheduler ---------------------------------------------------------------

class _T(object):
    def __init__(self, idx, fn):
        self.idx = idx
        self.fn = fn
        self.go = _RealLock()
        self.go.acquire()
        self.ident = None
        self.steps = 0
        self.done = False
        self.blocked = None
        self.result = None
        self.error = None
        self.inject = None      # [local step, exception factory]
        self.fired = None


class Sched(object):
    """run(fns) executes the callables as simulated threads.

    plan: {"switches": [[i, n, j], ...]}           replay
          {"seed": s, "strategy": name, ...}       generate
    """

    def __init__(self, plan, step_cap=3000000, on_switch=None, injects=None, step_hook=None, probe=None):
        self.plan = plan
        self.cap = step_cap
        self.on_switch = on_switch
        self.step_hook = step_hook
        self.probe = probe
        self.injects = injects or {}
        self.steps = 0
        self.cur = None
        self.recorded = []
        self.nswitch = 0
        self.blocked_events = []
        self.abort = None
        self.main = _RealLock()
        self.main.acquire()
        self.store_seen = 0
        self.trace_hash = 0

    # strategies -----------------------------------------------------------
    def _setup(self):
        p = self.plan
        self.replay = None
        self._next_at = None
        self.after_store = False
        if "switches" in p:
            self.replay = {}
            for i, n, j in p["switches"]:
                self.replay[(i, n)] = j
            return
        self.rng = random.Random(p["seed"])
        st = p.get("strategy", "gap")
        self.strategy = st
        if st == "gap":
            self.gap = p.get("gap", 200)
            self._next_at = self.steps + 1 + int(self.rng.expovariate(1.0 / self.gap))
        elif st == "pct":
            L = p.get("length", 20000)
            self.points = sorted(self.rng.randrange(1, L) for _ in range(p.get("k", 3)))
            self._next_at = self.points.pop(0) if self.points else None
        elif st == "store":
            self.prob = p.get("prob", 0.05)
            self._next_at = None
        elif st == "call":
            self.prob = p.get("prob", 0.05)
        elif st == "state":
            self.prob = p.get("prob", 0.5)
            self.hot = 0
            self.touched = False
            self.seen = self.probe() if self.probe is not None else None
        elif st == "none":
            pass

    def _decide(self, t, code, offset):
        """returns next thread index or None"""
        if self.replay is not None:
            return self.replay.get((t.idx, t.steps))
        st = self.strategy
        if st == "store" or st == "call":
            if self.after_store:
                self.after_store = False
                if self.rng.random() < self.prob:
                    return self._pick(t)
            ops = _ops_of.get(id(code))
            if ops is not None:
                op = ops[offset]
                if op in (_strict_store if st == "store" else _call_ops) or \
                        (st == "store" and op == _BINARY_OP and ops[offset + 1] >= 13):
                    self.after_store = True
            return None
        if st == "state":
            go = False
            if self.touched:
                self.touched = False
                if self.probe is not None:
                    x = self.probe()
                    if x != self.seen:
                        self.seen = x
                        go = True
            if self.hot > 0:
                self.hot -= 1
                go = go or self.hot == 0
            op = _ops_of[id(code)][offset]
            if op in _touch_ops:
                self.touched = True
            if op in _state_ops:
                self.hot = self.rng.choice((1, 1, 2, 4))
            elif op == _LOAD_GLOBAL and self.hot == 0 and state_global(code, offset, sys._getframe(3).f_globals):
                self.hot = self.rng.choice((1, 2, 3, 4, 6, 9))
            if go and self.rng.random() < self.prob:
                return self._pick(t)
            return None
        if self._next_at is not None and self.steps >= self._next_at:
            if st == "gap":
                self._next_at = self.steps + 1 + int(self.rng.expovariate(1.0 / self.gap))
            else:
                self._next_at = self.points.pop(0) if self.points else None
            return self._pick(t)
        return None

    def _pick(self, t):
        c = [x.idx for x in self.threads if not x.done and x is not t and x.blocked is None]
        if not c:
            return None
        return self.rng.choice(c)

    # events -----------------------------------------------------------------
    def on_instr(self, t, code, offset):
        if self.abort is not None:
            raise SimAbort()
        self.steps += 1
        t.steps += 1
        if self.steps > self.cap:
            self.abort = "hang"
            raise SimHang("step cap %d reached" % self.cap)
        if self.step_hook is not None:
            self.step_hook(t, code, offset)
        inj = t.inject
        if inj is not None and t.steps >= inj[0] and _ops_of[id(code)][offset] not in _no_raise and \
                not in_shelter(code, offset, sys._getframe(2)):
            t.inject = None
            t.fired = (t.steps, code.co_name, offset)
            raise inj[1]()
        j = self._decide(t, code, offset)
        if j is not None and not _lib.importing[0]:
            self._switch(t, j)

    def _switch(self, t, j):
        n = self.threads[j] if j < len(self.threads) else None
        if n is None or n.done or n is t:
            return
        self.recorded.append([t.idx, t.steps, j])
        self.trace_hash = hash((self.trace_hash, t.idx, t.steps, j))
        self.nswitch += 1
        if self.on_switch is not None:
            self.cur = None
            try:
                self.on_switch(t)
            finally:
                self.cur = t
        self._hand(t, n)

    def _hand(self, t, n):
        self.cur = n
        n.go.release()
        t.go.acquire()
        # baton is back
        if self.abort is not None:
            raise SimAbort()

    def yield_now(self, t=None, to=None):
        """voluntary switch used by seams (sleep, I/O)"""
        t = t or self.cur
        c = [x for x in self.threads if not x.done and x is not t and x.blocked is None]
        if not c:
            return False
        n = self.threads[to] if to is not None else c[0]
        self._hand(t, n)
        return True

    def blocked_on(self, t, lock):
        self.blocked_events.append((t.idx, t.steps, getattr(lock.owner, "idx", None)))
        t.blocked = lock
        while True:
            c = [x for x in self.threads if not x.done and x is not t and
                 (x.blocked is None or x.blocked.owner is None)]
            if not c:
                self.abort = "deadlock"
                raise SimDeadlock("all threads wait for locks")
            n = c[0]
            if isinstance(lock.owner, _T) and lock.owner in c:
                n = lock.owner
            self._hand(t, n)
            if lock.owner is None:
                t.blocked = None
                return

    # threads ------------------------------------------------------------------
    def _body(self, t):
        t.go.acquire()
        t.ident = _get_ident()
        try:
            if self.abort is None:
                t.result = t.fn()
        except SimAbort as e:
            t.error = e
        except BaseException as e:      # harness error: callables catch library errors
            t.error = e
            if self.abort is None:
                self.abort = "error"
        t.done = True
        self._finish(t)

    def _finish(self, t):
        rest = [x for x in self.threads if not x.done]
        if not rest:
            self.cur = None
            self.main.release()
            return
        ready = [x for x in rest if x.blocked is None or x.blocked.owner is None]
        if not ready:
            self.abort = self.abort or "deadlock"
            ready = rest
        n = ready[0]
        if self.abort is None:
            if self.replay is not None:
                j = self.replay.get((t.idx, -1))
                if j is not None and j < len(self.threads) and self.threads[j] in ready:
                    n = self.threads[j]
            elif self.plan.get("strategy") != "none":
                n = self.rng.choice(ready)
                self.recorded.append([t.idx, -1, n.idx])
        self.cur = n
        n.go.release()

    def run(self, fns, first=0):
        self.threads = [_T(i, f) for i, f in enumerate(fns)]
        for i, inj in self.injects.items():
            self.threads[int(i)].inject = inj
        self._setup()
        ts = [threading.Thread(target=self._body, args=(t,), daemon=True) for t in self.threads]
        prev = _current[0]
        _current[0] = self
        try:
            for x in ts:
                x.start()
            self.cur = self.threads[first]
            self.threads[first].go.release()
            self.main.acquire()
            for x in ts:
                x.join()
        finally:
            _current[0] = prev
        for t in self.threads:
            if t.error is not None and not isinstance(t.error, SimAbort):
                raise t.error
        return self.threads


_BINARY_OP = dis.opmap.get("BINARY_OP", -1)


class Solo(object):
    """Run one callable in the calling thread under step counting, step cap and
    exception injection (no scheduling)."""

    def __init__(self, step_cap=3000000, inject=None, step_hook=None):
        self.s = Sched({"strategy": "none", "seed": 0}, step_cap=step_cap, step_hook=step_hook)
        self.s._setup()
        t = _T(0, None)
        t.inject = inject
        self.t = t
        self.s.threads = [t]

    def run(self, fn):
        t = self.t
        t.ident = _get_ident()
        prev = _current[0]
        self.s.cur = t
        _current[0] = self.s
        try:
            return fn()
        finally:
            _current[0] = prev

    @property
    def steps(self):
        return self.t.steps

    @property
    def fired(self):
        return self.t.fired
