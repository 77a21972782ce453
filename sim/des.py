"""Discrete event queue on a simulated clock (integer nanoseconds)."""
import heapq
import itertools


class Des(object):
    def __init__(self, start=10 ** 12):
        self.now = start
        self.start = start
        self.q = []
        self.n = itertools.count()
        self.on_now = None

    def at(self, t, fn, *a):
        heapq.heappush(self.q, (max(int(t), self.now), next(self.n), fn, a))

    def after(self, dt, fn, *a):
        self.at(self.now + int(dt), fn, *a)

    def step(self, until=None):
        """run the next event not later than `until`; False if there is none"""
        if not self.q or (until is not None and self.q[0][0] > until):
            return False
        t, _, fn, a = heapq.heappop(self.q)
        self.now = max(self.now, t)
        if self.on_now is not None:
            self.on_now()
        fn(*a)
        return True

    def run(self, until=None, limit=200000):
        k = 0
        while self.step(until):
            k += 1
            if k > limit:
                raise RuntimeError("too many events")
        if until is not None and self.now < until:
            self.now = until

    @property
    def seconds(self):
        return (self.now - self.start) / 1e9


# -- client tasks: real threads, exactly one of which (or the event loop) runs ------

import threading as _th
_RealLock = _th.Lock
_tasks = {}


def current_task():
    return _tasks.get(_th.get_ident())


class TaskAbort(BaseException):
    pass


class Task(object):
    def __init__(self, des, fn, name):
        self.des, self.fn, self.name = des, fn, name
        self.go, self.back = _RealLock(), _RealLock()
        self.go.acquire()
        self.back.acquire()
        self.done = False
        self.error = None
        self.killed = False
        self.th = _th.Thread(target=self._body, daemon=True)

    def start(self):
        self.th.start()
        self.resume()

    def _body(self):
        _tasks[_th.get_ident()] = self
        self.go.acquire()
        try:
            if not self.killed:
                self.fn()
        except TaskAbort:
            pass
        except BaseException as e:
            self.error = e
        self.done = True
        _tasks.pop(_th.get_ident(), None)
        self.back.release()

    def resume(self):
        if self.done:
            return
        self.go.release()
        self.back.acquire()
        if self.done:
            self.th.join()

    def sleep(self, ns):
        """called from the task's own thread"""
        if self.killed:
            raise TaskAbort()
        self.des.after(max(1, ns), self.resume)
        self.back.release()
        self.go.acquire()
        if self.killed:
            raise TaskAbort()

    def kill(self):
        if not self.done:
            self.killed = True
            if self.th.ident is None:       # never started
                self.done = True
                return
            self.resume()
