"""Controlled scheduler for the thread pools of the code under test.

Real threads run one at a time.  A scheduling point is a line event in the
traced files; a schedule is the priority order of the workers plus a list of
preemptions (point, worker).  Worker pools have the size which the code asks
for and take tasks in order, as concurrent.futures does.
"""
from __future__ import annotations

import collections
import concurrent.futures as cf
import os
import sys
import threading

LOCAL = threading.local()
TOOL = 4            # sys.monitoring tool id
REAL = cf.ThreadPoolExecutor
ACTIVE = None       # the Controller of the running exploration
WAIT = 20           # seconds until a worker which does not move counts as blocked


class Controller:
    def __init__(self, order=(), switches=(), files=(), coarse=False):
        self.order = list(order)            # priority of workers by rank
        self.switches = dict(switches)      # global point -> worker rank
        self.files = tuple(files)
        self.coarse = coarse
        self.point = 0
        self.alive_at = []                  # per point: (running, alive others)
        self.pools = 0
        self.max_workers = 0
        self.blocked = 0
        self.done_switches = 0



class Pool:
    """Stand-in of ThreadPoolExecutor under a controller."""

    def __init__(self, max_workers=None, *a, **k):
        self._real = REAL(max_workers, *a, **k)    # keeps its argument checks
        self.max_workers = self._real._max_workers
        self.tasks = collections.deque()
        self.futures = []
        self.completed = []         # in the order of completion

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown()
        return False

    def submit(self, fn, *a, **k):
        f = cf.Future()
        self.tasks.append((f, fn, a, k))
        self.futures.append(f)
        return _Lazy(self, f)

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        fs = [self.submit(fn, *args) for args in zip(*iterables)]

        def results():
            for f in fs:
                yield f.result()
        return results()

    def shutdown(self, wait=True, **k):
        self._run()
        self._real.shutdown()

    # -- the controlled execution of everything which is queued
    def _run(self):
        if not self.tasks:
            return
        c = ACTIVE
        n = min(self.max_workers, len(self.tasks))
        c.pools += 1
        c.max_workers = max(c.max_workers, n)
        order = [w for w in c.order if w < n] + [w for w in range(n) if w not in c.order]
        go = [threading.Semaphore(0) for _ in range(n)]
        alive = list(order)
        main = threading.Semaphore(0)
        lock = threading.Lock()
        current = [None]
        tasks = self.tasks

        def hand(to):
            current[0] = to
            go[to].release()

        def worker(w):
            def point():
                c.point += 1
                if len(c.alive_at) < 200000:
                    c.alive_at.append((w, tuple(x for x in alive if x != w)))
                to = c.switches.get(c.point)
                if to is None or to == w or to not in alive:
                    return
                c.done_switches += 1
                hand(to)
                go[w].acquire()

            go[w].acquire()
            LOCAL.point = point
            try:
                while True:
                    try:
                        f, fn, a, k = tasks.popleft()
                    except IndexError:
                        break
                    try:
                        r = fn(*a, **k)
                    except BaseException as e:
                        f.set_exception(e)
                    else:
                        f.set_result(r)
                    self.completed.append(f)
            finally:
                LOCAL.point = None
                with lock:
                    alive.remove(w)
                if alive:
                    hand(alive[0])
                else:
                    main.release()

        ts = [threading.Thread(target=worker, args=(w,), daemon=True) for w in range(n)]
        for t in ts:
            t.start()
        hand(order[0])
        # a worker may block on something a paused worker holds: let others go
        while not main.acquire(timeout=WAIT):
            p = c.point
            others = [x for x in alive if x != current[0]]
            if not others or c.blocked > 50:
                raise RuntimeError("deadlock in worker threads")
            c.blocked += 1
            if c.point == p:
                hand(others[c.blocked % len(others)])
        for t in ts:
            t.join()


class _Lazy:
    """A future which starts the pool when somebody waits for it."""

    def __init__(self, pool, f):
        self._pool, self._f = pool, f

    def result(self, timeout=None):
        self._pool._run()
        return self._f.result(timeout)

    def exception(self, timeout=None):
        self._pool._run()
        return self._f.exception(timeout)

    def done(self):
        self._pool._run()
        return self._f.done()

    def add_done_callback(self, fn):
        self._f.add_done_callback(lambda _: fn(self))

    def __getattr__(self, n):
        return getattr(self._f, n)


REAL_COMPLETED, REAL_WAIT = cf.as_completed, cf.wait


def as_completed(fs, timeout=None):
    """Futures in the order in which the schedule completes them."""
    fs = list(fs)
    lazy = [f for f in fs if isinstance(f, _Lazy)]
    if not lazy:
        return REAL_COMPLETED(fs, timeout)
    for f in lazy:
        f._pool._run()
    rank = {id(x): (k, y) for k, p in enumerate({id(f._pool): f._pool for f in lazy}.values()) for y, x in enumerate(p.completed)}
    return iter([f for f in fs if not isinstance(f, _Lazy)] + sorted(set(lazy), key=lambda f: rank[id(f._f)]))


def wait(fs, timeout=None, return_when=cf.ALL_COMPLETED):
    fs = list(fs)
    if not any(isinstance(f, _Lazy) for f in fs):
        return REAL_WAIT(fs, timeout, return_when)
    return cf._base.DoneAndNotDoneFutures(set(as_completed(fs)), set())


class Executor:
    """Replacement of concurrent.futures.ThreadPoolExecutor."""

    def __new__(cls, *a, **k):
        return REAL(*a, **k) if ACTIVE is None else Pool(*a, **k)


def _event(*a):
    p = getattr(LOCAL, "point", None)
    if p is not None:
        p()


_INSTR = {}


def instrument(files, coarse):
    """Events for the code objects of the traced files only."""
    import gc
    import types
    mon = sys.monitoring
    if mon.get_tool(TOOL) is None:
        mon.use_tool_id(TOOL, "rfmc")
        mon.register_callback(TOOL, mon.events.LINE, _event)
        mon.register_callback(TOOL, mon.events.PY_START, _event)
    ev = mon.events.PY_START if coarse else mon.events.LINE
    if _INSTR.get("files") != files:
        for co in _INSTR.get("codes", ()):
            mon.set_local_events(TOOL, co, 0)
        _INSTR.update(files=files, ev=None)
        codes = set()
        todo = [o.__code__ for o in gc.get_objects() if isinstance(o, types.FunctionType)]
        while todo:
            co = todo.pop()
            if co in codes:
                continue
            fn = co.co_filename
            if any(fn.startswith(f) or fn.endswith(f) for f in files):
                codes.add(co)
                todo += [x for x in co.co_consts if isinstance(x, types.CodeType)]
        _INSTR["codes"] = codes
    if _INSTR.get("ev") != ev:
        for co in _INSTR["codes"]:
            mon.set_local_events(TOOL, co, ev)
        _INSTR["ev"] = ev


def install():
    import concurrent.futures.thread as cft
    cf.ThreadPoolExecutor = Executor
    cft.ThreadPoolExecutor = Executor
    for m in (cf, cf._base):
        m.as_completed, m.wait = as_completed, wait


def run(fn, **kw):
    """fn under one schedule: (result or exception, controller)."""
    global ACTIVE
    ACTIVE = Controller(**kw)
    instrument(ACTIVE.files, ACTIVE.coarse)
    try:
        try:
            return fn(), None, ACTIVE
        except Exception as e:
            return None, e, ACTIVE
    finally:
        ACTIVE = None
