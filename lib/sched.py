"""Controlled scheduler: runs real threads one at a time and explores their interleavings exhaustively.

The threads are real ones, but exactly one is allowed to run; control can be handed over at every line (or every
instruction) of the code of the library, and where it takes or leaves a lock. All schedules with at most a given number of
preemptions are enumerated (switches of a thread that ended or waits for a lock are free), without repetition.
"""

import _thread
import gc
import os
import sys
import threading
import types

from lib import core

_real = {'Lock': threading.Lock, 'RLock': threading.RLock}
_current = None     # the execution in progress
HANG = 60


class Abort(BaseException):
    pass


class Lock:
    """A lock of the library under the control of the scheduler."""

    count = 0

    def __init__(self, reentrant):
        self.reentrant = reentrant
        self.owner = None
        self.depth = 0
        Lock.count += 1
        self.number = Lock.count

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        ex = _current
        t = ex.by_ident.get(me) if ex is not None else None
        if t is not None:
            ex.point(t)
            if self.owner is not None and self.owner != me or self.owner == me and not self.reentrant:
                if not blocking or timeout >= 0:
                    return False
                while self.owner is not None:
                    ex.block(t, self)
            if self.depth == 0:
                for h in t.held:
                    ex.order.add((h.number, self.number))
                t.held.append(self)
        elif self.owner is not None and (self.owner != me or not self.reentrant):
            raise RuntimeError('lock taken outside of the exploration')
        self.owner = me
        self.depth += 1
        return True

    def release(self):
        if self.owner != _thread.get_ident():
            raise RuntimeError('cannot release un-acquired lock')
        self.depth -= 1
        if self.depth == 0:
            self.owner = None
            ex = _current
            t = ex.by_ident.get(_thread.get_ident()) if ex is not None else None
            if t is not None:
                t.held.remove(self)
                for o in ex.threads:
                    if o.waiting is self:
                        o.waiting = None
                ex.point(t)

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    # shared models may be copied by the tests of the library: copies of locks are new locks
    def __deepcopy__(self, memo):
        return Lock(self.reentrant)


def _factory(name):
    def make(*a, **k):
        if sys._getframe(1).f_globals.get('__name__', '').split('.')[0] == 'pydtmc':
            return Lock(name == 'RLock')
        return _real[name](*a, **k)
    return make


def import_controlled():
    """Imports the library anew, with its locks under control."""
    if getattr(sys.modules.get('pydtmc'), '_controlled', False):
        return sys.modules['pydtmc']
    for k in [k for k in sys.modules if k.split('.')[0] == 'pydtmc']:
        del sys.modules[k]
    threading.Lock, threading.RLock = _factory('Lock'), _factory('RLock')
    import pydtmc
    pydtmc._controlled = True
    if not os.path.realpath(pydtmc.__file__).startswith(os.path.realpath(core.REPO) + os.sep):
        raise RuntimeError(f'pydtmc imported from {pydtmc.__file__}')
    return pydtmc


TOOL = 3
_codes = None
_granularity = None


def _event(code, where):
    ex = _current
    if ex is not None:
        t = ex.by_ident.get(_thread.get_ident())
        if t is not None and t.active:
            ex.point(t)


def _start(code, offset):
    ex = _current
    if ex is not None and ex.watch is not None:
        t = ex.by_ident.get(_thread.get_ident())
        if t is not None and t.active:
            f = sys._getframe(1)
            if f.f_code is code:
                ex.watch(f)


def instrument(root, opcodes, skip=()):
    """Events at every line or instruction of the functions of the library, and of nothing else."""
    global _codes, _granularity
    mon = sys.monitoring
    ev = mon.events
    if _codes is None:
        mon.use_tool_id(TOOL, 'verif')
        mon.register_callback(TOOL, ev.LINE, _event)
        mon.register_callback(TOOL, ev.INSTRUCTION, _event)
        mon.register_callback(TOOL, ev.PY_START, _start)
        todo = [f.__code__ for f in gc.get_objects() if isinstance(f, types.FunctionType) and f.__code__.co_filename.startswith(root)]
        _codes = {}      # equal code objects of an earlier import are other objects
        while todo:
            c = todo.pop()
            if id(c) not in _codes:
                _codes[id(c)] = c
                todo += [k for k in c.co_consts if isinstance(k, types.CodeType)]
    if _granularity != (opcodes, skip):
        for c in _codes.values():
            mon.set_local_events(TOOL, c, ev.PY_START | (0 if c.co_filename.endswith(skip) else ev.INSTRUCTION if opcodes else ev.LINE))
        _granularity = opcodes, skip


class _Thread:

    def __init__(self, index, body):
        self.index = index
        self.body = body
        self.sem = _thread.allocate_lock()
        self.sem.acquire()
        self.waiting = None
        self.done = False
        self.active = False
        self.result = None
        self.held = []


class Execution:
    """One run of the bodies under one schedule: {step: index of the thread that goes on}."""

    def __init__(self, bodies, schedule, root, opcodes=False, watch=None, skip=()):
        self.threads = [_Thread(i, b) for i, b in enumerate(bodies)]
        self.schedule = schedule
        self.root = root
        self.opcodes = opcodes
        self.skip = skip
        self.watch = watch
        self.by_ident = {}
        self.step = 0
        self.trace = []      # per step: (running thread or -1 if the switch is free, chosen, enabled)
        self.order = set()
        self.aborted = None
        self.switches = 0
        self.finished = _thread.allocate_lock()
        self.finished.acquire()

    def enabled(self):
        return [t for t in self.threads if not t.done and t.waiting is None]

    def point(self, t):
        """A point where the running thread t may be preempted."""
        if self.aborted:
            raise Abort
        if len(self.threads) == 1:
            return
        s = self.step
        self.step = s + 1
        k = self.schedule.get(s)
        self.trace.append((t.index, tuple(o.index for o in self.threads if not o.done and o.waiting is None)))
        if k is not None and k != t.index:
            self.hand_over(t, self.threads[k])

    def hand_over(self, t, o):
        self.switches += 1
        o.sem.release()
        t.sem.acquire()
        if self.aborted:
            raise Abort

    def choose(self):
        """The next thread where a switch is free; None if there is none."""
        en = self.enabled()
        if not en:
            return None
        s = self.step
        self.step = s + 1
        self.trace.append((-1, tuple(o.index for o in en)))
        k = self.schedule.get(s, en[0].index)
        return self.threads[k]

    def block(self, t, lock):
        if self.aborted:
            raise Abort
        t.waiting = lock
        o = self.choose()
        if o is None:
            self.abort('deadlock')
            raise Abort
        self.hand_over(t, o)

    def abort(self, why):
        self.aborted = why
        for o in self.threads:
            if not o.done:
                o.sem.release()

    def run_thread(self, t):
        self.by_ident[_thread.get_ident()] = t
        t.sem.acquire()
        aborted = False
        try:
            if self.aborted:
                raise Abort
            t.active = True
            try:
                t.result = t.body()
            finally:
                t.active = False
        except Abort:
            aborted = True
        except BaseException as ex:
            t.result = ('thread raised', type(ex).__name__, str(ex))
        t.done = True
        if aborted or self.aborted:
            if all(o.done for o in self.threads):
                self.finished.release()
            return
        o = self.choose()
        if o is not None:
            self.switches += 1
            o.sem.release()
        elif all(x.done for x in self.threads):
            self.finished.release()
        else:
            self.abort('deadlock')

    def run(self):
        global _current
        instrument(self.root, self.opcodes, self.skip)
        _current = self
        try:
            for t in self.threads:
                _thread.start_new_thread(self.run_thread, (t,))
            self.choose().sem.release()
            if not self.finished.acquire(timeout=HANG):
                self.aborted = 'hang'
        finally:
            _current = None
        return self


def explore(make, bound, root, opcodes=False, watch=None, skip=(), part=0, parts=1):
    """Yields every execution with at most `bound` preemptions; make() prepares the shared state and returns the bodies.

    With several parts, the schedules are divided by their first forced switch (the first one is in all parts).
    """
    stack = [((), 0)]
    n = 0
    while stack:
        forced, cost = stack.pop()
        ex = Execution(make(), dict(forced), root, opcodes, watch, skip).run()
        ex.forced = forced
        ex.preemptions = cost
        n += 1
        yield ex
        if ex.aborted == 'hang':
            return
        first = forced[-1][0] + 1 if forced else 0
        for s in range(first, len(ex.trace)):
            run, en = ex.trace[s]
            taken = run if run >= 0 else en[0]
            c = cost + (run >= 0)
            if c > bound:
                continue
            for o in en:
                if o != taken and (forced or s % parts == part):
                    stack.append((forced + ((s, o),), c))
