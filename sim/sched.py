"""Deterministic scheduler of real threads, and injector of interrupts.

Only the thread holding the baton runs. Every executed line (or opcode) of a
soynlp source file is a yield point (byte codes: CPython 3.12.3 may crash when
several threads trace them, so no check asks for it); the plan says at which yield points the
baton changes hands and to whom. The plan is data, so one plan is one exactly
repeatable execution.
"""
import _thread
import os
import sys
import threading

REPO = os.path.realpath(os.environ.get('VERIF_REPO', '/repo'))
SRC = os.path.join(REPO, 'soynlp') + os.sep

_allocate = _thread.allocate_lock
_current = None     # running scheduler


def is_target(filename):
    return filename.startswith(SRC)


class Stuck(Exception):
    """No simulated thread can make progress."""


class StepLimit(Exception):
    pass


class SimLock:
    """Replacement of threading.Lock for locks created by soynlp."""

    def __init__(self, reentrant=False):
        self._real = threading._RLock() if reentrant else _allocate()
        self._reentrant = reentrant
        self._owner = None
        self._depth = 0

    def acquire(self, blocking=True, timeout=-1):
        s = _current
        me = s.me() if s else None
        if me is None:
            return self._real.acquire(blocking, timeout)
        while True:
            if self._owner is None or (self._reentrant and self._owner == me):
                self._owner = me
                self._depth += 1
                return True
            if not blocking or timeout >= 0:
                # time is not simulated; a timeout expires once nobody released
                s.block(self, me, yield_only=True)
                if self._owner is None:
                    continue
                return False
            s.block(self, me)

    def release(self):
        s = _current
        me = s.me() if s else None
        if me is None:
            return self._real.release()
        if self._owner is None:
            raise RuntimeError('release unlocked lock')
        self._depth -= 1
        if self._depth == 0:
            self._owner = None
            s.unblock(self)

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


def _caller_is_target():
    f = sys._getframe(2)
    return is_target(f.f_code.co_filename)


def install_lock_seam():
    real_lock, real_rlock = threading.Lock, threading.RLock

    def Lock():
        return SimLock() if _caller_is_target() else real_lock()

    def RLock():
        return SimLock(True) if _caller_is_target() else real_rlock()

    threading.Lock, threading.RLock = Lock, RLock


class Scheduler:
    """tasks: list of callables. switches: list of [gap, choice]; after `gap`
    further yield points the baton goes to the choice-th other runnable thread.
    interrupts: {task index: [(step of that task, exception class)]}"""

    def __init__(self, tasks, switches, granularity='line', max_steps=3_000_000,
                 interrupts=None, pids=None):
        self.tasks = tasks
        self.switches = [(int(s[0]), int(s[1])) for s in switches if len(s) == 2]     # (a minimised plan may hold others)
        self.opcodes = granularity == 'opcode'
        self.max_steps = max_steps
        self.interrupts = interrupts or {}
        self.n = len(tasks)
        self.baton = [_allocate() for _ in tasks]
        for b in self.baton:
            b.acquire()
        self.main = _allocate()
        self.main.acquire()
        self.done = [False] * self.n
        self.blocked = [None] * self.n
        self.results = [None] * self.n
        self.ident = {}
        self.steps = 0
        self.step_of = [0] * self.n
        self.pos = 0
        self.left = self.switches[0][0] if self.switches else None
        self.trace = []          # (thread, file, line) at switches
        self.failure = None
        self.active = -1
        self.pids = pids

    def me(self):
        return self.ident.get(_thread.get_ident())

    # -- choosing
    def _runnable(self, exclude=None):
        return [i for i in range(self.n)
                if not self.done[i] and self.blocked[i] is None and i != exclude]

    def _hand_over(self, me, to):
        self.active = to
        self.baton[to].release()
        self.baton[me].acquire()
        if self.failure:
            raise self.failure

    def block(self, lock, me, yield_only=False):
        if not yield_only:
            self.blocked[me] = lock
        others = self._runnable(me)
        if not others:
            if yield_only:
                return
            self.failure = Stuck('all simulated threads wait for a lock')
            self._abort(me)
        self._hand_over(me, others[0])

    def unblock(self, lock):
        for i in range(self.n):
            if self.blocked[i] is lock:
                self.blocked[i] = None

    def _abort(self, me):
        for i in range(self.n):
            if i != me and not self.done[i]:
                self.blocked[i] = None
        raise self.failure

    # -- tracing
    def _global_trace(self, frame, event, arg):
        if not is_target(frame.f_code.co_filename):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        return self._local_trace

    def _local_trace(self, frame, event, arg):
        if event == 'line' or event == 'opcode':
            self._step(frame)
        return self._local_trace

    def _step(self, frame):
        me = self.me()
        if me is None:
            return
        if self.failure:
            raise self.failure
        self.steps += 1
        self.step_of[me] += 1
        if self.steps > self.max_steps:
            self.failure = StepLimit('no end after {} steps'.format(self.max_steps))
            self._abort(me)
        pending = self.interrupts.get(me)
        if pending and self.step_of[me] >= pending[0][0]:
            exc = pending.pop(0)[1]
            self.trace.append((me, 'interrupt', os.path.basename(frame.f_code.co_filename), frame.f_lineno))
            raise exc('injected')
        if self.left is None:
            return
        self.left -= 1
        if self.left <= 0:
            choice = self.switches[self.pos][1]
            self.pos += 1
            self.left = self.switches[self.pos][0] if self.pos < len(self.switches) else None
            others = self._runnable(me)
            if others:
                to = others[choice % len(others)]
                self.trace.append((me, to, os.path.basename(frame.f_code.co_filename), frame.f_lineno))
                self._hand_over(me, to)

    def _body(self, i):
        self.ident[_thread.get_ident()] = i
        self.baton[i].acquire()
        try:
            sys.settrace(self._global_trace)
            try:
                value = self.tasks[i]()
            finally:
                sys.settrace(None)
            self.results[i] = ('ok', value)
        except (Stuck, StepLimit) as e:
            self.results[i] = ('stuck', e)
        except BaseException as e:
            self.results[i] = ('raised', e)
        finally:
            self.done[i] = True
            rest = self._runnable()
            if rest:
                to = rest[0]
                if self.pos < len(self.switches) and self.left is not None:
                    to = rest[self.switches[self.pos][1] % len(rest)]
                self.active = to
                self.baton[to].release()
            elif all(self.done):
                self.main.release()
            else:
                # everybody left waits for a lock
                self.failure = self.failure or Stuck('remaining threads wait for a lock held by a finished thread')
                for j in range(self.n):
                    if not self.done[j]:
                        self.blocked[j] = None
                        self.active = j
                        self.baton[j].release()
                        break

    def run(self):
        global _current
        _current = self
        threads = [threading.Thread(target=self._body, args=(i,), daemon=True) for i in range(self.n)]
        try:
            for t in threads:
                t.start()
            if self.n:
                self.active = 0
                self.baton[0].release()
                self.main.acquire()
            for t in threads:
                t.join()
        finally:
            _current = None
        if self.failure:
            raise self.failure
        return self.results


class Steps:
    """Count, limit and interrupt the lines executed by soynlp in this thread."""

    def __init__(self, interrupt_at=None, exc=KeyboardInterrupt, limit=20_000_000):
        self.n = 0
        self.at = interrupt_at
        self.exc = exc
        self.limit = limit
        self.where = None

    def _global(self, frame, event, arg):
        return self._local if is_target(frame.f_code.co_filename) else None

    def _local(self, frame, event, arg):
        if event == 'line':
            self.n += 1
            if self.at is not None and self.n >= self.at:
                self.at = None
                self.where = (os.path.basename(frame.f_code.co_filename), frame.f_lineno)
                raise self.exc('injected')
            if self.n > self.limit:
                raise StepLimit('no end after {} steps'.format(self.limit))
        return self._local

    def __enter__(self):
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        return False
