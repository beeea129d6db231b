"""Concurrent sessions under a scheduler that decides every switch (C18).

Each session runs on a real thread; exactly one holds the baton.  A thread may
lose it at any line of library code, at any user-function call and while
waiting for a lock.  The plan lists the switches; when the list is used up the
threads run to completion one after the other.
"""
import sys
import threading
import zlib
import _thread

from . import core, seams
from .core import Violation
from .functors import HOOK, Hook


class EndRun(Violation):
    """This session was killed."""


class Killed(core.SimKeyboardInterrupt):
    pass


class Thread(object):
    def __init__(self, sched, i, body, ctx, kill):
        self.sched, self.i, self.body, self.ctx = sched, i, body, ctx
        self.baton = _thread.allocate_lock()
        self.baton.acquire()
        self.lines = 0
        self.kill = kill
        self.killed = False
        self.in_call = False
        self.done = False
        self.waits = None            # the lock it waits for
        self.hook = dict(HOOK.__dict__)
        self.stdout = sys.stdout
        self.error = None
        self.th = threading.Thread(target=self.main)
        self.th.daemon = True

    def main(self):
        self.baton.acquire()
        try:
            if self.sched.aborted is None:
                sys.settrace(self.trace)
                self.body(self)
        except BaseException as e:
            self.error = e
        finally:
            sys.settrace(None)
            self.done = True
            self.sched.finished(self)

    def trace(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(core.PKG_DIR) and \
                frame.f_code.co_name != '<module>':
            return seams.new_lines(self.step)
        return None

    def step(self, frame):
        self.lines += 1
        if self.kill is not None and self.lines >= self.kill and \
                self.in_call:
            self.kill = None
            self.killed = True
            self.ctx.fired('thread-killed')
            raise Killed('killed')
        if self.lines > self.sched.budget:
            raise Violation('no-progress', 'line budget exhausted')
        self.sched.point('%s:%d' % (frame.f_code.co_name, frame.f_lineno))


class Sched(object):
    def __init__(self, schedule, ctx, hot=None, budget=2000000):
        self.hot = list(hot) if hot else None
        self.schedule = [list(s) for s in schedule]
        self.ctx = ctx
        self.threads = []
        self.current = None
        self.gap = self.schedule[0][0] if self.schedule else None
        self.all_done = _thread.allocate_lock()
        self.all_done.acquire()
        self.switches = 0
        self.points = []
        self.budget = budget
        self.aborted = None

    def add(self, body, ctx, kill=None):
        self.threads.append(Thread(self, len(self.threads), body, ctx, kill))

    def run(self):
        Hook.yield_fn = self.functor
        saved = dict(HOOK.__dict__)
        out = sys.stdout
        locks = install_locks(self)
        try:
            for t in self.threads:
                t.th.start()
            self.current = self.threads[0]
            self.load(self.current)
            self.current.baton.release()
            self.all_done.acquire()
            for t in self.threads:
                t.th.join(30)
        finally:
            remove_locks(locks)
            Hook.yield_fn = None
            HOOK.__dict__.clear()
            HOOK.__dict__.update(saved)
            sys.stdout = out
        if self.aborted is not None:
            raise self.aborted

    def load(self, t):
        HOOK.__dict__.clear()
        HOOK.__dict__.update(t.hook)
        sys.stdout = t.stdout

    def runnable(self, but=None):
        return [t for t in self.threads if not t.done and t is not but and
                (t.waits is None or not t.waits.held())]

    def functor(self):
        self.point('functor')

    def point(self, where):
        if _thread.get_ident() != self.current.th.ident:
            return
        h = self.hot
        if h is not None and h[2] > 0 and \
                zlib.crc32(where.encode()) % h[0] == h[1]:
            # a place where the baton always changes hands
            h[2] -= 1
            to = h[2]
        elif self.gap is None:
            return
        else:
            self.gap -= 1
            if self.gap > 0:
                return
            to = self.schedule.pop(0)[1]
            self.gap = max(1, self.schedule[0][0]) if self.schedule else None
        others = self.runnable(self.current)
        if others:
            self.switches += 1
            self.points.append((self.current.i, where))
            self.switch(others[to % len(others)])

    def switch(self, t):
        me = self.current
        me.hook = dict(HOOK.__dict__)
        me.stdout = sys.stdout
        self.current = t
        self.load(t)
        t.baton.release()
        me.baton.acquire()

    def blocked(self, lock):
        """The running thread waits for `lock`."""
        me = self.current
        me.waits = lock
        self.ctx.probe('lock-contended')
        others = self.runnable(me)
        if not others:
            self.aborted = Violation('deadlock', 'every session waits for a '
                                     'lock')
            raise self.aborted
        self.switch(others[0])
        me.waits = None

    def finished(self, t):
        others = self.runnable()
        if not others:
            left = [u for u in self.threads if not u.done]
            if left and self.aborted is None:
                self.aborted = Violation('deadlock', 'a session ended holding '
                                         'a lock another waits for')
            self.all_done.release()
            return
        self.current = others[0]
        self.load(self.current)
        self.current.baton.release()


class SchedLock(object):
    """A re-entrant lock the scheduler knows about."""
    def __init__(self, sched):
        self.sched = sched
        self.owner, self.count = None, 0

    def held(self):
        return self.owner is not None

    def acquire(self, *a, **k):
        me = self.sched.current
        while self.owner is not None and self.owner is not me:
            self.sched.blocked(self)
        self.owner = me
        self.count += 1
        return True

    def release(self):
        self.count -= 1
        if self.count == 0:
            self.owner = None

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()
        return False


def reentrancy_locks():
    """The locks scipy's iterative solvers hold while calling back."""
    from scipy._lib._threadsafety import ReentrancyLock
    import scipy.sparse.linalg as spl
    out = []
    for name in ('cg',):
        call = getattr(spl, name).__globals__.get('_call_')
        for f in [getattr(spl, name), call]:
            for cell in getattr(f, '__closure__', None) or ():
                try:
                    v = cell.cell_contents
                except ValueError:
                    continue
                if isinstance(v, ReentrancyLock) and v not in out:
                    out.append(v)
    return out


def install_locks(sched):
    saved = []
    for r in reentrancy_locks():
        saved.append((r, r._rlock))
        r._rlock = SchedLock(sched)
    return saved


def remove_locks(saved):
    for r, lock in saved:
        r._rlock = lock
