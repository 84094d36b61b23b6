"""Locks for code that runs under the thread scheduler.  They are put in
place of threading's before whenever is imported, so that a lock whenever may
use is a point where the scheduler decides, never a real wait."""
import _thread
import threading

REAL_LOCK = _thread.allocate_lock
SCHED = None  # the scheduler in force, if any


class SimLock:
    reentrant = False

    def __init__(self):
        self.owner = None
        self.n = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        s = SCHED
        if s is not None:
            s.lock_point()
        while self.n and not (self.reentrant and self.owner == me):
            if not blocking or timeout == 0:
                return False
            if s is None:
                raise RuntimeError("deadlock: the lock is held and nothing else runs")
            if not s.blocked(self, timeout is not None and timeout > 0):
                return False  # timed out
        self.owner = me
        self.n += 1
        return True

    def release(self):
        if not self.n or (self.reentrant and self.owner != _thread.get_ident()):
            raise RuntimeError("release unlocked lock")
        self.n -= 1
        if not self.n:
            self.owner = None
        if SCHED is not None:
            SCHED.lock_point()

    def locked(self):
        return bool(self.n)

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    # for threading.Condition
    def _is_owned(self):
        return self.owner == _thread.get_ident()

    def _release_save(self):
        st, self.n, self.owner = (self.n, self.owner), 0, None
        return st

    def _acquire_restore(self, st):
        self.acquire()
        self.n, self.owner = st

    def _at_fork_reinit(self):
        self.__init__()


class SimRLock(SimLock):
    reentrant = True


def install():
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._RLock = SimRLock
    threading._allocate_lock = SimLock
    _thread.allocate_lock = SimLock
    _thread.allocate = SimLock
    _thread.RLock = SimRLock
