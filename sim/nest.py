"""Nested use: at chosen places in the library's code, in the midst of an
operation, other operations are executed to their end in the same thread - as a
signal handler, a finalizer or a garbage collection callback does.

Either at any instruction (from within the trace function, so what runs there
is not interrupted in turn) or, "deep", by a signal the process sends itself:
its handler runs where the interpreter lets handlers run next, and can be
interrupted by the next one."""
import ctypes
import functools
import signal
import sys
import weakref

from .sched import Sched

RAISE = ctypes.pythonapi.PyErr_SetInterruptEx
RAISE.argtypes = [ctypes.c_int, ctypes.py_object]


class Token:
    pass


class Nest(Sched):
    trivial = 0
    deep = False
    stat = "env_nested_run"

    def run(self, bodies):
        n = len(bodies)
        self.bodies = bodies
        self.todo = list(range(1, n))
        self.readings = [[] for _ in range(n)]
        self.mark = self.clock_log()[0]
        self.cur = 0
        self.busy = False
        self.active = not self.tight
        self.coming = []
        self.depth = self.deepest = 0
        if self.deep:
            signal.signal(signal.SIGUSR1, self.signalled)
            self.arm()
        if not self.tight:
            sys.settrace(self.glob)
        try:
            bodies[0](0)
        finally:
            sys.settrace(None)
            if self.deep:
                signal.signal(signal.SIGUSR1, signal.SIG_DFL)
        self.account(0)
        # those that found no place
        self.busy = not (self.deep and self.record)
        while self.todo:
            if not self.busy and not self.tight:
                sys.settrace(self.glob)
            self.handler(self.todo[0])
            sys.settrace(None)
        return self

    def handler(self, k):
        self.todo.remove(k)
        self.account(self.cur)
        self.cur, was = k, self.cur
        self.bodies[k](k)
        self.account(k)
        self.cur = was

    def begin(self):
        if self.deep:
            self.active = True
        if not self.busy:
            super().begin()

    def end(self):
        if self.deep:
            self.active = False
            if self.depth:
                return  # (what it interrupted is still traced)
        if not self.busy:
            super().end()

    def point(self, frame=None):
        if not self.busy and (self.active or not self.deep):
            super().point(frame)

    def other(self, k, pick):
        return self.todo[pick % len(self.todo)] if self.todo else None

    def hand(self, k, nxt):
        if self.deep:
            self.coming.append(nxt)
            # (without a call, after which the handler would run here, in the
            # trace function, where nothing is traced)
            self.token = None
            return
        self.switches += 1
        self.busy = True
        self.handler(nxt)
        self.busy = False

    def arm(self):
        self.token = Token()
        self.ref = weakref.ref(self.token, functools.partial(RAISE, signal.SIGUSR1))

    def signalled(self, number, frame):
        self.arm()
        while self.coming:
            k = self.coming.pop(0)
            if k not in self.todo:
                continue
            self.switches += 1
            self.depth += 1
            self.deepest = max(self.deepest, self.depth)
            was, self.active = self.active, not self.tight
            self.handler(k)
            self.active = was
            self.depth -= 1
