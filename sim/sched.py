"""A deterministic scheduler for real threads: one thread holds the baton; at
every traced event (line or instruction of whenever's and zoneinfo's Python
code) the schedule - data of the trace - says whether another one goes on."""
import _thread
import sys
import traceback

from . import simlock
from .inject import Injector, prime


class Deadlock(BaseException):
    pass


class Sched:
    trivial = 1  # so many switches happen anyway
    stat = "env_thread_switch"
    tight = False

    def __init__(self, schedule, opcodes, clock_log, record=None):
        # [[when, which of the others], ...]; when is the number of events until
        # the switch or [function, offset, passes] for a place in the code
        self.schedule = schedule
        self.record = record  # instead of switching: what each thread passes
        self.opcodes = opcodes
        self.clock_log = clock_log
        self.pos = 0
        self.left = -1
        self.name = self.off = None
        self.aim()
        self.events = self.switches = 0
        self.points = set()
        self.inj = Injector()
        self.deadlock = None
        prime()

    # -- running
    def run(self, bodies):
        """Runs the bodies (functions of their index) as threads, to the end."""
        n = len(bodies)
        self.locks = [simlock.REAL_LOCK() for _ in range(n)]
        for x in self.locks:
            x.acquire()
        self.main = simlock.REAL_LOCK()
        self.main.acquire()
        self.state = ["ready"] * n
        self.waits = [None] * n
        self.timed = [False] * n
        self.errors = [None] * n
        self.readings = [[] for _ in range(n)]
        self.idents = {}
        self.mark = self.clock_log()[0]
        self.started = [simlock.REAL_LOCK() for _ in range(n)]
        for k, b in enumerate(bodies):
            self.started[k].acquire()
            _thread.start_new_thread(self.thread, (k, b))
            self.started[k].acquire()
        simlock.SCHED = self
        self.cur = 0
        self.locks[0].release()
        self.main.acquire()
        simlock.SCHED = None
        for e in self.errors:
            if e is not None and not isinstance(e[0], Deadlock):
                raise e[0]
        return self

    def inline(self, bodies):
        """One after the other, without threads."""
        n = len(bodies)
        self.readings = [[] for _ in range(n)]
        self.mark = self.clock_log()[0]
        for k in range(n):
            self.cur = k
            bodies[k](k)
            self.account(k)
        return self

    def thread(self, k, body):
        self.idents[_thread.get_ident()] = k
        self.started[k].release()
        self.locks[k].acquire()
        try:
            if not self.tight:
                sys.settrace(self.glob)
            try:
                body(k)
            finally:
                sys.settrace(None)
        except BaseException as e:
            self.errors[k] = (e, traceback.format_exc())
        self.state[k] = "done"
        self.account(k)
        nxt = self.other(k, 0)
        if nxt is None:
            self.main.release()
        else:
            self.cur = nxt
            self.locks[nxt].release()

    # -- events
    def begin(self):
        if self.left >= 0 or self.record is not None:
            sys.settrace(self.glob)

    def end(self):
        sys.settrace(None)

    def glob(self, frame, what, arg):
        if not self.inj.mine(frame.f_code):
            return None
        if self.left < 0 and self.record is None:
            return None
        frame.f_trace_opcodes = self.opcodes
        frame.f_trace_lines = not self.opcodes
        self.point(frame)
        return self.local

    def local(self, frame, what, arg):
        if what == "opcode" if self.opcodes else what == "line":
            self.point(frame)
        return self.local

    def aim(self):
        """The next entry of the schedule."""
        self.left, self.name = -1, None
        if self.pos < len(self.schedule):
            w = self.schedule[self.pos][0]
            if isinstance(w, int):
                self.left = w
            else:
                self.name, self.off, self.left = w

    def place(self, frame):
        return frame.f_lasti if self.opcodes else frame.f_lineno - frame.f_code.co_firstlineno

    def point(self, frame=None):
        self.events += 1
        if self.record is not None:
            if frame is not None:
                self.record[self.cur].see(frame.f_code, self.place(frame), frame.f_globals, self.opcodes)
            return
        if self.left < 0:
            return  # the schedule is used up: everything runs to its end
        if self.name is not None:
            if frame is None or self.place(frame) != self.off or frame.f_code.co_qualname != self.name:
                return
        if self.left > 0:
            self.left -= 1
            return
        k = self.cur
        pick = self.schedule[self.pos][1]
        self.pos += 1
        self.aim()
        nxt = self.other(k, pick)
        if nxt is not None:
            if frame is not None:
                self.points.add(f"{frame.f_code.co_name}:{frame.f_lasti if self.opcodes else frame.f_lineno - frame.f_code.co_firstlineno}")
            self.hand(k, nxt)

    def other(self, k, pick):
        """A thread other than k that can go on."""
        c = []
        for j in range(len(self.state)):
            if j == k:
                continue
            if self.state[j] == "ready":
                c.append(j)
            elif self.state[j] == "blocked" and (not self.waits[j].n or self.deadlock):
                c.append(j)
        if not c:
            # waits with a time limit end when nothing else can happen
            c = [j for j in range(len(self.state)) if j != k and self.state[j] == "blocked" and self.timed[j]]
        if not c:
            b = [j for j in range(len(self.state)) if j != k and self.state[j] == "blocked"]
            if b and self.state[k] != "ready":
                self.deadlock = True
                return b[0]
            return None
        return c[pick % len(c)]

    def hand(self, k, nxt):
        self.switches += 1
        self.account(k)
        self.cur = nxt
        self.locks[nxt].release()
        self.locks[k].acquire()
        self.mark = self.clock_log()[0]

    def account(self, k):
        """Clock readings since the baton came belong to thread k."""
        n, at = self.clock_log()
        self.readings[k] += [at(i) for i in range(self.mark, n)]
        self.mark = n

    # -- locks
    def me(self):
        return self.idents.get(_thread.get_ident())

    def lock_point(self):
        if self.me() is not None:
            self.point()

    def blocked(self, lock, timed):
        """-> False if the wait timed out."""
        k = self.me()
        if k is None:
            raise RuntimeError("deadlock outside the threads")
        self.state[k], self.waits[k], self.timed[k] = "blocked", lock, timed
        nxt = self.other(k, 0)
        if nxt is None:
            self.state[k] = "ready"
            if timed:
                return False
            self.deadlock = True
            raise Deadlock()
        self.hand(k, nxt)
        self.state[k] = "ready"
        if lock.n and self.deadlock:
            raise Deadlock()
        return not (lock.n and timed)
