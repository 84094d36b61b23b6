"""C01 (now functions), C02 (patched time), C03 (scope of a patch)."""
import ctypes
import datetime
import hashlib
import sys
import threading
import time

from ..env import Env
from ..gen import Gen, gen_ns, gen_off, gen_t, universe
from ..inject import EXC, Injector, SimAbort, SimTimeout
from ..machine import ENV_OPS, MV, NS, Lib, Skip, World, _like, expect, mks, txt
from ..tz import local_fields
from .base import Scenario, exc_names, register

PIN_MIN, PIN_MAX = -38_000_000_000, 233_000_000_000
CLK_MIN, CLK_MAX = -9_200_000_000, 9_200_000_000  # what 64 bits of ns hold
STD = ["time_ns", "time", "datetime.now", "date.today", "localtime", "astimezone"]
SOFT = "exit:nested-inner-exit-restores-real-clock"


def elsewhere(fn):
    """fn() in a thread of its own, start to end."""
    box = []

    def run():
        try:
            box.append((fn(), None))
        except BaseException as e:
            box.append((None, e))

    t = threading.Thread(target=run)
    t.start()
    t.join()
    got, exc = box[0]
    if exc is not None:
        raise exc
    return got


class Stop(Exception):
    """The run is over (a violation was recorded)."""


class Frozen:
    """Shows one of a set of values (model)."""

    def __init__(self, vals):
        self.vals = vals

    def totals(self, readings):
        return [v.total for v in self.vals]

    def saw(self, total, readings):
        self.vals = [v for v in self.vals if v.total == total]

    def current(self, readings, world):
        return self.vals

    def moved(self, vals, readings):
        self.vals = vals


class Ticking:
    """Shows the real clock plus one of a set of distances."""

    def __init__(self, mv, readings):
        self.mv = mv
        self.ds = sorted({mv.total - r for r in readings})

    def totals(self, readings):
        return sorted({d + r for d in self.ds for r in readings})

    def saw(self, total, readings):
        self.ds = [d for d in self.ds if any(d + r == total for r in readings)]

    def current(self, readings, world):
        return [_like(world, self.mv, *divmod(x, NS)) for x in self.totals(readings)]

    def moved(self, vals, readings):
        self.ds = sorted({v.total - r for v in vals for r in readings})[:200]


class ClockExec:
    """Walks a trace whose enter/exit steps form nested patched blocks."""

    def __init__(self, scen, trace, root):
        self.scen, self.trace = scen, trace
        self.env = Env(trace, root)
        self.sh = self.env.shim
        self.world = World(trace)
        self.lib = Lib()
        self.W = self.lib.W
        self.ms, self.ls = {}, {}
        self.v = self.soft = None
        self.stack = []
        self.tainted = False
        self.cover, self.log = set(), []
        self.stats = {"now": 0, "shift": 0, "enter": 0, "std": 0, "reads": 0}
        self.tag = ""
        self.inj = None
        self.ids = self.identities()
        self.adv = 0

    def identities(self):
        return [time.time_ns, time.time, time.localtime, time.monotonic, datetime.datetime, datetime.date,
                sys.modules["zoneinfo"].ZoneInfo]

    def bad(self, i, st, cat, msg):
        self.v = {"sig": f"{st['op']}:{cat}", "at": i, "msg": f"step {i} {st}: {msg}"}
        raise Stop()

    def count(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    # -- clock readings
    def watched(self, fn):
        n0 = self.sh.sim_clock_log_n()
        got = exc = None
        try:
            got = fn()
        except Stop:
            raise
        except Exception as e:
            exc = e
        n1 = self.sh.sim_clock_log_n()
        rs = [self.sh.sim_clock_log_at(k) for k in range(n0, n1)]
        self.stats["reads"] += len(rs)
        return got, exc, rs

    # -- running
    def go(self):
        try:
            self.block(0, len(self.trace["steps"]))
            if self.v is None:
                self.check_real(len(self.trace["steps"]) - 1, {"op": "end"})
        except Stop:
            pass
        self.stats.update({"env_" + k: n for k, n in self.env.counts.items()})
        return {"v": self.v or self.soft, "stats": self.stats, "cover": sorted(self.cover), "t": [None, None],
                "digest": hashlib.sha256(repr(self.log).encode()).hexdigest()[:16],
                "nontrivial": self.nontrivial()}

    def nontrivial(self):
        return self.stats["now"] > 0

    def match(self, i, end):
        """Index of the exit step that closes the block entered at i."""
        depth = 0
        for k in range(i, end):
            op = self.trace["steps"][k]["op"]
            if op == "enter":
                depth += 1
            elif op == "exit":
                depth -= 1
                if depth == 0:
                    return k
        return end

    def block(self, i, end):
        while i < end:
            st = self.trace["steps"][i]
            if st["op"] == "enter":
                k = self.match(i, end)
                ex = self.trace["steps"][k] if k < end else {"op": "exit", "how": "normal"}
                self.patched(i, st, i + 1, k, ex)
                i = k + 1
                continue
            if st["op"] != "exit":
                self.step(i, st)
            i += 1

    def step(self, i, st):
        op = st["op"]
        if op in ENV_OPS:
            self.env.apply(st)
            if op == "settz":
                self.world.sys = st["zone"]
            self.tag = (self.tag + op[:3] + "+")[-8:]
        elif op == "script":
            d = st["d"]
            self.sh.sim_clock_script((ctypes.c_int64 * len(d))(*d), len(d))
            self.count("clk_jump_between_readings")
        elif op == "rate":
            self.sh.sim_clock_step(st["n"])
            self.count("clk_rate")
        elif op == "now":
            self.now(i, st)
        elif op == "std":
            self.std(i, st)
        elif op == "shift":
            self.shift(i, st)
        elif op == "badenter":
            self.badenter(i, st)
        elif op == "overlap":
            self.overlap(i, st)
        else:
            try:
                exp = expect(st, self.world, self.ms)
            except Skip:
                return
            try:
                got = self.lib.perform(st, self.ls)
            except Exception:
                return
            if exp.kind != "val" or not st.get("to"):
                return
            for mv in exp.vals:
                if self.lib.check(got, mv) is None:
                    self.ms[st["to"]], self.ls[st["to"]] = mv, got
                    return
            self.ms.pop(st["to"], None)
            self.ls.pop(st["to"], None)

    # -- asking for the time
    def ask(self, st):
        W, f = self.W, st["form"]
        if f == "I":
            return W.Instant.now()
        if f == "O":
            return W.OffsetDateTime.now(self.lib.offset(st["off"]), ignore_dst=True)
        if f == "Z":
            return W.ZonedDateTime.now(st["key"])
        if f == "S":
            return W.SystemDateTime.now()
        if f == "D":
            d = W.Date.today_in_system_tz()
            return [d.year, d.month, d.day]
        raise AssertionError(f)

    def answer(self, st, total):
        t, ns = divmod(total, NS)
        f = st["form"]
        if f == "I":
            return MV("I", t, ns)
        if f == "O":
            return MV("O", t, ns, st["off"])
        if f == "Z":
            zm = self.world.zm(st["key"])
            return MV("Z", t, ns, zm.offset(t), st["key"], zm)
        if f == "S":
            return mks(self.world, t, ns)
        return list(local_fields(t + self.world.sysm.offset(t))[:3])

    def now(self, i, st):
        got, exc, rs = self.watched(lambda: elsewhere(lambda: self.ask(st)) if st.get("thr") else self.ask(st))
        self.stats["now"] += 1
        if st.get("thr"):
            self.count("now_in_other_thread")
        self.log.append(txt(got) if exc is None else repr(exc))
        if self.tainted:
            return
        top = self.stack[-1] if self.stack else None
        totals = top.totals(rs) if top else sorted(set(rs))
        what = type(top).__name__ if top else "real"
        if exc is not None:
            self.bad(i, st, f"exception:{type(exc).__name__}", f"raised {exc!r} ({what} clock, readings {rs})")
        if not totals:
            self.bad(i, st, "no-reading", f"gave {txt(got)} without reading the clock")
        d0 = None
        for total in totals:
            want = self.answer(st, total)
            if st["form"] == "D":
                d = None if got == want else f"{txt(got)}, expected {want}"
            else:
                d = self.lib.check(got, want)
            if d is None:
                if top and st["form"] != "D":
                    top.saw(total, rs)
                self.cover.add(self.key(st, what, total, rs))
                return
            d0 = d0 or d
        self.bad(i, st, f"{what}:" + d0.split(" ")[0].split(",")[0][:20] if st["form"] != "D" else f"{what}:date",
                 f"gave {txt(got)}: {d0} ({what} clock, {len(totals)} possible moments, readings {rs})")

    def key(self, st, what, total, rs):
        t, ns = divmod(total, NS)
        zm = self.world.zm(st["key"]) if st["form"] == "Z" else self.world.sysm if st["form"] in "SD" else None
        sit = zm.local(t + zm.offset(t))[0] if zm else "-"
        nsk = "0" if ns == 0 else "max" if ns == NS - 1 else "us" if ns % 1000 == 0 else "ns"
        return "/".join([st["form"], what, sit, "neg" if t < 0 else "pos", nsk, str(len(rs)), self.tag,
                         str(len(self.stack))])

    def check_real(self, i, st):
        """All now-functions report the real clock."""
        if self.stack:
            return
        self.tainted = False
        forms = [{"form": "I"}, {"form": "O", "off": 3600}, {"form": "S"}, {"form": "D"}]
        forms += [{"form": "Z", "key": k} for k in sorted(self.trace["db"])[:1]]
        for f in forms:
            self.now(i, {**st, **f})
        if self.stats["now"] % 7 == 0:
            self.now(i, {**st, "form": "I", "thr": 1})
        for f in STD:
            self.std(i, {**st, "op": "std", "form": f})

    # -- the standard library
    def std(self, i, st):
        f = st["form"]
        self.stats["std"] += 1
        fns = {
            "time_ns": time.time_ns, "time": time.time, "datetime.now": lambda: datetime.datetime.now(datetime.timezone.utc),
            "date.today": datetime.date.today, "localtime": time.localtime,
            "astimezone": lambda: datetime.datetime.now().astimezone(),
        }
        got, exc, rs = self.watched(fns[f])
        if exc is not None:
            self.bad(i, st, f"std-exception:{f}", f"raised {exc!r}")
        sysm = self.world.sysm
        if self.identities() != self.ids:
            self.bad(i, st, "std-replaced", "a function of the standard library was replaced")
        if time.tzname and self.env_tz() is not None:
            self.bad(i, st, "std-tz", self.env_tz())

        def ok(r):
            t = r // NS
            if f == "time_ns":
                return got == r
            if f == "time":
                return abs(got - r / NS) < 1e-3
            if f == "datetime.now":
                e = datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc) + datetime.timedelta(microseconds=r // 1000)
                return abs((got - e).total_seconds()) <= 2e-6
            lf = local_fields(t + sysm.offset(t))
            if f == "date.today":
                return (got.year, got.month, got.day) == lf[:3]
            if f == "localtime":
                return got[:6] == lf
            return got.replace(tzinfo=None, microsecond=0) == datetime.datetime(*lf)

        # rounding to microseconds may carry
        if not any(ok(r) or ok(r + 999) or ok(r - 999) for r in rs):
            self.bad(i, st, f"std:{f}", f"gave {txt(got)} for clock readings {rs}")

    def env_tz(self):
        import os

        want = self.env.tz
        if os.environ.get("TZ") != want:
            return f"TZ is {os.environ.get('TZ')!r}, was {want!r}"
        return None

    # -- patches
    def pin(self, st):
        mv, x = self.ms.get(st["pin"]), self.ls.get(st["pin"])
        return mv, x

    def shift(self, i, st):
        """Shifts the innermost patch; st may hold an interrupt."""
        if not self.stack:
            return
        top, p = self.stack[-1], self.handles[-1]
        if p is None:
            return
        kw = {"disambiguate": st["dis"]} if st.get("dis") else {}
        args = ()
        if st.get("kind") == "bad":
            args, kw = st["args"], st["kw"]
        else:
            if top.kind == "O" and st.get("ign", True):
                kw["ignore_dst"] = True
            if st["form"] == "delta" and top.kind != "I":
                args = (self.lib.delta(st["amt"]),)
            else:
                kw.update(st["amt"])
        self.stats["shift"] += 1
        if "at" in st:
            return self.interrupted(i, st, lambda: p.shift(*args, **kw), top)
        got, exc, rs = self.watched(lambda: p.shift(*args, **kw))
        self.log.append(repr(exc))
        if self.tainted:
            return
        if st.get("kind") == "bad":
            if exc is None:
                self.bad(i, st, "no-exception", f"shift{args}{kw} did not raise")
            self.count("fault_failing_shift")
            self.cover.add("/".join(["badshift", type(top).__name__, top.kind, type(exc).__name__]))
            return
        outs, names = [], set()
        for mv in top.current(rs, self.world) if rs or isinstance(top, Frozen) else []:
            if mv.kind == "I" and any(k in st["amt"] for k in ("years", "months", "weeks", "days")):
                names.update(["TypeError"])
                continue
            if mv.kind == "O" and not st.get("ign", True):
                names.update(["ImplicitlyIgnoringDST"])
                continue
            try:
                o = expect({"op": "add", "src": "p", "amt": st["amt"], "sign": 1, "form": "kw", "dis": st.get("dis")},
                           self.world, {"p": mv})
            except Skip:
                # at the very end of the range: either way will do
                self.tainted = True
                return
            if o.kind == "exc":
                names.update(o.names)
            else:
                outs += o.vals
        if exc is not None:
            if not names & set(exc_names(exc)):
                self.bad(i, st, f"shift-exception:{type(exc).__name__}",
                         f"raised {exc!r}, expected {outs[:3] or names} (current {top.current(rs, self.world)[:3]})")
            self.count("fault_failing_shift")
        else:
            if not outs:
                self.bad(i, st, "no-exception", f"did not raise, expected {sorted(names)}")
            top.moved(outs, rs)
        self.cover.add("/".join(["shift", type(top).__name__, top.kind, st["form"], str(st.get("dis")),
                                 "+".join(sorted(k[:2] for k in st["amt"])), type(exc).__name__, str(len(self.stack))]))

    def interrupted(self, i, st, fn, top):
        """A shift that is cut off has happened or not."""
        self.inj = self.inj or Injector()
        e = EXC[st["exc"]]("simulated")
        n0 = self.sh.sim_clock_log_n()
        got, err, fired, n = self.inj.call(fn, st["at"], e, st["ops"])
        rs = [self.sh.sim_clock_log_at(k) for k in range(n0, self.sh.sim_clock_log_n())]
        self.log.append([repr(err), fired])
        if fired:
            self.count("fault_interrupt_" + st["exc"])
            if err is not e and not self.tainted:
                self.bad(i, st, "interrupt-swallowed", f"interrupted at {fired}: {err!r} came out")
        # what the patch shows now is not asked until the block ends
        self.tainted = True
        raise e

    def badenter(self, i, st):
        W = self.W
        arg = {"none": None, "str": "2020-01-01", "int": 3, "local": W.LocalDateTime(2020, 1, 1), "date": W.Date(2020, 1, 1),
               "missing": W.Instant.from_timestamp(0), "pos": W.Instant.from_timestamp(0)}[st["arg"]]

        def enter():
            if st["arg"] == "missing":
                cm = W.patch_current_time(arg)
            elif st["arg"] == "pos":
                cm = W.patch_current_time(arg, True)
            else:
                cm = W.patch_current_time(arg, keep_ticking=st["tick"])
            with cm:
                return "entered"

        got, exc, rs = self.watched(enter)
        self.count("fault_failing_entry")
        if exc is None and not self.tainted:
            self.bad(i, st, "no-exception", f"entered a patch with {arg!r}")
        self.cover.add("/".join(["badenter", st["arg"], str(st["tick"]), type(exc).__name__, str(len(self.stack))]))
        # the time shown is as before
        if self.stack:
            self.now(i, {**st, "form": "I"})
        else:
            self.check_real(i, st)

    def overlap(self, i, st):
        """Patched blocks that end in another order than the reverse one.
        What shows in between is left open; at the end it is the real clock."""
        pins = [self.ls.get(s) for s in st["pins"]]
        if None in pins or self.stack:
            return
        self.count("overlap")

        def g(x, tick):
            with self.W.patch_current_time(x, keep_ticking=tick) as p:
                yield p
                yield p

        its = []
        for x, tick in zip(pins, st["ticks"]):
            its.append(g(x, tick))
            p = next(its[-1])
            if st["shift"]:
                p.shift(hours=1, **({"ignore_dst": True} if isinstance(x, self.W.OffsetDateTime) else {}))
        for k, how in zip(st["order"], st["ends"]):
            it = its[k]
            its[k] = None
            try:
                if how == "close":
                    it.close()
                elif how == "raise":
                    it.throw(KeyboardInterrupt("simulated"))
                elif how == "thread":
                    elsewhere(it.close)
                elif how == "end":
                    list(it)
                del it
            except KeyboardInterrupt:
                pass
            del how
            self.W.Instant.now()
        self.cover.add("/".join(["overlap", str(st["order"]), str(st["ticks"]), *st["ends"]]))
        self.check_real(i, st)

    def patched(self, i, st, a, b, ex):
        W = self.W
        mv, x = self.ms.get(st["pin"]), self.ls.get(st["pin"])
        if mv is None:
            # no such value (shrunk away): the block runs unpatched
            self.block(a, b)
            return
        self.stats["enter"] += 1
        rounds = st.get("times", 1) if st["how"] == "deco" else 1
        e = EXC2[ex["exc"]]("simulated") if ex["how"] == "raise" else None
        self.handles = getattr(self, "handles", [])
        marks = []

        def body(p, rs):
            state = Frozen([mv]) if not st["tick"] else Ticking(mv, rs)
            state.kind = mv.kind
            self.stack.append(state)
            self.handles.append(p)
            if st["tick"] and not rs and not self.tainted:
                self.bad(i, st, "no-reading", "a ticking patch did not read the clock")
            self.block(a, b)
            marks.append(1)

        def enter():
            return W.patch_current_time(x, keep_ticking=st["tick"])

        n0 = self.sh.sim_clock_log_n()

        def since():
            return [self.sh.sim_clock_log_at(k) for k in range(n0, self.sh.sim_clock_log_n())]

        depth = len(self.stack)
        exc = None
        try:
            if st["how"] == "with":
                with enter() as p:
                    body(p, since())
                    if e is not None:
                        raise e
            elif st["how"] == "stack":
                import contextlib

                with contextlib.ExitStack() as es:
                    p = es.enter_context(enter())
                    body(p, since())
                    if e is not None:
                        raise e
            elif st["how"] == "threads":
                # entered in one thread, left in another
                cm = enter()
                p = elsewhere(cm.__enter__)
                try:
                    body(p, since())
                    if e is not None:
                        raise e
                except Stop:
                    raise
                except BaseException as err:
                    t = err
                    if not elsewhere(lambda: cm.__exit__(type(t), t, t.__traceback__)):
                        raise
                else:
                    elsewhere(lambda: cm.__exit__(None, None, None))
            elif st["how"] == "deco":
                @enter()
                def f():
                    body(None, since())
                    if e is not None:
                        raise e
                    return 7

                for k in range(rounds):
                    n0 = self.sh.sim_clock_log_n()
                    if f() != 7:
                        self.bad(i, st, "decorated", "the decorated function's result was lost")
                    if k + 1 < rounds:
                        del self.stack[depth:], self.handles[depth:]
                        self.left(i, {"op": "exit", "how": "return"}, mv)
            elif st["how"] == "gen":
                def g():
                    with enter() as p:
                        yield p
                        yield p
                    return

                it = g()
                p = next(it)
                try:
                    body(p, since())
                except Stop:
                    raise
                except BaseException as err:
                    it.throw(err)
                if e is not None:
                    it.throw(e)
                elif ex["how"] == "close":
                    it.close()
                elif ex["how"] == "drop":
                    del it
                else:
                    for _ in it:
                        pass
        except Stop:
            raise
        except BaseException as err:
            exc = err
        del self.stack[depth:], self.handles[depth:]
        if self.v is not None:
            raise Stop()
        if self.scen.exits_judged:
            if e is not None and exc is not e and marks:
                self.bad(i, {**ex, "op": "exit"}, "exception-changed", f"{e!r} was raised in the block, {exc!r} came out")
            if e is None and exc is not None and marks:
                self.bad(i, {**ex, "op": "exit"}, "exception", f"leaving the block raised {exc!r}")
            if e is None and exc is None and not marks:
                # an interrupt in the block (interrupted()) has to come out
                self.bad(i, {**ex, "op": "exit"}, "exception-lost", "an exception raised in the block did not come out")
        elif isinstance(exc, Exception) and exc is not e and not marks:
            if not isinstance(exc, tuple(set(EXC.values()))):
                self.bad(i, st, "entry", f"entering raised {exc!r}")
        self.cover.add("/".join(["block", st["how"], str(st["tick"]), mv.kind, ex["how"], ex.get("exc", "-"),
                                 str(depth), type(exc).__name__]))
        self.left(i, {**ex, "op": "exit"}, mv)

    def left(self, i, ex, mv):
        if not self.stack:
            self.check_real(i, ex)
            return
        if self.tainted:
            return
        if not self.scen.exits_judged:
            # what the enclosing block shows now is C03's business
            self.tainted = True
            return
        got, exc, rs = self.watched(lambda: self.W.Instant.now().timestamp_nanos())
        top = self.stack[-1]
        if got in top.totals(rs):
            top.saw(got, rs)
            return
        msg = f"step {i} {ex}: left a patch nested in a {type(top).__name__.lower()} one, now() gave {txt(got)}, expected " \
              f"{top.totals(rs)[:3]} (clock readings {rs})"
        if got in rs:
            # the known finding; what the enclosing block shows is left alone
            self.soft = self.soft or {"sig": SOFT, "at": i, "msg": msg}
            self.tainted = True
            return
        self.v = {"sig": "exit:nested", "at": i, "msg": msg}
        raise Stop()


EXC2 = {**EXC, "ValueError": ValueError, "GeneratorExit": GeneratorExit, "StopIteration": StopIteration,
        "OSError": OSError}


class ClockScenario(Scenario):
    exits_judged = False

    def child(self, trace, root):
        return ClockExec(self, trace, root).go()

    def run(self, trace, runner, cpu=10):
        return runner.child(self.child, trace, cpu=cpu)

    # -- generation
    def start(self, rng):
        zones, db, sysn = universe(rng, (1, 3), (1, 3))
        trace = {"prop": self.prop, "zones": zones, "db": db, "sys0": rng.choice(sysn + [None]), "steps": []}
        trace["clock0"] = self.moment(rng, World(trace))
        trace["clock_step"] = self.rate(rng)
        g = Gen(rng, trace, {"kinds": "IOZS"})
        return trace, g, sysn

    def rate(self, rng):
        return rng.choice([0, 0, 1, 1, 333, 1_000_003, NS // 2, NS, 3600 * NS, -1, -NS // 3, -7 * NS, NS - 1])

    def moment(self, rng, world):
        r = rng.random()
        if r < 0.75:
            zm = world.sysm if rng.random() < 0.5 else world.zones[rng.choice(sorted(world.zones))]
            t = gen_t(rng, zm)
            ns = rng.choice([0, 0, 1, 999_999_999, 999_999_998, 999_999_500, 999_999_499, gen_ns(rng), rng.randrange(NS)])
        elif r < 0.9:
            t, ns = rng.randrange(CLK_MIN, CLK_MAX), rng.randrange(NS)
        else:
            t, ns = rng.choice([-1, 0, 1, -2**31, 2**31 - 1, 2**31, 2**32, CLK_MIN, CLK_MAX, 86399, -86400]), gen_ns(rng)
        t = max(CLK_MIN, min(CLK_MAX, t))
        return t * NS + ns

    def clockstep(self, rng, g):
        r = rng.random()
        s = g.steps
        if r < 0.45:
            s.append({"op": "clock", "set": self.moment(rng, g.world)})
        elif r < 0.75:
            s.append({"op": "clock", "adv": rng.choice([-1, 1, 1]) * rng.choice(
                [1, 999, NS - 1, NS, 60 * NS, 3600 * NS, 86400 * NS, rng.randrange(10**15)])})
        elif r < 0.9:
            s.append({"op": "script", "d": [rng.choice([0, 1, -1, NS, -NS, 3600 * NS, -3600 * NS, rng.randrange(-10**12, 10**12)])
                                            for _ in range(rng.randrange(1, 5))]})
        else:
            s.append({"op": "rate", "n": self.rate(rng)})

    def envstep(self, rng, g, sysn):
        if rng.random() < 0.5:
            g.settz(sysn + [None])
        else:
            op = rng.choice(["clear_cache", "evict", "gc"])
            g.steps.append({"op": op})

    def nowstep(self, rng, g, forms="IOZSD"):
        f = rng.choice(forms)
        st = {"op": "now", "form": f}
        if f == "O":
            st["off"] = gen_off(rng)
        elif f == "Z":
            st["key"] = g.key()
        if rng.random() < 0.08:
            st["thr"] = 1
        g.steps.append(st)

    def pinned(self, rng, g):
        s = g.slot()
        k = rng.choice("IIOZZS")
        t, ns = self.pin_moment(rng, g, k)
        kw = {}
        if k == "O":
            kw["off"] = gen_off(rng)
        elif k == "Z":
            kw["key"] = g.key()
            t = gen_t(rng, g.world.zm(kw["key"]))
        # (the clock may advance by centuries either way from here)
        t = max(PIN_MIN, min(PIN_MAX, t))
        o = g.ts(k, s, t, ns, **kw)
        return s, k

    def pin_moment(self, rng, g, k):
        return gen_t(rng, g.world.sysm), gen_ns(rng)

    def enter(self, rng, g, hows):
        old = [st["pin"] for st in g.steps if st["op"] == "enter" and st["pin"] in g.slots]
        if old and rng.random() < 0.25:
            # where another block started
            s = rng.choice(old[-3:])
            k = g.slots[s].kind
        else:
            s, k = self.pinned(rng, g)
        if rng.random() < 0.2:
            g.settz(self.sysn + [None])
        st = {"op": "enter", "pin": s, "tick": rng.random() < 0.5, "how": rng.choice(hows)}
        if st["how"] == "deco":
            st["times"] = rng.choice([1, 1, 2, 3])
        g.steps.append(st)
        return k, st

    def shiftstep(self, rng, g, k):
        r = rng.random()
        if r < 0.18:
            g.steps.append({"op": "shift", "kind": "bad", **rng.choice([
                {"args": [], "kw": {"foo": 1}}, {"args": ["x"], "kw": {}}, {"args": [], "kw": {"hours": "x"}},
                {"args": [], "kw": {"hours": 10**9, "ignore_dst": True}},
                {"args": [], "kw": {"seconds": -10**12, "ignore_dst": True}},
                {"args": [], "kw": {"years": 9999, "ignore_dst": True}},
                {"args": [], "kw": {"months": -10**6, "ignore_dst": True}},
                {"args": [], "kw": {"days": 1, "disambiguate": "nonsense"}},
                {"args": [], "kw": {"hours": 1, "foo": 1}},
            ])})
            return
        if r < 0.6 or k == "I" and rng.random() < 0.9:
            tot = rng.choice([rng.randrange(-10**17, 10**17), rng.choice([-1, 1]) * rng.choice([1, NS, 3600 * NS, 86400 * NS, 1800 * NS])])
            amt = g.exact_amt(tot)
        else:
            amt, sgn = g.cal_amt()
            if rng.random() < 0.25:
                amt.update(g.exact_amt(sgn * rng.randrange(1, 10**15)))
        st = {"op": "shift", "amt": amt, "form": rng.choice(["kw", "kw", "delta"])}
        if st["form"] == "kw" and rng.random() < 0.1:
            st["amt"] = g.mixed(amt)
        if k in "ZS" and any(n in amt for n in ("years", "months", "weeks", "days")):
            st["dis"] = g.dis(0.4)
        if k == "O":
            st["ign"] = rng.random() < 0.85
        g.steps.append(st)

    def simpler(self, trace):
        if trace.get("clock_step"):
            yield {**trace, "clock_step": 0}
        yield from super().simpler(trace)


@register
class C01(ClockScenario):
    prop = "C01"

    def gen(self, rng):
        trace, g, sysn = self.start(rng)
        n = rng.randint(10, 40)
        p = rng.choice([0.15, 0.35, 0.5])
        while len(trace["steps"]) < n:
            r = rng.random()
            if r < p:
                self.clockstep(rng, g)
            elif r < p + 0.08:
                self.envstep(rng, g, sysn)
            else:
                self.nowstep(rng, g)
        return trace


@register
class C02(ClockScenario):
    prop = "C02"

    def gen(self, rng):
        trace, g, sysn = self.start(rng)
        self.sysn = sysn
        for _ in range(rng.choice([1, 1, 2])):
            self.block(rng, g, sysn, 0)
        return trace

    def block(self, rng, g, sysn, depth):
        k, st = self.enter(rng, g, ["with", "with", "gen", "stack"])
        for _ in range(rng.randint(4, 24) if not depth else rng.randint(2, 8)):
            r = rng.random()
            if r < 0.3:
                self.shiftstep(rng, g, k)
            elif r < 0.5:
                self.clockstep(rng, g)
            elif r < 0.56:
                self.envstep(rng, g, sysn)
            else:
                self.nowstep(rng, g, "IIIOZSD")
        if depth < 2 and rng.random() < 0.15:
            # (a patch within a patch; once it has ended nothing is judged
            # until the outer one has ended too: the known finding of C03)
            self.block(rng, g, sysn, depth + 1)
        g.steps.append({"op": "exit", "how": "normal"})


@register
class C03(ClockScenario):
    prop = "C03"
    exits_judged = True

    def gen(self, rng):
        trace, g, sysn = self.start(rng)
        self.sysn = sysn
        nest = rng.random() < 0.3
        self.budget = rng.randint(6, 26)
        while self.budget > 0:
            self.blockgen(rng, g, sysn, 2 if nest else 1)
            if rng.random() < 0.5:
                self.inner(rng, g, sysn, None)
            if rng.random() < 0.08:
                n = rng.choice([2, 2, 3])
                pins = [self.pinned(rng, g)[0] for _ in range(n)]
                if all(p in g.slots for p in pins):
                    order = rng.sample(range(n), n)
                    g.steps.append({"op": "overlap", "pins": pins, "ticks": [rng.random() < 0.5 for _ in pins],
                                    "order": order, "shift": rng.random() < 0.3,
                                    "ends": [rng.choice(["close", "drop", "raise", "end", "thread"]) for _ in pins]})
                    self.budget -= 2
        return trace

    def inner(self, rng, g, sysn, k):
        r = rng.random()
        self.budget -= 1
        if r < 0.2 and k:
            self.shiftstep(rng, g, k)
        elif r < 0.3:
            self.clockstep(rng, g)
        elif r < 0.4:
            self.envstep(rng, g, sysn)
        elif r < 0.6:
            g.steps.append({"op": "std", "form": rng.choice(STD)})
        elif r < 0.7:
            g.steps.append({"op": "badenter", "tick": rng.random() < 0.5,
                            "arg": rng.choice(["none", "str", "int", "local", "date", "missing", "pos"])})
        else:
            self.nowstep(rng, g)

    def blockgen(self, rng, g, sysn, depth):
        k, st = self.enter(rng, g, ["with", "with", "with", "deco", "deco", "gen", "gen", "stack", "stack", "threads"])
        for _ in range(rng.randint(0, 6)):
            if depth > 1 and rng.random() < 0.25:
                self.blockgen(rng, g, sysn, depth - 1)
            else:
                self.inner(rng, g, sysn, k)
        self.budget -= 1
        r = rng.random()
        if r < 0.12:
            amt = g.exact_amt(rng.randrange(-10**15, 10**15))
            if k in "ZS" and rng.random() < 0.5:
                amt = g.cal_amt()[0]
            ops = rng.random() < 0.6
            g.steps.append({"op": "shift", "amt": amt, "form": "kw", "at": rng.randrange(rng.choice([60, 250, 700] if ops else [20, 60, 140])), "ops": ops,
                            "exc": rng.choice(sorted(EXC))})
        r = rng.random()
        if r < 0.35:
            g.steps.append({"op": "exit", "how": "normal"})
        elif r < 0.75 or st["how"] != "gen":
            g.steps.append({"op": "exit", "how": "raise", "exc": rng.choice(
                sorted(set(EXC2) - ({"StopIteration", "GeneratorExit"} if st["how"] == "gen" else set())))})
        else:
            g.steps.append({"op": "exit", "how": rng.choice(["close", "drop"])})
