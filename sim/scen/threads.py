"""C14: threads under a deterministic scheduler."""
import hashlib

from .. import calls
from ..core import fork_run, make_rng
from ..env import Env
from ..gen import Gen, gen_off, universe
from ..hot import Record
from ..machine import ENV_OPS, MV, NS, Lib, Skip, World, expect, txt
from ..nest import Nest
from ..sched import Sched
from .base import REGISTRY, Exec, Scenario, register
from .machines import Hist


class ThreadRun:
    def __init__(self, scen, trace, root):
        self.scen, self.trace = scen, trace
        self.env = Env(trace, root)
        self.world = World(trace)
        self.lib = Lib()
        self.ms, self.ls, self.cs = {}, {}, {}
        self.v = None
        self.sched = None
        self.tight = bool(trace.get("tight"))
        # values made before the threads are first looked at by them
        self.shy = bool(trace.get("shy"))
        self.out = []
        self.stats = {"ops": 0, "now": 0, "foreign": 0}
        self.cover = set()

    def bad(self, t, i, st, cat, msg):
        if self.v is None:
            self.v = {"sig": f"{st.get('fn') or st['op']}:{cat}", "at": [t, i], "msg": f"thread {t}, step {i} {st}: {msg}"}

    # in a tight trace only the operations themselves are traced, not the
    # checks of their results
    def on(self):
        if self.sched is not None and self.tight:
            self.sched.begin()

    def off(self):
        if self.sched is not None and self.tight:
            self.sched.end()

    def machine(self, t, i, st, ms, ls):
        if st["op"] in ENV_OPS:
            self.env.apply(st)
            return
        if st["op"] == "look":
            if st["src"] in ms:
                d = self.lib.check(ls[st["src"]], ms[st["src"]])
                if d is not None:
                    self.bad(t, i, st, "look", d)
            return
        try:
            exp = expect(st, self.world, ms)
        except Skip:
            return
        self.stats["ops"] += 1
        self.on()
        try:
            got, exc = self.lib.perform(st, ls), None
        except Exception as e:
            got, exc = None, e
        self.off()
        bad, mv = self.scen.compare(self.lib, st, exp, got, exc, self.shy)
        if bad:
            self.bad(t, i, st, *bad)
            ms.pop(st.get("to"), None)
            ls.pop(st.get("to"), None)
        elif mv is not None and st.get("to"):
            ms[st["to"]], ls[st["to"]] = mv, got

    def call(self, t, i, st, cs):
        self.stats["ops"] += 1
        self.on()
        try:
            try:
                r = calls.perform(self.lib.W, st, cs)
            finally:
                self.off()
            o = type(r).__name__ if self.shy and "to" in st else calls.observe(r)
            if "to" in st:
                cs[st["to"]] = r
        except calls.Missing:
            return
        except Exception as e:
            if "to" in st:
                cs.pop(st["to"], None)
            o = "raised " + type(e).__name__
        self.out.append([[t, i], o])

    def now(self, t, i, st, sched):
        W, lib = self.lib.W, self.lib
        self.stats["now"] += 1
        sched.account(t)
        n0 = len(sched.readings[t])
        f = st["form"]
        self.on()
        try:
            if f == "I":
                got = W.Instant.now()
            elif f == "O":
                got = W.OffsetDateTime.now(lib.offset(st["off"]), ignore_dst=True)
            elif f == "Z":
                got = W.ZonedDateTime.now(st["key"])
            else:
                got = W.SystemDateTime.now()
        except Exception as e:
            return self.bad(t, i, st, "now-exception", f"raised {e!r}")
        finally:
            self.off()
        sched.account(t)
        d0 = None
        for r in sched.readings[t][n0:]:
            s, ns = divmod(r, NS)
            zm = self.world.zm(st["key"]) if f == "Z" else self.world.sysm
            mv = MV(f, s, ns, 0 if f == "I" else st["off"] if f == "O" else zm.offset(s), st.get("key"), zm)
            d = lib.check(got, mv)
            if d is None:
                return
            d0 = d0 or d
        self.bad(t, i, st, "now", f"gave {txt(got)}: {d0} (clock readings of this thread {sched.readings[t][n0:]})")

    def before(self):
        """The steps before the threads start; False if they already fail."""
        for i, st in enumerate(self.trace["steps"]):
            if st["op"] == "call":
                self.call("main", i, st, self.cs)
            else:
                self.machine("main", i, st, self.ms, self.ls)
        self.shared = {} if self.shy else {s: calls.observe(x) for s, x in self.cs.items()}
        self.shy = False
        # (what is wrong without threads C04-C09, C17 judge)
        return self.v is None

    def threads(self, schedule, rec=None, inline=False):
        """The threads, under a schedule or recording one after the other."""
        tr = self.trace
        sh = self.env.shim

        def clog():
            return sh.sim_clock_log_n(), sh.sim_clock_log_at

        sched = self.sched = self.scen.scheduler(schedule, tr["ops"], clog, rec)
        sched.tight = self.tight
        sched.deep = bool(tr.get("deep"))
        fin = {}

        def body(t):
            ms, ls, cs = dict(self.ms), dict(self.ls), dict(self.cs)
            for i, st in enumerate(tr["threads"][t]):
                if self.v is not None:
                    break
                if st["op"] == "call":
                    self.call(t, i, st, cs)
                elif st["op"] == "now":
                    self.now(t, i, st, sched)
                else:
                    self.machine(t, i, st, ms, ls)
            fin[t] = (ms, ls)

        (sched.inline if inline else sched.run)([body] * len(tr["threads"]))
        self.sched = None
        if sched.deadlock:
            self.v = {"sig": "deadlock", "at": None, "msg": "the threads wait for each other's locks"}
        # everything is still what it was
        if self.v is None:
            for t in sorted(fin):
                ms, ls = fin[t]
                for s in sorted(ls):
                    d = self.lib.check(ls[s], ms[s])
                    if d is not None and self.v is None:
                        self.v = {"sig": "end:existing-value:" + ms[s].kind, "at": None,
                                  "msg": f"at the end value {s} of thread {t} is different: {d}"}
            for s, o in self.shared.items():
                if calls.observe(self.cs[s]) != o and self.v is None:
                    self.v = {"sig": "end:existing-value", "at": None,
                              "msg": f"at the end the shared value {s} is {txt(self.cs[s])}, was {o}"}
            if self.trace.get("shy"):
                self.out += [[["end", s], calls.observe(self.cs[s])] for s in sorted(self.cs)]
        return self.result(sched, fin)

    def result(self, sched, fin):
        if sched:
            self.stats["events"] = sched.events
            self.stats[sched.stat] = sched.switches
            if getattr(sched, "deepest", 0) > 1:
                self.stats["env_nested_in_nested_run"] = 1
            self.cover.update(sched.points)
        self.stats.update({"env_" + k: n for k, n in self.env.counts.items()})
        obs = [txt(ls[s]) for t in sorted(fin) for ls in [fin[t][1]] for s in sorted(ls)]
        return {"v": self.v, "stats": self.stats, "cover": sorted(self.cover), "out": self.out, "t": [None, None],
                "digest": hashlib.sha256(repr([obs, [[i, calls.nohash(o)] for i, o in self.out], sched and sched.events, sched and sched.switches]).encode()).hexdigest()[:16],
                "nontrivial": bool(sched and sched.switches > self.scen.scheduler.trivial)}


class Survey(ThreadRun):
    """Which operations touch what outlives them, each on its own."""

    def __init__(self, scen, trace, root):
        super().__init__(scen, trace, root)
        self.recs = {}

    def mark(self, i):
        self.sched.record[0] = self.recs.setdefault(self.trace["labels"][i], Record())

    def call(self, t, i, st, cs):
        self.mark(i)
        super().call(t, i, st, cs)

    def machine(self, t, i, st, ms, ls):
        self.mark(i)
        super().machine(t, i, st, ms, ls)
        self.v = None

    def now(self, t, i, st, sched):
        self.mark(i)
        super().now(t, i, st, sched)
        self.v = None


FUNCS = sorted(n for n, (args, _, _) in calls.FN.items() if args and "strptime-%Z" not in n)


@register
class C14(Hist):
    prop = "C14"
    scheduler = Sched
    focused = 0.3
    profile = {"kinds": "IOZZZSSL", "create": {k: ["mk", "ts", "parse", "py"] for k in "IOZS"},
               "via": ["cached", "no_cache", "file"]}
    weights = {"create": 6, "convert": 4, "store": 4, "local": 1, "diff": 2, "cmp": 3, "multi": 1, "assume": 2,
               "add_exact": 3, "add_cal": 3, "replace": 3, "day_ops": 2, "round": 2, "ambiguous": 1, "call": 6, "now": 3,
               "cache": 2, "look": 3}

    hot = ((), ())  # functions and kinds of operations

    def survey(self, runner):
        """Done by each worker first; depends on the code only."""
        rng = make_rng(14)
        zones, db, sysn = universe(rng, (2, 2), (1, 1))
        base = {"prop": "C14", "zones": zones, "db": db, "sys0": sysn[0], "steps": [], "clock0": 10**18, "clock_step": 7,
                "ops": True, "tight": True}
        steps, labels = [], []
        cg = calls.CallGen(rng, steps)
        for name in FUNCS * 2:
            cg.emit(name)
        labels = [st["fn"] for st in steps]
        fns = runner.child(self.touch, {**base, "threads": [steps], "labels": labels}, cpu=60)
        steps, labels = [], []
        g = Gen(rng, {**base, "steps": steps}, self.profile)
        cg = calls.CallGen(rng, [])
        for op in sorted(self.weights) * 6:
            if op not in ("call", "cache", "look"):
                self.one(rng, g, cg, op)
                labels += [op] * (len(steps) - len(labels))
        ops = runner.child(self.touch, {**base, "threads": [steps], "labels": labels}, cpu=60)
        self.hot = tuple(x["hot"] if "hot" in x else () for x in (fns, ops))

    def touch(self, trace, root):
        run = Survey(self, trace, root)
        run.before()
        run.threads([], [Record()])
        return {"hot": sorted(k for k, r in run.recs.items() if r.hot())}

    def gen(self, rng):
        zones, db, sysn = universe(rng, (1, 3), (1, 2))
        trace = {"prop": "C14", "zones": zones, "db": db, "sys0": rng.choice(sysn + [None]), "steps": [], "threads": []}
        trace["clock0"] = rng.randrange(-10**18, 4 * 10**18)
        trace["clock_step"] = rng.choice([1, 7, 1001, 999_999_937, 3_600_000_000_011])
        trace["ops"] = rng.random() < 0.75
        g = Gen(rng, trace, self.profile)
        cg = calls.CallGen(rng, trace["steps"])
        if rng.random() < 0.75:
            for _ in range(rng.randint(2, 6)):
                g.create()
            for _ in range(rng.randint(0, 4)):
                cg.step()
        if rng.random() < 0.5:
            g.steps.append({"op": "clear_cache"})
        nt = rng.choice([2, 2, 2, 3, 4])
        rounds = rng.randint(2, 6)
        w = dict(self.weights)
        for k in rng.sample(sorted(w), len(w) // 3):
            w[k] = 0
        if not any(w.values()):
            w = dict(self.weights)
        same = rng.random() < 0.6
        kinds = [g.weighted(w) for _ in range(rounds)]
        for t in range(nt):
            steps = []
            tg = Gen(rng, {**trace, "steps": steps}, self.profile)
            tg.world, tg.slots, tg.n = g.world, dict(g.slots), 100 * (t + 1)
            tc = calls.CallGen(rng, steps, prefix=f"t{t}c")
            tc.slots = dict(cg.slots)
            for r in range(rounds):
                self.one(rng, tg, tc, kinds[r] if same else g.weighted(w))
            trace["threads"].append(steps)
        if same and rng.random() < 0.5:
            # all threads do the very same (on shared values)
            trace["threads"] = [trace["threads"][0]] * nt
        if rng.random() < 0.15:
            # much in one thread: whether any of it changes the surroundings for a while
            steps = []
            tg = Gen(rng, {**trace, "steps": steps}, self.profile)
            tg.world, tg.slots, tg.n = g.world, dict(g.slots), 100
            tc = calls.CallGen(rng, steps, prefix="t0c")
            tc.slots = dict(cg.slots)
            for r in range(rng.randint(10, 20)):
                self.one(rng, tg, tc, "call" if rng.random() < 0.7 else g.weighted(w))
            trace["threads"] = [steps, self.probe(rng, Gen(rng, {**trace, "steps": []}, self.profile), g, rounds)]
            trace["survey"] = True
        elif rng.random() < 0.3:
            trace["threads"][-1] = self.probe(rng, Gen(rng, {**trace, "steps": []}, self.profile), g, rounds)
        if rng.random() < 0.4:
            trace["shy"] = True
        if rng.random() < 0.7:
            trace["tight"] = True
        self.g, self.cg, self.w = g, cg, w
        if rng.random() < (max(self.focused, 0.6) if any(self.hot) else self.focused):
            self.focus(rng, trace)
        del self.g, self.cg
        # schedules are chosen once it is known which code the threads pass
        trace["plans"] = [rng.randrange(1 << 30) for _ in range(10)]
        return trace

    def focus(self, rng, trace):
        """Few operations; amid them the like on other or the same values."""
        trace.pop("survey", None)
        g, cg, w = self.g, self.cg, self.w
        fns, ops = self.hot
        # mostly what was seen to touch what outlives it
        which = rng.random() < 0.7
        if fns and which and not (ops and rng.random() < 0.3) or not (ops and which) and rng.random() < 0.6:
            # the same functions on values made before
            names = [rng.choice(fns if fns and rng.random() < 0.75 else FUNCS) for _ in range(rng.randint(1, 4))]
            k = rng.choice([2, 2, 3])
            if rng.random() < 0.4:
                # one function, over and over (also before), some arguments again
                names = names[:1] * rng.randint(2, 6)
                n = rng.randint(2, 8) if rng.random() < 0.75 else rng.randint(8, 40)
                have = [[cg.arg(a) for a in calls.FN[names[0]][0]] for _ in range(n)]
                if rng.random() < 0.7:
                    trace["steps"] += [{"op": "call", "fn": names[0], "args": a} for a in have]
                calls_ = [[{"op": "call", "fn": n, "args": rng.choice(have) if rng.random() < 0.6 else
                            [cg.arg(a) for a in calls.FN[n][0]]} for n in names] for _ in range(k)]
                trace["threads"] = calls_
                return
            calls_ = [[{"op": "call", "fn": n, "args": [cg.arg(a) for a in calls.FN[n][0]],
                        **({} if calls.FN[n][1] == "raw" else {"to": f"t{j}r{i}"})} for i, n in enumerate(names)]
                      for j in range(k)]
            for th in calls_[1:]:
                if rng.random() < 0.5:
                    rng.shuffle(th)
            trace["threads"] = calls_
            return
        for _ in range(rng.randint(0, 2)):
            g.create()

        def thread(k):
            steps = []
            tg = Gen(rng, {**trace, "steps": steps}, self.profile)
            tg.world, tg.slots, tg.n = g.world, dict(g.slots), 100 * (k + 1)
            tc = calls.CallGen(rng, steps, prefix=f"t{k}c")
            tc.slots = dict(cg.slots)
            return steps, tg, tc

        s0, g0, c0 = thread(0)
        for _ in range(rng.choice([1, 1, 2, 3])):
            if ops and which:
                self.one(rng, g0, c0, rng.choice(ops))
            else:
                self.one(rng, g0, c0, "call" if rng.random() < 0.4 else g.weighted(w))
        if not s0:
            s0.append({"op": "now", "form": "S"})
        threads = [s0]
        for k in range(1, rng.choice([2, 2, 3, 4])):
            steps, tg, tc = thread(k)
            for st in s0 if rng.random() < 0.3 else rng.sample(s0, 1):
                self.alike(rng, st, tg, tc)
            threads.append(steps)
        trace["threads"] = threads

    def alike(self, rng, st, tg, tc):
        if st["op"] == "call":
            if rng.random() < 0.3 and all(a["$"] in tc.slots for a in st["args"] if isinstance(a, dict) and "$" in a):
                tg.steps.append(st)
            else:
                tc.emit(st["fn"])
            return
        n = len(tg.steps)
        name = "a" if st["op"] == "cmp" else "src"
        src = st.get(name)
        if src is None or rng.random() < 0.25:
            if src is None and st["op"] not in ENV_OPS and st["op"] != "now" and rng.random() < 0.6:
                # (made likewise)
                key = {"key": tg.key()} if "key" in st else {}
                t = [x for x in ("t", "ls", "n") if x in st]
                d = {x: st[x] + rng.choice([0, 1, 3600, 86400, -31 * 86400]) for x in t} if st.get("unit", "s") == "s" else {}
                tg.emit({**st, **key, **d})
            elif src is None or src in tg.slots:
                tg.steps.append(st) if src is None else tg.emit(st)
        elif src in tg.slots:
            if rng.random() < 0.6:
                like = [s for s, m in sorted(tg.slots.items()) if m.kind == tg.slots[src].kind and s != src]
                if like:
                    src = rng.choice(like)
                else:
                    m = tg.slots[src]
                    before = set(tg.slots)
                    tg.create(m.kind)
                    src = ([s for s in tg.slots if s not in before] or [src])[0]
                tg.emit({**st, name: src, **({"to": tg.slot()} if "to" in st else {})})
            else:
                (tg.twin if rng.random() < 0.5 else tg.pair)(st)
        if len(tg.steps) == n:
            tg.create()

    def probe(self, rng, tg, g, rounds):
        """What depends on the process's surroundings: the system timezone and
        timezone data being loaded."""
        tg.world, tg.slots, tg.n = g.world, dict(g.slots), 100 * 9
        for _ in range(rounds):
            r = rng.random()
            if r < 0.5:
                tg.create("S")
            elif r < 0.7:
                tg.steps.append({"op": "now", "form": "S"})
            elif r < 0.85:
                tg.steps.append({"op": "clear_cache"})
                tg.create("Z")
            else:
                tg.convert()
        return tg.steps

    def plan(self, seed, recs, ops, deep=False):
        rng = make_rng(seed)
        r = rng.random()
        if r < 0.2:
            return self.schedule(rng, ops)
        n = len(recs)
        a = rng.randrange(n)
        odd = [k for k in range(n) if recs[k].p]
        if odd and rng.random() < 0.7:
            a = rng.choice(odd)

        def at(k):
            return recs[k].choose(rng)

        def pick():
            return rng.randrange(n - 1) if n > 2 else 0

        # thread 0 has the first turn; [0, k] hands it over at once
        first = [[0, a - 1]] if a else []
        b = rng.choice([k for k in range(n) if k != a])
        to_b = (b if b < a else b - 1)
        to_a = (a if a < b else a - 1)
        if r < 0.55:
            return first + [[at(a), to_b]]
        if r < 0.8:
            return first + [[at(a), to_b], [at(b), to_a]]
        if r < 0.9:
            return first + [[at(a), to_b], [at(b), to_a], [at(a), to_b]]
        out = list(first)
        for _ in range(rng.randrange(3, 9)):
            out.append([at(rng.randrange(n)), pick()])
        return out

    def schedule(self, rng, ops):
        style = rng.random()
        n = rng.choice([1, 2, 3, 8, 20, 60])
        if style < 0.4:
            m = rng.choice([3, 12, 40, 120, 400]) * (1 if ops else 0.3)
            return [[int(rng.expovariate(1 / m)), rng.randrange(4)] for _ in range(n)]
        if style < 0.55:
            k = rng.randrange(4)
            return [[k, rng.randrange(4)] for _ in range(n * 4)]
        # a few preemptions: a long one, then short turns
        out = []
        for _ in range(rng.randrange(1, 5)):
            out.append([rng.randrange(2000 if ops else 500), rng.randrange(4)])
            for _ in range(rng.randrange(0, 6)):
                out.append([rng.choice([rng.randrange(8), rng.randrange(60), rng.randrange(300)]), rng.randrange(4)])
        return out

    def one(self, rng, g, cg, op):
        if op == "call":
            cg.step()
        elif op == "cache":
            r = rng.random()
            g.steps.append({"op": "clear_cache"} if r < 0.6 else {"op": "clear_key", "key": g.key()} if r < 0.8
                           else {"op": "evict"})
        elif op == "look":
            src = g.pick("IOZSL")
            if src:
                g.steps.append({"op": "look", "src": src})
        elif op == "now":
            f = rng.choice("IOZS")
            st = {"op": "now", "form": f}
            if f == "O":
                st["off"] = gen_off(rng)
            if f == "Z":
                st["key"] = g.key()
            g.steps.append(st)
        else:
            n = len(g.steps)
            self.gen_op(rng, g, op)
            if len(g.steps) == n:
                g.create()

    def compare(self, lib, step, exp, got, exc, shy):
        class X:
            deep = True
        x = X()
        x.lib, x.scen, x.shy = lib, X, shy
        return Exec.compare(x, step, exp, got, exc)

    def child(self, trace, root):
        """All schedules of a trace, each in a fork of its own of the process
        in which the steps before the threads were executed."""
        run = ThreadRun(self, trace, root)
        if not run.before():
            return {"v": None, "stats": {"foreign": 1}, "cover": [], "nontrivial": False, "t": [None, None], "digest": None}

        def alone(plans, _):
            rec = [Record() for _ in trace["threads"]]
            r = run.threads([], rec)
            if not any(x.hot() for x in rec):
                # (nothing that outlives the operations is touched)
                plans = plans[:1 if trace.get("survey") else 3]
            r["scheds"] = [self.plan(s, rec, trace["ops"], bool(trace.get("deep"))) for s in plans]
            return r

        def under(sched, _):
            return run.threads(sched)

        # one after the other: what each thread gets on its own
        p = fork_run(alone, trace.get("plans", []), root)
        if p.get("died"):
            return {**p, "foreign": True}
        base = {k: v for k, v in trace.items() if k != "plans"}
        if self.scheduler is Sched:
            # without threads at all: the same
            m = fork_run(lambda _, r: run.threads([], inline=True), None, root)
            if m.get("died"):
                return {**m, "foreign": True}
            if m["v"] is None:
                v = p["v"] or self.differs(trace, {repr(i): o for i, o in m["out"]}, p["out"], "without threads")
                if v is not None:
                    return {**p, "v": v, "trace": {**base, "sched": []}, "nontrivial": True}
        if p["v"] is not None:
            # wrong without any switch: not a matter of threads
            return {**p, "v": None, "stats": {**p["stats"], "foreign": 1}, "nontrivial": False}
        want = {repr(i): o for i, o in p["out"]}
        scheds = p["scheds"] if "plans" in trace else [trace["sched"]]
        stats, cover, dig, nt = {}, set(), [], False
        v, bad = None, trace
        for s in scheds:
            t = {**base, "sched": s}
            r = fork_run(under, s, root)
            if r.get("died"):
                return {**r, "trace": t}
            for k, n in r["stats"].items():
                stats[k] = stats.get(k, 0) + n
            stats["schedules"] = stats.get("schedules", 0) + 1
            cover.update(r["cover"])
            dig.append(r["digest"])
            nt = nt or r["nontrivial"]
            v = r["v"]
            if v is None:
                v = self.differs(trace, want, r["out"], "alone")
            if v is not None:
                bad = t
                break
        return {"v": v, "stats": stats, "cover": sorted(cover), "t": [None, None], "nontrivial": nt, "trace": bad,
                "digest": hashlib.sha256(repr(dig).encode()).hexdigest()[:16]}

    def differs(self, trace, want, out, how):
        for i, o in out:
            if want.get(repr(i)) != o:
                st = {"fn": "end"} if i[0] == "end" else \
                    trace["threads"][i[0]][i[1]] if i[0] != "main" else trace["steps"][i[1]]
                return {"sig": f"{st['fn']}:differs", "at": i,
                        "msg": f"thread {i[0]}, step {i[1]} {st} gave {o!r}, {how} {want.get(repr(i))!r}"}
        return None

    def run(self, trace, runner, cpu=10):
        return runner.child(self.child, trace, cpu=10 * cpu)

    # -- shrinking
    def lists(self, trace):
        return ["sched"] + [f"t{k}" for k in range(len(trace["threads"]))] + ["steps"]

    def get(self, trace, name):
        return trace["threads"][int(name[1:])] if name[0] == "t" else trace[name]

    def put(self, trace, name, value):
        if name[0] == "t":
            th = list(trace["threads"])
            th[int(name[1:])] = value
            return {**trace, "threads": th}
        return {**trace, name: value}

    def simpler(self, trace):
        for k in range(len(trace["threads"])):
            if len(trace["threads"]) > 2:
                yield {**trace, "threads": trace["threads"][:k] + trace["threads"][k + 1:]}
        yield from super().simpler(trace)

    def prune(self, trace):
        text = repr(trace["threads"])
        steps = trace["steps"]
        t = Scenario.prune(self, {**trace, "steps": steps + [{"op": "x", "y": text}]})
        t["steps"] = steps
        return t


@register
class C19(C14):
    """Nested use: thread 0 is the program, the others run within one of its
    operations, each to its end (signal handlers, finalizers)."""
    prop = "C19"
    scheduler = Nest
    focused = 0.6

    def gen(self, rng):
        trace = super().gen(rng)
        th = trace["threads"]
        if not trace.get("survey") and th[1:] and rng.random() < 0.7:
            trace["threads"] = [th[0]] + [x[:rng.randint(1, 3)] for x in th[1:]]
        if not trace.get("survey") and th[1:] and rng.random() < 0.35:
            trace["deep"] = True
            th = trace["threads"]
            while len(th) < 3:
                th.append(rng.choice(th))
        return trace

    def plan(self, seed, recs, ops, deep=False):
        rng = make_rng(seed)
        rec, n = recs[0], len(recs)
        if rng.random() < 0.15:
            m = max(1, rec.n // n)
            return [[rng.randrange(m), rng.randrange(3)] for _ in range(n - 1)]
        if deep:
            # each mostly within the one before
            out, left, k = [], list(range(1, n)), 0
            while left:
                p = rng.randrange(len(left))
                out.append([recs[k].choose(rng), p])
                k = left.pop(p) if rng.random() < 0.8 else k
            return out
        places = [rec.choose(rng) for _ in range(n - 1)]
        return [[p, rng.randrange(3)] for p in places]
