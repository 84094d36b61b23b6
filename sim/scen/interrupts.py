"""C15: operations cut off by an exception at an arbitrary instruction."""
import hashlib

from .. import calls
from ..core import make_rng
from ..hot import Record
from ..inject import EXC, Injector
from ..machine import ENV_OPS, Skip, txt
from .base import Exec, exc_names, register
from .machines import Hist


class IntExec(Exec):
    def __init__(self, *a):
        super().__init__(*a)
        self.inj = Injector()
        self.cs = {}  # slots of call steps
        self.seen = {}  # what they looked like
        self.out = []
        self.points = {}  # step -> chosen points (when measuring)

    def finish(self):
        if self.shy:
            for s in sorted(self.cs):
                self.out.append([-1, s + "=" + calls.observe(self.cs[s])])
            self.cs.clear()
        super().finish()

    def do(self, i, step):
        if step["op"] == "call":
            return self.do_call(i, step)
        return super().do(i, step)

    def choose(self, i, step, fn):
        """Picks the places the interrupts of this step strike at."""
        rng = make_rng(step["plan"])
        got = []
        for ops in sorted({x[2] for x in step["ints"]}):
            rec = Record()
            try:
                self.inj.watch(fn, ops, rec)
            except Exception:
                pass
            mine = [x for x in step["ints"] if x[2] == ops]
            if rec.hot():
                # (touches what outlives it)
                mine *= 3
            got += [[rec.choose(rng), x[1], ops] for x in mine]
        self.points[i] = got

    def cut(self, i, step, fn):
        """Interrupts fn at each of the step's points; False: violation."""
        if self.trace.get("measure") and "plan" in step:
            self.choose(i, step, fn)
        if self.trace.get("measure"):
            return True
        for at, name, ops in step.get("ints", ()):
            e = EXC[name]("simulated")
            got, err, fired, n = self.inj.call(fn, at, e, ops)
            if not fired:
                self.stats["int_missed"] = self.stats.get("int_missed", 0) + 1
                continue
            k = "fault_interrupt_" + name
            self.stats[k] = self.stats.get(k, 0) + 1
            self.fired = True
            self.cover.add(f"{step.get('fn') or step['op']}/{step.get('kind') or step.get('form') or '-'}/{fired.split(':')[0]}/"
                           f"{fired.split(' ', 1)[1]}")
            self.log(i, fired)
            if err is not e:
                self.violation(i, step, "interrupt-swallowed",
                               f"interrupted by {e!r} at {fired}: " +
                               (f"{err!r} came out instead" if err is not None else f"returned {txt(got)} instead"))
                return False
            if not self.recheck(i, step):
                self.v["msg"] += f" (after {e!r} at {fired})"
                return False
        return True

    def recheck(self, i, step):
        if self.shy:
            # only what the interrupted operation worked on
            for s in (step.get(k) for k in ("src", "a", "b")):
                if s in self.ls:
                    d = self.lib.check(self.ls[s], self.ms[s])
                    if d is not None:
                        self.violation(i, step, "existing-value:" + self.ms[s].kind + ":" + d.split(" ")[0],
                                       f"existing value {s} changed: {d}")
                        return False
            return True
        for s in sorted(self.cs):
            self.stats["recheck"] += 1
            if calls.observe(self.cs[s]) != self.seen[s]:
                self.violation(i, step, "existing-value:" + type(self.cs[s]).__name__,
                               f"existing value {s} changed to {txt(self.cs[s])}")
                return False
        return super().recheck(i, step)

    def do_op(self, i, step):
        if step.get("ints"):
            try:
                self.expect(step)
            except Skip:
                return super().do_op(i, step)
            if not self.cut(i, step, lambda: self.lib.perform(step, self.ls)):
                return False
        if step.get("abandon"):
            return True
        return super().do_op(i, step)

    def do_call(self, i, step):
        W = self.lib.W
        if not self.cut(i, step, lambda: calls.perform(W, step, self.cs)):
            return False
        self.stats["own"] += 1
        try:
            if step.get("abandon"):
                return True
            r = calls.perform(W, step, self.cs)
            o = type(r).__name__ if self.shy and "to" in step else calls.observe(r)
            if "to" in step:
                self.cs[step["to"]] = r
                self.seen[step["to"]] = o
        except calls.Missing:
            return True
        except Exception as e:
            if "to" in step:
                self.cs.pop(step["to"], None)
            o = "raised " + type(e).__name__
        self.log(i, calls.nohash(o))
        self.out.append([i, o])
        return True

    def result(self):
        r = super().result()
        r["out"] = self.out
        r["points"] = sorted(self.points.items())
        return r

    def nontrivial(self):
        return getattr(self, "fired", False)


@register
class C15(Hist):
    prop = "C15"
    Exec = IntExec
    profile = {"kinds": "IOZZZSSL", "create": {k: ["mk", "ts", "parse", "py"] for k in "IOZS"},
               "via": ["cached", "no_cache", "file"]}
    weights = {"create": 6, "convert": 3, "store": 3, "local": 1, "diff": 1, "cmp": 3, "multi": 1, "assume": 2,
               "add_exact": 2, "add_cal": 3, "replace": 3, "day_ops": 2, "round": 2, "ambiguous": 1, "call": 5}
    env_p = 0.15
    many = 0
    env_w = {"settz": 3, "clear_cache": 5, "evict": 1, "gc": 1}
    recheck_after_env = False

    def gen(self, rng):
        self.cg = None
        trace = super().gen(rng)
        del self.cg
        p = rng.choice([0.3, 0.6, 1.0])
        for st in trace["steps"]:
            if st["op"] not in ENV_OPS and rng.random() < p:
                ops = rng.random() < 0.65
                n = rng.choice([1, 1, 1, 2, 3])
                st["ints"] = [[None, rng.choice(sorted(EXC)), ops] for _ in range(n)]
                st["plan"] = rng.randrange(1 << 30)
            elif st.get("abandon"):
                st["ints"] = [[None, rng.choice(sorted(EXC)), rng.random() < 0.65]]
                st["plan"] = rng.randrange(1 << 30)
        trace["plans"] = True
        return trace

    hot = ((), ())

    def survey(self, runner):
        """Which operations touch what outlives them (the same for every worker)."""
        from .threads import REGISTRY as R

        R["C14"].survey(runner)
        fns, ops = R["C14"].hot
        self.hot = (fns, [x for x in ops if x in self.weights])

    def gen_op(self, rng, g, op):
        fns, ops = self.hot
        fn = None
        if (fns or ops) and rng.random() < 0.5:
            if fns and (not ops or rng.random() < 0.5):
                op, fn = "call", rng.choice(fns)
            else:
                op = rng.choice(ops)
        if op == "call":
            if self.cg is None:
                self.cg = calls.CallGen(rng, g.steps)
            if fn:
                self.cg.emit(fn)
            for _ in range(rng.randrange(1, 4) if not fn else 0):
                self.cg.step()
        else:
            super().gen_op(rng, g, op)

    def after_op(self, rng, g, op, had):
        """Now and then an interrupted operation is given up: the next ones
        are of the same kind, on something else."""
        if g.steps[-1]["op"] in ENV_OPS or rng.random() >= 0.25:
            return
        st = g.steps[-1]
        st["abandon"] = True
        to = st.get("to")
        if st["op"] != "call" and to is not None:
            g.slots.pop(to, None)
            if to in had and had[to] is not g.slots.get(to):
                # (its former value is still there)
                g.slots[to] = had[to]
        r = rng.random()
        if r < 0.8:
            (g.pair if r < 0.5 else g.twin)({k: v for k, v in st.items() if k != "abandon"})
        for _ in range(rng.randrange(3)):
            self.gen_op(rng, g, op)
        if rng.random() < 0.5:
            g.emit({k: v for k, v in st.items() if k != "abandon"}) if st["op"] != "call" else \
                g.steps.append({k: v for k, v in st.items() if k != "abandon"})

    def owns(self, step, src):
        return True

    def run(self, trace, runner, cpu=10):
        # undisturbed; where interrupts can strike is seen on the way
        p = runner.child(self.child, {**trace, "measure": True}, cpu=cpu)
        if p.get("died"):
            return p
        if p["v"]:
            return {**p, "v": None, "stats": {"foreign": 1}, "cover": [], "nontrivial": False}
        if "plans" in trace:
            steps = [dict(st) for st in trace["steps"]]
            for i, pts in p["points"]:
                steps[i]["ints"] = pts
            for st in steps:
                if st.pop("plan", None) is not None and any(x[0] is None for x in st["ints"]):
                    del st["ints"]
            trace = {k: v for k, v in trace.items() if k != "plans"}
            trace["steps"] = steps
        r = runner.child(self.child, trace, cpu=cpu)
        r["trace"] = trace
        if r.get("died") or r["v"]:
            return r
        want = {i: o for i, o in p["out"] if i >= 0}
        end = [o for i, o in p["out"] if i < 0]
        for i, o in r["out"]:
            if i < 0:
                if o not in end:
                    r["v"] = {"sig": "end:differs-after-interrupt", "at": None,
                              "msg": f"at the end {o!r}, without interrupts {end!r}"}
                    break
            elif want.get(i) != o:
                st = trace["steps"][i]
                r["v"] = {"sig": f"{st['fn']}:differs-after-interrupt", "at": i,
                          "msg": f"step {i} {st} gave {o!r}, without interrupts {want.get(i)!r}"}
                break
        return r

    def simpler(self, trace):
        for i, st in enumerate(trace["steps"]):
            ints = st.get("ints")
            if not ints:
                continue
            for k in range(len(ints)):
                new = {**st, "ints": ints[:k] + ints[k + 1:]}
                if not new["ints"]:
                    del new["ints"]
                    new.pop("abandon", None)
                yield {**trace, "steps": trace["steps"][:i] + [new] + trace["steps"][i + 1:]}
        yield from super().simpler(trace)
