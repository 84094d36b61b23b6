"""Base of all scenarios, and the executor of machine traces."""
import hashlib

from ..env import Env
from ..machine import ENV_OPS, EXACT, Lib, Skip, World, expect, txt

REGISTRY = {}


def register(cls):
    REGISTRY[cls.prop] = cls()
    return cls


class Scenario:
    prop = None
    # which runs count as non-trivial, in words
    rule = ""
    stubs = []

    def gen(self, rng):
        raise NotImplementedError

    def run(self, trace, runner, cpu=10):
        raise NotImplementedError

    # shrinking
    def lists(self, trace):
        return ["steps"]

    def get(self, trace, name):
        return trace[name]

    def put(self, trace, name, value):
        t = dict(trace)
        t[name] = value
        return t

    def simpler(self, trace):
        """Candidate traces with one step simplified."""
        for i, st in enumerate(trace["steps"]):
            for new in simpler_steps(st):
                t = dict(trace)
                t["steps"] = trace["steps"][:i] + [new] + trace["steps"][i + 1:]
                yield t
        yield from self.simpler_zones(trace)

    def simpler_zones(self, trace):
        for n, z in trace.get("zones", {}).items():
            if "trans" in z and len(z["trans"]) > 1:
                for k in range(len(z["trans"]) - 1):
                    t = dict(trace)
                    t["zones"] = dict(trace["zones"])
                    t["zones"][n] = {**z, "trans": z["trans"][:k] + z["trans"][k + 1:]}
                    yield t

    def prune(self, trace):
        """Drop zones and keys nothing refers to (cosmetic)."""
        text = repr(trace["steps"]) + repr({k: v for k, v in trace.items() if k not in ("steps", "zones", "db")})
        t = dict(trace)
        if "db" in t:
            t["db"] = {k: z for k, z in t["db"].items() if repr(k) in text}
            used = set(t["db"].values())
            t["zones"] = {n: z for n, z in t["zones"].items() if n in used or repr(n) in text}
        return t


def simpler_steps(st):
    if "ns" in st and st["ns"]:
        yield {**st, "ns": 0}
    if "amt" in st and len(st["amt"]) > 1:
        for k in st["amt"]:
            yield {**st, "amt": {n: v for n, v in st["amt"].items() if n != k}}
    if "amt" in st:
        for k, v in st["amt"].items():
            if abs(v) > 1:
                yield {**st, "amt": {**st["amt"], k: 1 if v > 0 else -1}}
    if st.get("op") == "replace" and len(st["f"]) > 1 and st["form"] == "kw":
        for k in st["f"]:
            yield {**st, "f": {n: v for n, v in st["f"].items() if n != k}}
    if st.get("form") in ("delta", "op"):
        yield {**st, "form": "kw"}


def exc_names(e):
    return [c.__name__ for c in type(e).__mro__]


class Exec:
    """Lockstep execution of a machine trace within the current process."""

    def __init__(self, scen, trace, root):
        self.scen, self.trace = scen, trace
        self.env = Env(trace, root)
        self.world = World(trace)
        self.lib = Lib()
        self.ms, self.ls = {}, {}
        self.cover = set()
        self.stats = {"steps": 0, "own": 0, "skipped": 0, "foreign": 0, "exc": 0, "recheck": 0}
        self.h = hashlib.sha256()
        self.v = None
        self.envtag = ""
        self.tmin = self.tmax = None
        # results are first looked at when used, or at the end
        self.shy = bool(trace.get("shy"))

    def log(self, *a):
        self.h.update(repr(a).encode())

    def result(self):
        self.stats.update({"env_" + k: n for k, n in self.env.counts.items()})
        return {
            "v": self.v, "stats": self.stats, "cover": sorted(self.cover),
            "digest": self.h.hexdigest()[:16], "t": [self.tmin, self.tmax],
            "nontrivial": self.nontrivial(),
        }

    def nontrivial(self):
        return self.stats["own"] > 0

    def violation(self, i, step, cat, msg):
        self.v = {
            "sig": f"{step['op']}:{cat}", "at": i,
            "msg": f"step {i} {describe(step, self.ms)}: {msg}",
        }

    # -- the loop
    def go(self):
        for i, step in enumerate(self.trace["steps"]):
            self.stats["steps"] += 1
            if not self.do(i, step):
                break
        if self.v is None:
            self.finish()
        return self.result()

    def finish(self):
        self.shy = False
        self.recheck(len(self.trace["steps"]) - 1, {"op": "end"})

    def seen_as(self, got, exc):
        """For the log, without looking at what is not to be looked at."""
        if exc is not None or self.shy:
            return type(got if exc is None else exc).__name__
        return txt(got)

    def do(self, i, step):
        op = step["op"]
        if op in ENV_OPS:
            return self.do_env(i, step)
        return self.do_op(i, step)

    def do_env(self, i, step):
        self.env.apply(step)
        if step["op"] == "settz":
            self.world.sys = step["zone"]
        elif step["op"] == "clock" and "set" in step:
            self.world.clock = step["set"]
        self.envtag = (self.envtag + step["op"][:3] + "+")[-12:]
        self.log(i, step["op"])
        if self.scen.recheck_after_env:
            return self.recheck(i, step)
        return True

    def recheck(self, i, step):
        """All existing values are still what they were."""
        if self.shy:
            return True
        for s in sorted(self.ls):
            self.stats["recheck"] += 1
            d = self.lib.check(self.ls[s], self.ms[s], deep=self.scen.recheck_deep)
            if d is not None:
                if self.scen.owns_recheck(self.ms[s]):
                    self.violation(i, step, "existing-value:" + self.ms[s].kind + ":" + d.split(" ")[0],
                                   f"existing value {s} changed: {d}")
                    return False
                self.stats["foreign"] += 1
                del self.ls[s], self.ms[s]
        return True

    def expect(self, step):
        return expect(step, self.world, self.ms)

    def do_op(self, i, step):
        try:
            exp = self.expect(step)
        except Skip:
            self.stats["skipped"] += 1
            return True
        src = self.ms.get(step.get("src") or step.get("a"))
        own = self.scen.owns(step, src)
        self.stats["own"] += own
        try:
            got, exc = self.lib.perform(step, self.ls), None
        except Exception as e:
            got, exc = None, e
        self.log(i, self.seen_as(got, exc))
        bad, mv = self.compare(step, exp, got, exc)
        if bad is not None:
            cat, msg = bad
            if own:
                self.violation(i, step, cat, msg)
                return False
            self.stats["foreign"] += 1
            self.ms.pop(step.get("to"), None)
            self.ls.pop(step.get("to"), None)
            return True
        if own:
            self.cover.add(self.cover_key(step, src, exp, mv))
        if mv is not None and step.get("to"):
            self.ms[step["to"]] = mv
            self.ls[step["to"]] = got
            if mv.kind != "L":
                self.tmin = mv.t if self.tmin is None else min(self.tmin, mv.t)
                self.tmax = mv.t if self.tmax is None else max(self.tmax, mv.t)
        elif exp.kind == "exc":
            self.stats["exc"] += 1
        return True

    def compare(self, step, exp, got, exc):
        """-> ((category, message) or None, matched model value or None)"""
        if exp.kind == "exc":
            if exc is None:
                return ("no-exception", f"gave {txt(got)}, expected {exp!r}"), None
            if not set(exp.names) & set(exc_names(exc)):
                return ("other-exception", f"raised {exc!r}, expected {exp!r}"), None
            return None, None
        if exc is not None:
            return ("exception:" + type(exc).__name__, f"raised {exc!r}, expected {exp!r}"), None
        if exp.kind == "data":
            if got != exp.data or type(got) is not type(exp.data):
                return ("data", f"gave {txt(got)}, expected {exp.data!r}"), None
            return None, None
        if getattr(self, "shy", False) and len(exp.vals) == 1 and type(got) is self.lib.cls[exp.vals[0].kind]:
            return None, exp.vals[0]
        first = None
        for mv in exp.vals:
            d = self.lib.check(got, mv, deep=self.scen.deep)
            if d is None:
                return None, mv
            first = first or d
        more = f" (nor {len(exp.vals) - 1} alternative)" if len(exp.vals) > 1 else ""
        return ("value:" + first.split(" ")[0], f"gave {txt(got)}: {first}{more}"), None

    def cover_key(self, step, src, exp, mv):
        w = self.world
        parts = [step["op"], src.kind if src else "-", step.get("target") or step.get("kind") or step.get("unit") or "-",
                 step.get("form") or step.get("how") or "-", str(step.get("dis")), step.get("mode", "-"),
                 exp.kind if exp.kind != "exc" else exp.names[0]]
        if src is not None and src.kind in "ZS":
            zm = src.zm if src.kind == "Z" else w.sysm
            parts.append(zm.local(src.ls)[0] + ("!" if src.kind == "S" and zm.offset(src.t) != src.off else ""))
        if mv is not None and mv.kind in "ZS":
            zm = mv.zm if mv.kind == "Z" else w.sysm
            parts.append(zm.local(mv.ls)[0])
            if src is not None:
                parts.append("moved" if src.off != mv.off else "kept")
        parts.append(self.envtag)
        return "/".join(parts)


def describe(step, ms):
    ref = []
    for k in ("src", "a", "b"):
        if step.get(k) in ms:
            ref.append(f"{step[k]}={ms[step[k]]!r}")
    s = {k: v for k, v in step.items() if k not in ("op",)}
    return f"{step['op']} {s} [{', '.join(ref)}]"


class MachineScenario(Scenario):
    """Seeded histories of library operations and environment events, judged
    step by step by the integer model."""

    recheck_after_env = True
    recheck_deep = True
    deep = True
    own_ops = ()
    Exec = Exec

    def owns(self, step, src):
        return step["op"] in self.own_ops

    def owns_recheck(self, mv):
        return True

    def child(self, trace, root):
        return self.Exec(self, trace, root).go()

    def run(self, trace, runner, cpu=10):
        return runner.child(self.child, trace, cpu=cpu)


__all__ = ["Scenario", "MachineScenario", "Exec", "register", "REGISTRY", "EXACT"]
