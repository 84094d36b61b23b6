"""C10 (tz cache history) and C16 (types without tz rules): the same operations
in two environments must give the same results."""
import hashlib
import os
import zoneinfo

from .. import calls
from ..core import reimport
from ..env import Env
from ..gen import MAX_T, MIN_T, gen_ls, gen_t, gen_transition, universe
from ..machine import ENV_OPS, NS, Lib, World
from .base import Scenario, register
from .machines import Hist


class Diff(Scenario):
    """Runs variants of a trace in separate processes and compares outcomes."""

    def variants(self, trace):
        raise NotImplementedError

    def run(self, trace, runner, cpu=10):
        res = []
        for t in self.variants(trace):
            r = runner.child(self.child, t, cpu=cpu)
            if r.get("died"):
                return r
            res.append(r)
        base = res[0]
        stats = {"variants": len(res)}
        cover = set()
        for r in res:
            for k, n in r["stats"].items():
                stats[k] = stats.get(k, 0) + n
            cover.update(r["cover"])
        v = soft = None
        a = {k: o for k, o in base["out"]}
        for r in res[1:]:
            for k, o in r["out"]:
                x = a.get(k)
                if x != o:
                    step = {"op": k} if k in ("end", "import") else trace["steps"][k]
                    o, x = differing(o, x)
                    v = {"sig": f"{self.name(step)}:differs", "at": k,
                         "msg": f"step {k} {step} gave {o!r} in the hostile environment, {x!r} in the plain one"}
                    if "%Z" in v["sig"]:
                        # (known; stands alone, so look for others)
                        soft, v = soft or v, None
                        continue
                    break
            if v:
                break
        v = v or soft
        d = hashlib.sha256(repr([[[k, hashless(o)] for k, o in r["out"]] for r in res]).encode()).hexdigest()[:16]
        return {"v": v, "stats": stats, "cover": sorted(cover), "digest": d, "t": [None, None],
                "nontrivial": stats.get("ops", 0) > 0 and sum(n for k, n in stats.items() if k.startswith("env_")) > 0}

    def name(self, step):
        return step.get("fn") or step["op"]


def hashless(o):
    return "\x1e".join(calls.nohash(x) for x in o.split("\x1e"))


def differing(a, b):
    """The first parts in which two observations differ."""
    a, b = str(a).replace("\x1e", "\x1f").split("\x1f"), str(b).replace("\x1e", "\x1f").split("\x1f")
    for x, y in zip(a, b):
        if x != y:
            return x[:300], y[:300]
    return a, b


@register
class C10(Diff, Hist):
    many = 0
    prop = "C10"
    profile = {"kinds": "ZZZZZI", "create": {"Z": ["ts", "mk", "py", "py", "parse"]},
               "via": ["cached", "no_cache", "file", "pickled_nc"]}
    weights = {"create": 5, "cmp": 6, "multi": 2, "convert": 3, "replace": 5, "add_cal": 3, "add_exact": 3,
               "day_ops": 3, "diff": 2, "store": 3, "ambiguous": 3, "assume": 2, "local": 1, "drop": 2, "again": 4, "cycle": 2}
    nkeys = (1, 3)
    env_p = 0.3
    env_w = {"clear_cache": 5, "clear_key": 2, "evict": 2, "gc": 2, "hold": 1}
    lists = Scenario.lists
    run = Diff.run

    def gen_op(self, rng, g, op):
        if op == "assume":
            g.assume("Z")
        elif op == "add_cal":
            g.add_cal("Z")
        elif op == "replace":
            g.replace("Z")
        elif op == "add_exact":
            g.add_exact("Z")
        elif op == "day_ops":
            g.day_ops()
        elif op == "drop":
            # values go, and with them what they alone kept alive
            if len(g.slots) > 2:
                names = sorted(g.slots)
                names = names if rng.random() < 0.3 else rng.sample(names, rng.randint(1, len(names)))
                for s in names:
                    g.slots.pop(s)
                g.steps.append({"op": "drop", "names": names})
        elif op == "again":
            self.again(rng, g)
        elif op == "cycle":
            self.cycle(rng, g)
        else:
            super().gen_op(rng, g, op)

    def cycle(self, rng, g):
        """The same in one zone after another, nothing being kept in between:
        the timezone objects go and others take their place."""
        key, src, to = g.key(), g.slot(), g.slot()
        zm = g.world.zm(key)
        make = rng.choice([
            {"op": "mkZ", "to": src, "ls": gen_ls(rng, zm), "ns": 0, "dis": g.dis()},
            {"op": "from_ts", "to": src, "kind": "Z", "unit": "s", "n": gen_t(rng, zm)},
            {"op": "from_py", "to": src, "kind": "Z", "ls": gen_ls(rng, zm), "us": 0, "fold": rng.randrange(2),
             "via": rng.choice(self.profile["via"])},
        ])
        use = rng.choice([
            {"op": "ambiguous", "src": src}, {"op": "ambiguous", "src": src}, {"op": "daylen", "src": src},
            {"op": "sod", "to": to, "src": src}, {"op": "cmp", "a": src, "b": src},
            {"op": "round", "to": to, "src": src, "unit": rng.choice(["day", "hour"]), "incr": 1,
             "mode": rng.choice(["ceil", "floor", "half_even"]), "how": "kw"},
            {"op": "add", "to": to, "src": src, "amt": rng.choice([{"days": 1}, {"hours": 1}, {"months": -1}]), "sign": 1,
             "form": "kw"},
            {"op": "replace", "to": to, "src": src, "form": "kw", "f": {"minute": rng.randrange(60)}, "dis": None},
            {"op": "text", "to": to, "src": src, "how": "str"}, {"op": "pickle", "to": to, "src": src, "proto": 4},
            {"op": "to_tz", "to": to, "src": src, "key": g.key()}, {"op": "to_off", "to": to, "src": src, "off": None},
        ])
        for _ in range(rng.randint(2, 4)):
            names = sorted(g.slots)
            g.slots.clear()
            g.steps.append({"op": "drop", "names": names})
            g.steps.append({"op": "clear_cache"})
            if rng.random() < 0.5:
                g.steps.append({"op": "gc"})
            g.emit({**make, "key": key})
            g.emit(use)
            key = g.key()

    def again(self, rng, g):
        """A local or exact time that was used before, in another zone."""
        old = [st for st in g.steps if st["op"] in ("mkZ", "from_ts", "from_py") and st.get("key") is not None]
        if not old:
            return
        st = {**rng.choice(old), "to": g.slot(), "key": g.key()}
        if st.get("via"):
            st["via"] = rng.choice(self.profile["via"])
        if g.emit(st) is None:
            return
        if st["to"] in g.slots and rng.random() < 0.6:
            src = st["to"]
            g.emit(rng.choice([
                {"op": "ambiguous", "src": src}, {"op": "daylen", "src": src}, {"op": "sod", "to": g.slot(), "src": src},
                {"op": "to_tz", "to": g.slot(), "src": src, "key": g.key()},
                {"op": "replace", "to": g.slot(), "src": src, "form": "kw", "f": {"tz": g.key()}, "dis": g.dis()},
            ]))

    def variants(self, trace):
        yield {**trace, "plain": True}
        yield trace

    def child(self, trace, root):
        env = Env(trace, root)
        lib = Lib()
        slots, out, cover = {}, [], set()
        plain = trace.get("plain")
        stats = {"ops": 0}
        tag = ""
        for i, st in enumerate(trace["steps"]):
            if st["op"] in ENV_OPS:
                if not plain:
                    env.apply(st)
                    tag = (tag + st["op"][:3] + "+")[-12:]
                continue
            if st["op"] == "drop":
                for s in st["names"]:
                    slots.pop(s, None)
                stats["dropped"] = stats.get("dropped", 0) + 1
                continue
            if plain and st.get("via"):
                st = {**st, "via": "cached"}
            if any(st.get(k) is not None and st[k] not in slots for k in ("src", "a", "b")):
                continue
            if sum(s in slots for s in st.get("srcs", "..")) < 2 and "srcs" in st:
                continue
            stats["ops"] += 1
            try:
                r = lib.perform(st, slots)
                # (shy: results are first looked at when used, or at the end)
                o = type(r).__name__ if trace.get("shy") and st.get("to") else calls.observe(r)
                if st.get("to"):
                    slots[st["to"]] = r
            except Exception as e:
                o = "raised " + type(e).__name__
            out.append([i, o])
            cover.add("/".join([st["op"], st.get("form") or st.get("how") or "-", st.get("via") or "-",
                                str(st.get("dis")), o.split("\x1f")[0][:12], tag]))
        # all values once more, against each other
        names = sorted(slots)
        end = [f"{a}{b}{slots[a] == slots[b]}{hash(slots[a]) == hash(slots[b])}" for a in names for b in names
               if type(slots[a]).__name__ != "LocalDateTime" and type(slots[b]).__name__ != "LocalDateTime"]
        end += [calls.observe(slots[a]) for a in names]
        out.append(["end", "\x1e".join(end)])
        stats.update({"env_" + k: n for k, n in env.counts.items()})
        return {"out": out, "stats": stats, "cover": sorted(cover)}


@register
class C16(Diff):
    prop = "C16"

    def gen(self, rng):
        zones, db, sysn = universe(rng, (1, 2), (1, 3))
        trace = {"prop": "C16", "zones": zones, "db": db, "sys0": rng.choice(sysn), "steps": []}
        types = calls.TYPES if rng.random() < 0.5 else rng.sample(calls.TYPES, 4)
        g = calls.CallGen(rng, trace["steps"], types=types)
        rng.near, rng.moments = self.near(rng, [World(trace).zones[z] for z in sysn])
        n = rng.randint(10, 40)
        p = rng.choice([0.1, 0.25, 0.4])
        t = 1_700_000_000
        trace["clock0"] = rng.randrange(-9_000_000_000, 9_000_000_000) * NS + rng.randrange(NS)
        trace["clock_step"] = rng.choice([0, 1, 3600 * NS, -7 * NS])
        if rng.random() < 0.5:
            trace["patch"] = [rng.randrange(-9_000_000_000, 9_000_000_000), rng.random() < 0.5]
        if rng.random() < 0.08:
            # the library is imported in that environment
            trace["cold"] = rng.choice(["db", "nodb", "junkdb"])
        if rng.random() < 0.25:
            trace["shy"] = True
        while len(trace["steps"]) < n:
            if rng.random() < p:
                r = rng.random()
                if r < 0.5:
                    trace["steps"].append({"op": "settz", "zone": rng.choice(sysn + [None])})
                elif r < 0.7:
                    trace["steps"].append({"op": "clock", "set": rng.randrange(-9_000_000_000, 9_000_000_000) * NS})
                elif r < 0.8:
                    trace["steps"].append({"op": "nodb"})
                elif r < 0.9:
                    trace["steps"].append({"op": "junkdb"})
                else:
                    trace["steps"].append({"op": "clear_cache"})
            elif rng.random() < 0.01:
                g.emit(rng.choice(["O.strptime-%Z", "L.strptime-%Z"]))
            else:
                g.step()
        return trace

    def near(self, rng, zms):
        """Local times that the system timezones skip or repeat, and the
        moments around."""
        near, moments = [], []
        for zm in zms:
            for _ in range(4):
                tr = gen_transition(rng, zm)
                if tr is None:
                    continue
                a, b = sorted((tr[0] + tr[1], tr[0] + tr[2]))
                moments += [rng.randrange(tr[0] - (b - a), tr[0] + (b - a)), tr[0] - (b - a), tr[0]]
                # (whole dates are skipped seldom)
                near += [rng.randrange(a, b), a, b - 1] * (6 if b - a >= 20 * 3600 else 1)
        near = [x for x in near if MIN_T <= x <= MAX_T]
        return near, [x for x in moments if MIN_T <= x <= MAX_T] or near

    def variants(self, trace):
        yield {**trace, "plain": True, "sys0": None, "clock0": 1_700_000_000 * NS, "clock_step": 0}
        yield trace

    def child(self, trace, root):
        import contextlib

        import whenever as W

        env = Env(trace, root)
        plain = trace.get("plain")
        out, cover, slots, stats = [], set(), {}, {"ops": 0}
        if trace.get("cold") and not plain:
            stats["env_cold_import"] = 1
            self.spoil(env, trace["cold"])
            try:
                W = reimport()
            except Exception as e:
                out.append(["import", f"raised {type(e).__name__}"])
                return {"out": out, "stats": stats, "cover": []}
        ctx = contextlib.nullcontext()
        if trace.get("patch") and not plain:
            ctx = W.patch_current_time(W.Instant.from_timestamp(trace["patch"][0]), keep_ticking=trace["patch"][1])
            stats["env_patch"] = 1
        tag = ""
        with ctx:
            for i, st in enumerate(trace["steps"]):
                if st["op"] != "call":
                    if plain:
                        continue
                    tag = (tag + st["op"][:3] + "+")[-8:]
                    if st["op"] in ("nodb", "junkdb"):
                        self.spoil(env, st["op"])
                        stats["env_" + st["op"]] = 1
                    else:
                        env.apply(st)
                    continue
                try:
                    r = calls.perform(W, st, slots)
                    if "to" in st:
                        slots[st["to"]] = r
                    o = type(r).__name__ if trace.get("shy") and "to" in st else calls.observe(r)
                except calls.Missing:
                    continue
                except Exception as e:
                    if "to" in st:
                        slots.pop(st["to"], None)
                    o = f"raised {type(e).__name__}"
                stats["ops"] += 1
                out.append([i, o])
                cover.add(f"{st['fn']}/{o.split(chr(31))[0][:14] if o[:6] == 'raised' else 'ok'}/{tag}")
            out.append(["end", "\x1e".join(f"{s}={calls.observe(slots[s])}" for s in sorted(slots))])
        stats.update({"env_" + k: n for k, n in env.counts.items()})
        return {"out": out, "stats": stats, "cover": sorted(cover)}

    def spoil(self, env, how):
        if how == "nodb":
            zoneinfo.reset_tzpath(to=[os.path.join(env.root, "absent")])
        elif how == "junkdb":
            for k in env.trace["db"]:
                env.put(k, None, b"not a tz file")

    def simpler(self, trace):
        if trace.get("cold"):
            yield {k: v for k, v in trace.items() if k != "cold"}
        if trace.get("patch"):
            yield {k: v for k, v in trace.items() if k != "patch"}
        if trace.get("clock_step"):
            yield {**trace, "clock_step": 0}
        yield from self.simpler_zones(trace)
