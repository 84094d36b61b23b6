"""C04-C09, C17, C18: histories judged by the integer model."""
from ..gen import Gen, gen_day_ls, gen_ls, gen_ns, gen_t, gen_transition, universe
from ..machine import ENV_OPS, NS
from ..tz import mutate_spec
from .base import MachineScenario, register


class Hist(MachineScenario):
    profile = {}
    weights = {}
    steps = (10, 28)
    nkeys = (1, 3)
    nsys = (1, 3)
    many = 0.02
    env_p = 0.2
    env_w = {"settz": 5, "clear_cache": 2, "evict": 1, "gc": 1}

    def gen(self, rng):
        zones, db, sysn = universe(rng, self.nkeys, self.nsys)
        synth = [z for z in sysn if "real" not in zones[z]]
        if synth and rng.random() < 0.25:
            # another one much like it: the same names, mostly the same offsets
            zones["sib"] = mutate_spec(rng, zones[rng.choice(synth)])
            sysn.append("sib")
        trace = {"prop": self.prop, "zones": zones, "db": db, "sys0": rng.choice(sysn + [None]), "steps": []}
        g = Gen(rng, trace, self.profile)
        n = rng.randint(*self.steps)
        # swarm: drop some operations in some runs
        w = dict(self.weights)
        if len(w) > 3 and rng.random() < 0.4:
            for k in rng.sample(sorted(w), len(w) // 3):
                w[k] = 0
            if not any(w.values()):
                w = dict(self.weights)
        elif len(w) > 3 and rng.random() < 0.2:
            # or keep a few only
            keep = rng.sample(sorted(w), 2) + ["create"]
            w = {k: n for k, n in w.items() if k in keep}
        env_p = rng.choice([0, self.env_p, self.env_p, 2 * self.env_p])
        many = rng.random() < self.many
        if many:
            # very many of a few kinds (what is kept of each outgrows its bounds)
            n = rng.randint(150, 700) if rng.random() < 0.85 else rng.randint(1000, 2000)
            keep = rng.sample(sorted(self.weights), min(len(self.weights), rng.choice([1, 1, 2]))) + ["create"]
            w = {k: n for k, n in self.weights.items() if k in keep}
            env_p = rng.choice([0, 0, 0.004, 0.02])
        if rng.random() < 0.25:
            trace["shy"] = True
        twin_p = rng.choice([0, 0.1, 0.3])
        tries = 0
        while len(trace["steps"]) < n and tries < 20 * n:
            tries += 1
            before = len(trace["steps"])
            if many and before and rng.random() < 0.2:
                g.again(rng.randrange(before))
            elif rng.random() < env_p:
                self.gen_env(rng, g, sysn)
                if g.steps and g.steps[-1]["op"] == "settz" and rng.random() < 0.3:
                    # what was done before, in the new one
                    n0 = len(g.steps)
                    done = [i for i in range(max(0, n0 - 12), n0) if g.steps[i]["op"] not in ENV_OPS | {"call"}]
                    for i in rng.sample(done, min(len(done), rng.choice([1, 1, 2, 4]))):
                        g.again(i)
            else:
                op = g.weighted(w)
                had = dict(g.slots)
                self.gen_op(rng, g, op)
                if len(trace["steps"]) > before:
                    if rng.random() < twin_p:
                        (g.twin if rng.random() < 0.7 else g.pair)(trace["steps"][-1])
                    self.after_op(rng, g, op, had)
            if len(trace["steps"]) == before:
                g.create()
        return trace

    def after_op(self, rng, g, op, had):
        pass

    def gen_env(self, rng, g, sysn):
        op = g.weighted(self.env_w)
        if op == "settz":
            g.settz(sysn + [None])
        elif op == "clear_key" or op == "hold":
            g.steps.append({"op": op, "key": g.key()})
        else:
            g.steps.append({"op": op})

    def gen_op(self, rng, g, op):
        if op == "create":
            g.create()
        elif op == "add_exact":
            g.add_exact()
        elif op == "add_cal":
            g.add_cal()
        else:
            getattr(g, op)()


@register
class C04(Hist):
    prop = "C04"
    profile = {"kinds": "SSSSZIO", "create": {"S": ["mk", "ts", "parse", "py"]}}
    weights = {"create": 6, "convert": 3, "store": 3, "local": 1, "diff": 2, "cmp": 3, "multi": 1, "assume": 2,
               "add_exact": 2, "add_cal": 1, "replace": 1}
    own_ops = ("copy", "pickle", "text", "to_tz", "to_off", "instant", "local", "diff", "cmp", "multi")
    env_p = 0.35
    env_w = {"settz": 8, "gc": 1}

    def owns(self, step, src):
        return step["op"] in self.own_ops and (step["op"] in ("cmp", "diff", "multi") or (src and src.kind == "S"))

    def owns_recheck(self, mv):
        return mv.kind == "S"


@register
class C05(Hist):
    prop = "C05"
    profile = {"kinds": "SSSSSSZIO", "create": {"S": ["mk", "mk", "ts", "ts", "parse", "py"]}}
    weights = {"create": 5, "convert": 3, "assume": 3, "replace": 4, "add_cal": 4, "add_exact": 4, "day_ops": 3,
               "round": 2, "ambiguous": 2, "sysnow": 2, "outdated": 2}
    env_p = 0.3
    env_w = {"settz": 8, "clock": 3}

    def gen_env(self, rng, g, sysn):
        if g.weighted(self.env_w) == "clock":
            # (the simulated clock is a 64-bit number of nanoseconds)
            t = max(-9_000_000_000, min(9_000_000_000, gen_t(rng, g.world.sysm)))
            g.steps.append({"op": "clock", "set": t * NS + rng.randrange(NS)})
            g.world.clock = g.steps[-1]["set"]
        else:
            g.settz(sysn + [None])

    def gen_op(self, rng, g, op):
        if op == "convert":
            src = g.pick("IOZS")
            if src:
                g.emit({"op": "to_sys", "to": g.slot(), "src": src})
        elif op == "assume":
            g.assume("S")
        elif op == "replace":
            g.replace("S")
        elif op == "add_cal":
            g.add_cal("S")
        elif op == "add_exact":
            g.add_exact("S")
        elif op == "round":
            g.round(kinds="S")
        elif op == "outdated":
            self.outdated(rng, g)
        elif op == "sysnow":
            g.emit({"op": "sysnow", "to": g.slot(), "how": rng.choice(["now", "today", "instant"])})
        else:
            super().gen_op(rng, g, op)

    def outdated(self, rng, g):
        """A value with a local time that is telling in the system timezone
        that comes next."""
        ok = [z for z in sorted(g.trace["zones"]) if "near" not in g.trace["zones"][z]]
        if not ok:
            return
        new = rng.choice(ok)
        zm = g.world.zones[new]
        ls = None
        for _ in range(6):
            tr = gen_transition(rng, zm)
            if tr is not None and tr[2] - tr[1] >= 20 * 3600:
                ls = tr[0] + tr[1] + rng.randrange(tr[2] - tr[1])
                break
        if ls is None or rng.random() < 0.3:
            ls = rng.choice([gen_ls, gen_day_ls])(rng, zm)
        src = g.slot()
        o = g.emit({"op": "mkS", "to": src, "ls": ls, "ns": rng.choice([0, 0, gen_ns(rng)]), "dis": None})
        if o is None or o.kind != "val":
            return
        g.settz([new])
        for _ in range(rng.choice([1, 1, 2])):
            r = rng.random()
            if r < 0.3:
                g.round(src, day=0.7)
            elif r < 0.5:
                g.emit(rng.choice([{"op": "sod", "to": g.slot(), "src": src}, {"op": "daylen", "src": src}]))
            elif r < 0.65:
                g.emit({"op": "ambiguous", "src": src})
            else:
                getattr(g, rng.choice(["replace", "add_cal", "add_exact"]))("S")

    def owns(self, step, src):
        op = step["op"]
        if op in ("mkS", "to_sys", "sysnow"):
            return True
        if op in ("from_ts", "parse", "from_py"):
            return step["kind"] == "S"
        if op == "assume":
            return step["target"] == "S"
        return op in ("replace", "add", "round", "sod", "daylen", "ambiguous") and src is not None and src.kind == "S"

    def owns_recheck(self, mv):
        return False


@register
class C06(Hist):
    prop = "C06"
    profile = {"kinds": "ZZZSS", "create": {"Z": ["mk", "mk", "mk", "py"], "S": ["mk", "mk", "mk", "py"]}}
    weights = {"create": 8, "assume": 4, "ambiguous": 4, "replace": 2, "add_cal": 2}
    steps = (8, 22)
    env_w = {"settz": 5, "clear_cache": 2, "evict": 1, "gc": 1, "clear_key": 1}

    def owns(self, step, src):
        op = step["op"]
        if op in ("mkZ", "mkS", "ambiguous"):
            return True
        if op == "assume":
            return step["target"] in "ZS"
        return op in ("replace", "add") and step.get("dis") is not None and src is not None and src.kind in "ZS"

    def owns_recheck(self, mv):
        return False


@register
class C07(Hist):
    prop = "C07"
    profile = {"kinds": "ZZZSSIO", "create": {"Z": ["ts", "ts", "mk"], "S": ["ts", "ts", "mk"]}}
    weights = {"create": 4, "add_exact": 9, "diff": 5, "convert": 1, "inverse": 3}
    own_ops = ("add", "diff")

    def gen_op(self, rng, g, op):
        if op == "inverse":
            # a - b, then b plus that
            a, b = g.pick("IOZS"), g.pick("ZSIO")
            if a:
                g.emit({"op": "back", "to": g.slot(), "src": b, "b": a, "how": rng.choice(["op", "meth"])})
        else:
            super().gen_op(rng, g, op)

    def owns(self, step, src):
        return step["op"] in ("add", "diff", "back")

    def owns_recheck(self, mv):
        return True


@register
class C08(Hist):
    prop = "C08"
    profile = {"kinds": "ZZS", "create": {"Z": ["ts", "ts", "mk"], "S": ["ts", "ts", "mk"]}}
    weights = {"create": 3, "add_cal": 9, "replace": 7, "convert": 1}
    own_ops = ("add", "replace")

    def owns(self, step, src):
        return step["op"] in self.own_ops and src is not None and src.kind in "ZS"

    def owns_recheck(self, mv):
        return mv.kind in "ZS"


@register
class C09(Hist):
    prop = "C09"
    profile = {"kinds": "ZZZSS"}
    weights = {"create": 3, "day_ops": 10, "round": 6}
    own_ops = ("sod", "daylen", "round")

    def owns_recheck(self, mv):
        return False


@register
class C17(Hist):
    prop = "C17"
    profile = {"kinds": "ZZSSIO", "create": {k: ["ts", "ts", "parse", "py"] for k in "IOZS"},
               "via": ["cached", "no_cache", "file"]}
    weights = {"create": 3, "convert": 12, "store": 1, "local": 1, "pyrt": 2, "tsrt": 2}
    own_ops = ("from_ts", "from_py", "to_tz", "to_sys", "to_off", "instant", "local", "copy", "pickle", "text",
               "pyrt", "tsrt")
    env_p = 0.25
    env_w = {"settz": 5, "clear_cache": 2, "evict": 1, "gc": 1, "clear_key": 1}

    def gen_op(self, rng, g, op):
        src = g.pick("IOZS")
        if op == "pyrt" and src:
            to = rng.choice(["I", "O", "S"] if g.slots[src].kind != "Z" else ["I", "O", "Z", "S"])
            g.emit({"op": "pyrt", "to": g.slot(), "src": src, "target": to})
        elif op == "tsrt" and src:
            to = rng.choice("IOZS" if g.keys else "IOS")
            st = {"op": "tsrt", "to": g.slot(), "src": src, "target": to, "unit": rng.choice(["s", "ms", "ns"])}
            if to == "Z":
                st["key"] = g.key()
            if to == "O":
                st["off"] = rng.randrange(-12, 13) * 3600
            g.emit(st)
        elif op not in ("pyrt", "tsrt"):
            super().gen_op(rng, g, op)


@register
class C18(Hist):
    prop = "C18"
    profile = {"kinds": "ZZZSSIO", "create": {"Z": ["ts", "mk", "py"], "S": ["ts", "mk", "py", "parse"]},
               "via": ["cached", "no_cache", "file"]}
    weights = {"create": 5, "cmp": 12, "multi": 3, "convert": 2}
    own_ops = ("cmp", "multi")
    env_p = 0.25
    env_w = {"settz": 5, "clear_cache": 2, "evict": 1, "gc": 1, "clear_key": 1}

    def owns_recheck(self, mv):
        return False
