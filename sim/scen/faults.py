"""C11 (faults of the tz database) and C12 (updates of the tz database)."""
import base64
import errno
import os
import zoneinfo

from .. import tz as TZ
from ..gen import MAX_T, MIN_T, Gen, gen_ns, gen_t, universe
from ..machine import EXACT, MV, Out, Skip, expect, fmt, txt
from .base import Exec, exc_names, register
from .machines import Hist

ERRNOS = ["ENOENT", "EACCES", "EMFILE", "ENFILE", "EIO", "ENOMEM", "EINTR", "ELOOP", "EPERM", "ENOTDIR", "ESTALE"]
NEEDS_TZ = ("mkZ", "from_ts", "parse", "to_tz", "assume", "replace", "pickle", "text", "add", "round", "sod", "daylen",
            "cmp", "diff", "ambiguous", "tsrt", "nowZ")

ALIKE = ["Sim/Zone", "Sim/zone", "SIM/ZONE", "Sim/Zone2", "Sim/Zone+2", "Sim/Zone-2", "Sim/Sub/Zone", "Zone", "Sim_Zone",
         "Other/Zone", "Sim/Zon", "posix/Sim/Zone"]


class FaultExec(Exec):
    def do_op(self, i, step):
        f = step.get("fault")
        if not f:
            return super().do_op(i, step)
        try:
            exp = self.expect(step)
        except Skip:
            self.stats["skipped"] += 1
            return True
        env = self.env
        key = step.get("key") or (step.get("f") or {}).get("tz")
        if key is None and step["op"] in ("pickle", "text") and self.ms[step["src"]].kind == "Z":
            key = self.ms[step["src"]].key
        if f.get("cold"):
            zoneinfo.ZoneInfo.clear_cache()
        before = env.shim.sim_fs_fired()
        broke = self.arm(f, key)
        try:
            got, exc = self.lib.perform(step, self.ls), None
        except Exception as e:
            got, exc = None, e
        finally:
            env.shim.sim_fs_clear()
        if env.shim.sim_fs_fired() > before or broke:
            self.stats["fault_" + f["kind"] + ("_" + f["errno"] if "errno" in f else "")] = \
                self.stats.get("fault_" + f["kind"] + ("_" + f["errno"] if "errno" in f else ""), 0) + 1
            self.fired = True
            self.envtag = (self.envtag + f["kind"][:5] + "+")[-12:]
        if broke:
            env.put(key, self.world.db[key])
        self.log(i, self.seen_as(got, exc))
        own = self.scen.owns(step, self.ms.get(step.get("src")))
        if exc is None:
            # a result in spite of the fault has to be right
            shy, self.shy = self.shy, False
            bad, mv = self.compare(step, exp, got, None)
            self.shy = shy
            if bad and own and not self.also_wrong(step):
                self.violation(i, step, "wrong-under-fault:" + bad[0], f"under the fault {f}: {bad[1]}")
                return False
            if not bad and mv is not None and mv.kind == "Z" and step.get("to"):
                # it is kept for later, too
                self.ms[f"{step['to']}f"], self.ls[f"{step['to']}f"] = mv, got
                d = self.zone_differs(got, mv)
                if d is not None and own and not self.also_differs(step):
                    self.violation(i, step, "wrong-zone-under-fault", f"the value {txt(got)} obtained under the fault {f} "
                                   f"goes by other rules: {d}")
                    return False
        self.stats["fault_outcome_" + ("value" if exc is None else "raised")] = \
            self.stats.get("fault_outcome_" + ("value" if exc is None else "raised"), 0) + 1
        self.cover.add("/".join(["fault", step["op"], f["kind"], f.get("errno", "-"), str(f.get("nth", "-")),
                                 "ok" if exc is None else type(exc).__name__]))
        if not self.recheck(i, step):
            return False
        # the fault is gone: the same operation works again
        return super().do_op(i, {k: v for k, v in step.items() if k != "fault"})

    def also_wrong(self, step):
        return False

    def zone_differs(self, v, mv):
        """Whether exact steps from v through its zone follow the model."""
        near = [mv.t + d for d in (-200 * 86400, -100 * 86400, -50 * 86400, 50 * 86400, 100 * 86400, 200 * 86400)]
        ends = mv.zm.times[:2] + mv.zm.times[-3:]
        for t in near + [x + d for x in ends for d in (-1, 0)]:
            if not MIN_T <= t <= MAX_T:
                continue
            try:
                got = v.add(seconds=t - mv.t)
            except Exception as e:
                return f"{t - mv.t} s later: {e!r}"
            d = self.lib.check(got, MV("Z", t, mv.ns, mv.zm.offset(t), mv.key, mv.zm), deep=False)
            if d is not None:
                return f"{t - mv.t} s later: {d}"
        return None

    def also_differs(self, step):
        """The same without the fault."""
        try:
            exp = self.expect(step)
            got = self.lib.perform(step, self.ls)
            return any(self.lib.check(got, mv) is None and self.zone_differs(got, mv) is not None for mv in exp.vals)
        except Exception:
            return True

    def arm(self, f, key):
        """-> True if a file of the database was damaged."""
        sh = self.env.shim
        k = f["kind"]
        if k == "open":
            sh.sim_fs_open_fault(f["nth"], getattr(errno, f["errno"]))
            return False
        if k == "read":
            sh.sim_fs_read_fault(f["nth"], getattr(errno, f["errno"]))
            return False
        if k == "short":
            sh.sim_fs_short(f["max"])
            return False
        if key is None or key not in self.world.db:
            return False
        p = self.env.path(key)
        data = TZ.zone_bytes(self.trace["zones"][self.world.db[key]])
        if k == "remove":
            os.unlink(p)
        elif k == "truncate":
            n = int(f["at"] * TZ.footer_start(data))
            with open(p, "wb") as fh:
                fh.write(data[:n])
        elif k == "garbage":
            with open(p, "wb") as fh:
                fh.write(b"\x00" * 64 if f["at"] < 0.5 else b"<html>not found</html>")
        elif k == "dir":
            os.unlink(p)
            os.mkdir(p)
            return "dir"
        return True


class FaultExec2(FaultExec):
    """Handles the directory-in-place fault's repair."""

    def arm(self, f, key):
        r = super().arm(f, key)
        if r == "dir":
            self.dir = self.env.path(key)
        return bool(r)

    def do_op(self, i, step):
        self.dir = None
        put = self.env.put

        def repair(key, zone, data=None):
            if self.dir and self.env.path(key) == self.dir:
                os.rmdir(self.dir)
                self.dir = None
            return put(key, zone, data)

        self.env.put = repair
        try:
            return super().do_op(i, step)
        finally:
            self.env.put = put


@register
class C11(Hist):
    many = 0  # (each fault is followed by many checks)
    prop = "C11"
    profile = {"kinds": "ZZZZIO", "create": {"Z": ["ts", "mk", "parse"]}}
    weights = {"create": 8, "convert": 6, "assume": 3, "replace": 4, "store": 3, "add_cal": 1, "add_exact": 1, "cmp": 1,
               "day_ops": 1, "nowZ": 2}
    nkeys = (1, 4)
    steps = (8, 24)
    env_p = 0.2
    env_w = {"clear_cache": 3, "evict": 1, "gc": 1, "clear_key": 2}
    Exec = FaultExec2
    recheck_deep = True

    def owns(self, step, src):
        return True

    def gen_op(self, rng, g, op):
        if op == "nowZ":
            if not g.keys:
                return
            g.emit({"op": "nowZ", "to": g.slot(), "key": rng.choice(g.keys),
                    "how": rng.choice(["now", "now", "to_tz"])})
        else:
            super().gen_op(rng, g, op)

    def gen(self, rng):
        t = super().gen(rng)
        # only ids without a fallback in the tzdata package can go missing
        ren = {k: (k if k.startswith("Sim/") else "Sim/X" + k.replace("/", "").replace("+", "")) for k in t["db"]}
        if rng.random() < 0.35:
            # ids that are easily taken for each other
            ren = dict(zip(t["db"], rng.sample(ALIKE, len(t["db"]))))
        kinds = rng.sample(["open", "read", "short", "remove", "truncate", "garbage", "dir"], rng.randint(1, 7))
        p = rng.choice([0.15, 0.3, 0.5])
        t["db"] = {ren[k]: z for k, z in t["db"].items()}
        steps = []
        for st in t["steps"]:
            st = dict(st)
            if st.get("key") in ren:
                st["key"] = ren[st["key"]]
            if "f" in st and st["f"].get("tz") in ren:
                st["f"] = {**st["f"], "tz": ren[st["f"]["tz"]]}
            if st["op"] in NEEDS_TZ and rng.random() < p:
                st["fault"] = gen_fault(rng, rng.choice(kinds))
            steps.append(st)
        t["steps"] = steps
        return t

    def run(self, trace, runner, cpu=10):
        res = super().run(trace, runner, cpu)
        v = res.get("v")
        if v is not None and any("fault" in s for s in trace["steps"]):
            # attribute: wrong without any fault, too, is not this property's
            plain = {**trace, "steps": [{k: x for k, x in s.items() if k != "fault"} for s in trace["steps"]]}
            r2 = super().run(plain, runner, cpu)
            v2 = r2.get("v")
            if v2 is not None and v2["at"] == v["at"]:
                return {**res, "v": None, "stats": {**res["stats"], "foreign": res["stats"].get("foreign", 0) + 1}}
        elif v is not None:
            return {**res, "v": None, "stats": {**res["stats"], "foreign": res["stats"].get("foreign", 0) + 1}}
        return res

    def simpler(self, trace):
        for i, st in enumerate(trace["steps"]):
            if "fault" in st:
                new = {k: x for k, x in st.items() if k != "fault"}
                yield {**trace, "steps": trace["steps"][:i] + [new] + trace["steps"][i + 1:]}
        yield from super().simpler(trace)


def gen_fault(rng, kind):
    f = {"kind": kind, "cold": rng.random() < 0.85}
    if kind == "open":
        f.update(nth=rng.choice([0, 0, 0, 1]), errno=rng.choice(ERRNOS))
    elif kind == "read":
        f.update(nth=rng.choice([0, 0, 1, 2]), errno=rng.choice(["EIO", "EINTR", "ENOMEM", "ESTALE", "EISDIR"]))
    elif kind == "short":
        f.update(max=rng.choice([1, 2, 3, 7, 16, 44, 45, 64, 100, 512]))
    elif kind in ("truncate", "garbage"):
        f.update(at=round(rng.random(), 3))
    return f


# ------------------------------------------------------------------- C12 ----
class UpdateExec(Exec):
    """Machine with database updates, stored values and restarts."""

    def __init__(self, scen, trace, root):
        super().__init__(scen, trace, root)
        self.durable = dict(trace.get("durable") or {})

    def do_env(self, i, step):
        if step["op"] == "update":
            self.env.count("update")
            self.env.put(step["key"], step["zone"])
            if not self.recheck(i, step):  # before anything is reloaded
                return False
            zoneinfo.ZoneInfo.clear_cache()
            self.world.db[step["key"]] = step["zone"]
            self.envtag = (self.envtag + "upd+")[-12:]
            self.log(i, "update")
            return self.recheck(i, step)
        return super().do_env(i, step)

    def expect(self, step):
        op = step["op"]
        if op == "save":
            mv = self.ms.get(step["src"])
            if mv is None or mv.kind not in EXACT + "L":
                raise Skip()
            return Out("save", data=None)
        if op == "load":
            if step["name"] not in self.durable:
                raise Skip()
            return Out("load")
        src = self.ms.get(step.get("src"))
        if src is not None and src.kind == "Z" and self.stale(src):
            if op in ("add", "replace", "round", "sod", "daylen", "ambiguous"):
                # arithmetic on values from before an update may follow either
                outs = []
                for zm in (src.zm, self.world.zm(src.key)):
                    alt = MV("Z", src.t, src.ns, src.off, src.key, zm)
                    ms = {**self.ms, step["src"]: alt}
                    if op == "replace" and step["form"] == "kw" and "tz" in step["f"]:
                        raise Skip()
                    outs.append(expect(step, self.world, ms))
                return Either(outs)
            if op in ("pickle", "text", "pyrt"):
                return Out("load")
        return super().expect(step)

    def stale(self, mv):
        return mv.zm is not self.world.zm(mv.key)

    def do_op(self, i, step):
        op = step["op"]
        try:
            exp = self.expect(step)
        except Skip:
            self.stats["skipped"] += 1
            return True
        if exp.kind == "save":
            mv, v = self.ms[step["src"]], self.ls[step["src"]]
            self.durable[step["name"]] = {
                "mv": [mv.kind, mv.t, mv.ns, mv.off, mv.key],
                "pickle": base64.b64encode(self.lib.pickle.dumps(v, protocol=step["proto"])).decode(),
                "text": v.format_common_iso(),
            }
            self.stats["saved"] = self.stats.get("saved", 0) + 1
            return True
        if exp.kind == "load":
            return self.do_load(i, step)
        if isinstance(exp, Either):
            return self.do_either(i, step, exp)
        return super().do_op(i, step)

    def do_either(self, i, step, exp):
        self.stats["own"] += 1
        self.stats["either"] = self.stats.get("either", 0) + 1
        try:
            got, exc = self.lib.perform(step, self.ls), None
        except Exception as e:
            got, exc = None, e
        self.log(i, self.seen_as(got, exc))
        bads = [self.compare(step, e, got, exc)[0] for e in exp.outs]
        if all(bads):
            self.violation(i, step, "stale:" + bads[0][0], f"neither by the old rules ({bads[0][1]}) nor by the new ({bads[1][1]})")
            return False
        self.ms.pop(step.get("to"), None)
        self.ls.pop(step.get("to"), None)
        return True

    def do_load(self, i, step):
        """Stored under possibly other rules: the same moment, or InvalidOffset."""
        self.stats["own"] += 1
        if step["op"] == "load":
            d = self.durable[step["name"]]
            kind, t, ns, off, key = d["mv"]
        else:
            src = self.ms[step["src"]]
            if step["op"] == "pyrt":  # (the standard library has microseconds)
                src = MV("Z", src.t, src.ns // 1000 * 1000, src.off, src.key, src.zm)
            kind, t, ns, off, key = src.kind, src.t, src.ns, src.off, src.key
        ok = True
        mv = MV(kind, t, ns, off, key)
        if kind == "Z":
            mv.zm = self.world.zm(key)
            ok = mv.zm.offset(t) == off
        try:
            if step["op"] == "load":
                if step["how"] == "pickle":
                    got = self.lib.pickle.loads(base64.b64decode(d["pickle"]))
                else:
                    got = self.lib.cls[kind].parse_common_iso(d["text"])
            else:
                got = self.lib.perform(step, self.ls)
            exc = None
        except Exception as e:
            got, exc = None, e
        self.log(i, self.seen_as(got, exc))
        how = step["op"] + ":" + step.get("how", "")
        self.cover.add(f"load/{how}/{kind}/{'valid' if ok else 'invalid'}/{'value' if exc is None else type(exc).__name__}/{self.envtag}")
        self.stats["loads_" + ("valid" if ok else "invalid")] = self.stats.get("loads_" + ("valid" if ok else "invalid"), 0) + 1
        if exc is not None:
            if kind == "Z" and "InvalidOffset" in exc_names(exc):
                if ok:
                    # allowed by the rules: refusing is no silent change
                    self.stats["refused_valid"] = self.stats.get("refused_valid", 0) + 1
                self.ms.pop(step.get("to"), None)
                self.ls.pop(step.get("to"), None)
                return True
            self.violation(i, step, "load-exception:" + type(exc).__name__, f"loading {fmt(mv)} raised {exc!r}")
            return False
        if step["op"] == "pyrt" and self.lib.check(got, src) is None:
            # the datetime brought the old rules along
            self.ms[step["to"]], self.ls[step["to"]] = src, got
            return True
        if not ok:
            # only the same moment in its new guise will do (a time that is
            # skipped under the new rules)
            self.stats["moved"] = self.stats.get("moved", 0) + 1
            mv = MV(kind, t, ns, mv.zm.offset(t), key, mv.zm)
        d = self.lib.check(got, mv)
        if d is not None:
            self.violation(i, step, "load-value:" + d.split(" ")[0], f"stored {fmt(mv)} was loaded as {txt(got)}: {d}")
            return False
        self.ms[step["to"]], self.ls[step["to"]] = mv, got
        return True

    def result(self):
        r = super().result()
        r["durable"] = self.durable
        r["db"] = self.world.db
        r["sys"] = self.world.sys
        return r


class Either:
    kind = "either"

    def __init__(self, outs):
        self.outs = outs


@register
class C12(Hist):
    prop = "C12"
    profile = {"kinds": "ZZZZZI", "create": {"Z": ["ts", "ts", "mk", "parse"]}}
    weights = {"create": 5, "save": 5, "load": 5, "convert": 3, "cmp": 3, "diff": 1, "add_exact": 2, "add_cal": 2,
               "replace": 1, "round": 1, "day_ops": 1, "store": 2, "pyrt": 2}
    nkeys = (1, 2)
    nsys = (1, 1)
    steps = (10, 30)
    Exec = UpdateExec
    own_ops = ("cmp", "diff", "from_ts", "to_tz", "mkZ", "parse", "pickle", "text", "pyrt", "copy", "to_off", "instant", "local")

    def gen(self, rng):
        zones, db, sysn = universe(rng, self.nkeys, self.nsys, share=0)
        versions = {}
        for k in sorted(db):
            versions[k] = [db[k]]
            for j in range(rng.randint(1, 2)):
                n = f"{db[k]}u{j}"
                zones[n] = TZ.mutate_spec(rng, zones[versions[k][-1]]) if rng.random() < 0.8 else \
                    dict(zones[rng.choice(sorted(zones))])
                versions[k].append(n)
        trace = {"prop": "C12", "zones": zones, "db": db, "sys0": None, "steps": []}
        if rng.random() < 0.25:
            trace["shy"] = True
        g = UGen(rng, trace, self.profile)
        g.versions = versions
        n = rng.randint(*self.steps)
        tries = 0
        saved = []
        while len(trace["steps"]) < n and tries < 20 * n:
            tries += 1
            r = rng.random()
            if r < 0.12:
                k = g.key()
                z = rng.choice(versions[k])
                trace["steps"].append({"op": "update", "key": k, "zone": z})
                g.world.db[k] = z
            elif r < 0.17:
                trace["steps"].append({"op": "restart"})
                g.slots.clear()
            elif r < 0.2:
                trace["steps"].append({"op": rng.choice(["gc", "clear_cache", "evict"])})
            else:
                op = g.weighted(self.weights)
                if op == "save":
                    src = g.pick("ZZI")
                    if src:
                        name = f"d{rng.randrange(8)}"
                        saved.append(name)
                        trace["steps"].append({"op": "save", "src": src, "name": name, "proto": rng.randrange(2, 6)})
                elif op == "load":
                    if saved:
                        trace["steps"].append({"op": "load", "to": f"l{rng.randrange(4)}", "name": rng.choice(saved),
                                               "how": rng.choice(["pickle", "text"])})
                elif op == "create" and rng.random() < 0.6:
                    g.aimed()
                elif op == "pyrt":
                    src = g.pick("Z")
                    if src:
                        g.emit({"op": "pyrt", "to": g.slot(), "src": src, "target": "Z"})
                elif op == "replace":
                    g.replace("Z")
                elif op in ("add_cal",):
                    g.add_cal("Z", aimed=False)
                else:
                    getattr(g, op)()
        return trace

    def run(self, trace, runner, cpu=10):
        """Splits at restarts: only the database and stored values survive."""
        phases = [[]]
        at = [0]
        for i, st in enumerate(trace["steps"]):
            if st["op"] == "restart":
                phases.append([])
                at.append(i + 1)
            else:
                phases[-1].append(st)
        durable, db = {}, trace["db"]
        total = {"stats": {}, "cover": set(), "dig": [], "nt": False, "t": [None, None]}
        import hashlib

        for ph, base in zip(phases, at):
            t = {**trace, "steps": ph, "durable": durable, "db": db}
            r = runner.child(self.child, t, cpu=cpu)
            if r.get("died"):
                return r
            durable, db = r["durable"], r["db"]
            for k, n in r["stats"].items():
                total["stats"][k] = total["stats"].get(k, 0) + n
            total["cover"].update(r["cover"])
            total["dig"].append(r["digest"])
            total["nt"] |= r["nontrivial"]
            v = r["v"]
            if v:
                v["at"] += base
                break
        total["stats"]["env_restart"] = len(phases) - 1
        return {"v": v, "stats": total["stats"], "cover": sorted(total["cover"]), "t": r["t"],
                "digest": hashlib.sha256(repr(total["dig"]).encode()).hexdigest()[:16], "nontrivial": total["nt"]}

    def owns_recheck(self, mv):
        return mv.kind == "Z"


class UGen(Gen):
    def emit(self, step):
        src = self.slots.get(step.get("src"))
        if src is not None and src.kind == "Z" and src.zm is not self.world.zm(src.key):
            if step["op"] in ("add", "replace", "round", "sod", "daylen", "ambiguous", "pickle", "text", "pyrt"):
                # the result's rules are not known: only executed
                if step["op"] == "replace" and "tz" in step["f"]:
                    return None
                self.steps.append(step)
                self.slots.pop(step.get("to"), None)
                return None
        return super().emit(step)

    def aimed(self):
        """A moment whose offset differs between versions of the zone."""
        rng = self.rng
        k = self.key()
        zs = [self.world.zones[z] for z in self.versions[k]]
        for _ in range(12):
            t = gen_t(rng, rng.choice(zs)) + rng.choice([0, 0, rng.randrange(-7 * 86400, 7 * 86400)])
            if len({z.offset(t) for z in zs}) > 1 or rng.random() < 0.1:
                break
        return self.ts("Z", self.slot(), t, gen_ns(rng), key=k)
