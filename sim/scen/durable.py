"""C13: stored values across process restarts and environments."""
import base64
import hashlib
import json
import os
import pickle

from .. import calls
from ..env import Env
from ..gen import Gen, universe
from ..machine import ENV_OPS, NS, Lib, txt
from ..tz import HERE
from .base import Scenario, register

GOLDEN = os.path.join(HERE, "golden.jsonl")
_golden = None


def golden():
    global _golden
    if _golden is None:
        with open(GOLDEN) as f:
            _golden = [json.loads(x) for x in f]
    return _golden


def obs(v):
    """Observation without the hash (which may differ between processes)."""
    return calls.nohash(calls.observe(v))


def child(trace, root):
    import contextlib

    import whenever as W

    env = Env(trace, root)
    for k in trace.get("gold_db", ()):
        env.put(k, None, open(os.path.join(HERE, "zones", k), "rb").read())
    lib = Lib()
    slots, durable = {}, dict(trace["durable"])
    v = soft = None
    stats = {"saves": 0, "loads": 0, "torn": 0, "golden": 0, "steps": 0}
    cover, log = set(), []
    ctx = contextlib.nullcontext()
    if trace.get("patch"):
        ctx = W.patch_current_time(W.Instant.from_timestamp(trace["patch"][0]), keep_ticking=trace["patch"][1])
        stats["env_patch"] = 1

    def bad(i, st, cat, msg):
        return {"sig": f"{st['op']}:{cat}", "at": i, "msg": f"step {i} {st}: {msg}"}

    with ctx:
        for i, st in enumerate(trace["steps"]):
            op = st["op"]
            stats["steps"] += 1
            if op in ENV_OPS:
                env.apply(st)
            elif op == "save":
                if st["src"] not in slots:
                    continue
                x = slots[st["src"]]
                d = {"obs": obs(x), "type": type(x).__name__, "proto": st["proto"]}
                try:
                    d["pickle"] = base64.b64encode(pickle.dumps(x, protocol=st["proto"])).decode()
                    d["common"] = x.format_common_iso()
                    if hasattr(x, "format_rfc3339"):
                        # these formats have no room for seconds in the offset
                        if not hasattr(x, "offset") or x.offset.in_nanoseconds() % (60 * NS) == 0:
                            d["rfc3339"] = x.format_rfc3339()
                            d["rfc2822"] = x.format_rfc2822()
                            d["stamp"] = [x.timestamp(), x.offset.in_nanoseconds() if hasattr(x, "offset") else 0]
                except Exception as e:
                    v = bad(i, st, "exception:" + type(e).__name__, f"storing {txt(x)} raised {e!r}")
                    break
                durable[st["name"]] = d
                stats["saves"] += 1
                cover.add(f"save/{d['type']}/{st['proto']}")
            elif op == "load":
                d = durable.get(st["name"])
                if d is None or st["how"] not in d:
                    continue
                how = st["how"]
                stats["loads"] += 1
                try:
                    x = load(W, d, how)
                except Exception as e:
                    v = bad(i, st, "exception:" + type(e).__name__,
                            f"loading {d['type']} {d[how]!r} (stored from {show(d['obs'])}) raised {e!r}")
                    break
                cover.add(f"load/{how}/{d['type']}/{trace['interp']}/{bool(trace.get('patch'))}")
                if type(x).__name__ != d["type"]:
                    v = bad(i, st, "type", f"stored a {d['type']}, loaded a {type(x).__name__}")
                    break
                if how == "rfc2822":
                    got = [x.timestamp(), x.offset.in_nanoseconds() if hasattr(x, "offset") else 0]
                    if got != d["stamp"]:
                        if got == early_year(d["stamp"]):
                            soft = soft or bad(i, st, "rfc2822-year-below-100", f"stored {show(d['obs'])} as {d[how]!r}, loaded {txt(x)}")
                            continue
                        v = bad(i, st, "value", f"stored {show(d['obs'])} as {d[how]!r}, loaded {txt(x)}")
                        break
                else:
                    o = obs(x)
                    if o != d["obs"]:
                        v = bad(i, st, "value", f"stored {show(d['obs'])} as {d[how]!r}, loaded {show(o)}")
                        break
                    twin = load(W, d, "common" if how == "pickle" else "pickle")
                    if not (x == twin and hash(x) == hash(twin)):
                        v = bad(i, st, "unequal", f"{txt(x)} loaded from pickle and from text are not equal, or hash differently")
                        break
                    slots[st["to"]] = x
                log.append(txt(x))
            elif op == "torn":
                d = durable.get(st["name"])
                if d is None:
                    continue
                data = base64.b64decode(d["pickle"])
                n = min(int(st["at"] * len(data)), len(data) - 1)
                stats["torn"] += 1
                try:
                    x = pickle.loads(data[:n])
                except Exception as e:
                    log.append(type(e).__name__)
                    continue
                v = bad(i, st, "accepted", f"{n} of {len(data)} bytes of a pickled {d['type']} were loaded as {txt(x)}")
                break
            elif op == "golden":
                g = golden()[st["n"] % len(golden())]
                stats["golden"] += 1
                try:
                    x = pickle.loads(base64.b64decode(g["pickle"]))
                    o = obs(x)
                except Exception as e:
                    v = bad(i, st, "exception:" + type(e).__name__, f"a pickle of {show(g['obs'])} by the pinned release raised {e!r}")
                    break
                cover.add(f"golden/{g['obs'].split(chr(31))[0]}/{trace['interp']}")
                if o != g["obs"]:
                    v = bad(i, st, "value", f"the pinned release pickled {show(g['obs'])}; loaded {show(o)}")
                    break
            else:
                try:
                    if op == "call":
                        r = calls.perform(W, st, slots)
                    else:
                        if any(st.get(k) is not None and st[k] not in slots for k in ("src", "a", "b")):
                            continue
                        r = lib.perform(st, slots)
                except Exception:
                    slots.pop(st.get("to"), None)
                    continue
                if st.get("to"):
                    slots[st["to"]] = r
    stats.update({"env_" + k: n for k, n in env.counts.items()})
    return {"v": v or soft, "stats": stats, "cover": sorted(cover), "durable": durable,
            "digest": hashlib.sha256(repr([log, sorted((k, d["obs"], d["pickle"]) for k, d in durable.items())]).encode()).hexdigest()[:16]}


def early_year(stamp):
    """What the (known) misreading of years 1-99 makes of a stored moment."""
    from datetime import datetime, timedelta

    loc = datetime(1, 1, 1) + timedelta(seconds=stamp[0] + stamp[1] // NS + 62135596800)
    if loc.year >= 100:
        return None
    new = loc.replace(year=loc.year + (1900 if loc.year > 68 else 2000))
    return [stamp[0] + int((new - loc).total_seconds()), stamp[1]]


def show(o):
    return o.split("\x1f")[1] if "\x1f" in o else o


def load(W, d, how):
    if how == "pickle":
        return pickle.loads(base64.b64decode(d["pickle"]))
    c = getattr(W, d["type"])
    return {"common": lambda: c.parse_common_iso, "rfc3339": lambda: c.parse_rfc3339,
            "rfc2822": lambda: c.parse_rfc2822}[how]()(d[how])


@register
class C13(Scenario):
    prop = "C13"

    def gen(self, rng):
        zones, db, sysn = universe(rng, (1, 2), (1, 3))
        trace = {"prop": "C13", "zones": zones, "db": db, "sys0": rng.choice(sysn + [None]), "steps": []}
        steps = trace["steps"]
        g = Gen(rng, trace, {"kinds": "IOZZSSL"})
        cg = calls.CallGen(rng, steps)
        saved = []
        n = rng.randint(14, 40)
        while len(steps) < n:
            r = rng.random()
            if r < 0.2:
                rng.choice([g.create, g.create, g.convert, g.add_exact, g.add_cal])()
            elif r < 0.4:
                cg.step()
            elif r < 0.65:
                c = sorted(g.slots) + sorted(cg.slots)
                if c:
                    name = f"d{rng.randrange(12)}"
                    saved.append(name)
                    steps.append({"op": "save", "src": rng.choice(c), "name": name, "proto": rng.randrange(0, 6)})
            elif r < 0.85:
                if saved:
                    steps.append({"op": "load", "to": f"x{rng.randrange(5)}", "name": rng.choice(saved),
                                  "how": rng.choice(["pickle", "pickle", "common", "common", "rfc3339", "rfc2822"])})
                    if rng.random() < 0.3:
                        name = f"d{rng.randrange(12)}"
                        saved.append(name)
                        steps.append({"op": "save", "src": steps[-1]["to"], "name": name, "proto": rng.randrange(0, 6)})
            elif r < 0.88:
                if saved:
                    steps.append({"op": "torn", "name": rng.choice(saved), "at": round(rng.random(), 4)})
            elif r < 0.91:
                steps.append({"op": "golden", "n": rng.randrange(100000)})
            elif r < 0.95:
                g.settz(sysn + [None])
            elif saved:
                z = rng.choice(sysn + [None])
                st = {"op": "restart", "interp": rng.randrange(2), "sys": z,
                      "clock": rng.randrange(-9_000_000_000, 9_000_000_000) * NS}
                if rng.random() < 0.3:
                    st["patch"] = [rng.randrange(-9_000_000_000, 9_000_000_000), rng.random() < 0.5]
                steps.append(st)
                g.world.sys = z
                g.slots.clear()
                cg.slots.clear()
        if saved:
            # finally everything is read elsewhere
            steps.append({"op": "restart", "interp": 1, "sys": rng.choice(sysn + [None]), "clock": 0})
            for name in sorted(set(saved)):
                for how in ("pickle", "common"):
                    steps.append({"op": "load", "to": "x0", "name": name, "how": how})
        return trace

    def run(self, trace, runner, cpu=10):
        cur = {"interp": 0, "sys": trace["sys0"], "clock": 1_700_000_000 * NS}
        phases = [(cur, 0, [])]
        for i, st in enumerate(trace["steps"]):
            if st["op"] == "restart":
                phases.append((st, i + 1, []))
            else:
                phases[-1][2].append(st)
        durable, stats, cover, dig, v, soft = {}, {}, set(), [], None, None
        gold = sorted({g["key"] for g in golden() if g.get("key")}) if any(s["op"] == "golden" for s in trace["steps"]) else []
        for ph, base, steps in phases:
            if not steps:
                continue
            # golden files use real names: those of the run give way there
            parts = [steps] if not gold else split_golden(steps)
            for part in parts:
                isg = part and part[0]["op"] == "golden"
                t = {**trace, "steps": part, "sys0": ph["sys"], "clock0": ph["clock"], "patch": ph.get("patch"),
                     "durable": durable, "interp": ph["interp"]}
                if isg:
                    t["gold_db"] = gold
                    t["db"] = {}
                if ph["interp"] == 0:
                    r = runner.child(child, t, cpu=cpu)
                else:
                    r = runner.child2("sim.scen.durable:child", t, cpu=cpu)
                if r.get("died"):
                    return r
                if not isg:
                    durable = r["durable"]
                for k, n in r["stats"].items():
                    stats[k] = stats.get(k, 0) + n
                cover.update(r["cover"])
                dig.append(r["digest"])
                if r["v"] and r["v"]["sig"] == "load:rfc2822-year-below-100":
                    soft = soft or r["v"]
                elif r["v"]:
                    v = r["v"]
                    break
            if v:
                break
        v = v or soft
        stats["env_restart"] = len(phases) - 1
        stats["env_restart_other_hash_seed"] = sum(p[0]["interp"] for p in phases)
        return {"v": v, "stats": stats, "cover": sorted(cover), "t": [None, None],
                "digest": hashlib.sha256(repr(dig).encode()).hexdigest()[:16], "nontrivial": stats.get("loads", 0) > 0}

    def simpler(self, trace):
        for i, st in enumerate(trace["steps"]):
            if st["op"] == "restart" and st.get("patch"):
                new = {k: x for k, x in st.items() if k != "patch"}
                yield {**trace, "steps": trace["steps"][:i] + [new] + trace["steps"][i + 1:]}
        yield from super().simpler(trace)


def split_golden(steps):
    """Golden pickles are loaded in processes of their own."""
    plain = [s for s in steps if s["op"] != "golden"]
    gold = [s for s in steps if s["op"] == "golden"]
    return [p for p in (plain, gold) if p]
