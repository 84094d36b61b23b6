"""Seeded generation of machine traces.  Uses the model only, never the
library, so a trace depends on nothing but its seed."""
from . import tz as TZ
from .machine import (
    UNIT_NS,
    NS, ROUND_NS, Expected, Skip, T_MAX, T_MIN, World, expect, shift_cal, day_len,
)
from .tz import DAY, local_fields, local_secs, month_len

REAL_HOT = [z for z in TZ.REAL if z not in ("UTC", "Asia/Tokyo")]
KEYS = [
    "Sim/A", "Sim/B", "Sim/C", "Sim/Deep/D", "Sim/E_e", "Sim/F-1",
    "Europe/Amsterdam", "America/New_York", "Etc/GMT+7", "Zulu", "PST8PDT",
    "Sim/a", "Sim/Deep/A", "Etc/GMT-7", "America/Sim/A",
]
DIS = ["compatible", "earlier", "later", "raise"]
MIN_T, MAX_T = local_secs(1850, 1, 1), local_secs(2200, 1, 1)
FAR_LO, FAR_HI = local_secs(3, 1, 1), local_secs(9990, 1, 1)


def gen_zone(rng, near=False):
    if rng.random() < 0.45:
        return {"real": rng.choice(REAL_HOT if rng.random() < 0.95 else TZ.REAL)}
    return TZ.gen_synth(rng, near)


def universe(rng, nkeys=(1, 4), nsys=(1, 3), share=0.15):
    """zones, db and an initial system zone."""
    zones, db = {}, {}
    keys = rng.sample(KEYS, rng.randint(*nkeys))
    for i, k in enumerate(keys):
        if zones and rng.random() < share:
            # two ids with the same rules (a link)
            db[k] = rng.choice(sorted(zones))
            continue
        zones[f"z{i}"] = gen_zone(rng, True)
        db[k] = f"z{i}"
    sysn = []
    for i in range(rng.randint(*nsys)):
        ok = [z for z in sorted(zones) if "near" not in zones[z]]
        if ok and rng.random() < 0.25:
            sysn.append(rng.choice(ok))
        else:
            zones[f"s{i}"] = gen_zone(rng)
            sysn.append(f"s{i}")
    if rng.random() < 0.2:
        db["UTC"] = "utc"
        zones["utc"] = {"real": "UTC"}
    return zones, db, sysn


def gen_ns(rng):
    r = rng.random()
    if r < 0.4:
        return 0
    if r < 0.6:
        return rng.choice([1, 999, 1000, 999_999, 1_000_000, 500_000_000, 499_999_999, 500_000_001, 999_999_999])
    if r < 0.7:
        return rng.randrange(1_000_000) * 1000
    if r < 0.75:
        return rng.randrange(1000) * 1_000_000
    return rng.randrange(NS)


def gen_transition(rng, zm):
    """A transition (utc, before, after) of the model or None."""
    cands = []
    for _ in range(4):
        if zm.times and rng.random() < 0.6:
            u = rng.choice(zm.times)
        elif zm.footer and zm.footer.dst is not None:
            y = rng.choice([1972, 1973, 1999, 2000, 2020, 2023, 2024, 2037, 2038, 2039, 2099, 2100, 2101]) \
                if rng.random() < 0.3 else rng.randrange(1972, 2120)
            u = rng.choice(zm.footer.transitions(y))[0]
        elif zm.times:
            u = rng.choice(zm.times)
        else:
            return None
        if MIN_T <= u <= MAX_T:
            trs = zm.transitions_near(u, 1)
            for tr in trs:
                if tr[0] == u:
                    return tr
    return None


def gen_calendar(rng):
    """A second of a day that is telling in the calendar."""
    y = rng.choice([1900, 2100, 2100, 2000, 2004, 2023, 2024, 1896, 1999, 2096, rng.randrange(1880, 2190),
                    rng.randrange(20, 9990) if rng.random() < 0.3 else 2400])
    m, d = rng.choice([(2, 28), (2, 29), (2, 29), (3, 1), (1, 1), (12, 31), (1, 31), (rng.randrange(1, 13), 30),
                       (rng.randrange(1, 13), 31)])
    d = min(d, month_len(y, m))
    return local_secs(y, m, d) + rng.choice([0, DAY - 1, 43200, rng.randrange(DAY)])


def gen_any(rng):
    r = rng.random()
    if r < 0.15:
        return gen_calendar(rng)
    if r < 0.2:
        return rng.choice([0, 0, 1 << 31, -1 << 31, 1 << 32, 10**9, 253402300799 // 2]) + rng.choice([-1, 0, 0, 1])
    if r < 0.36:
        return rng.randrange(FAR_LO, FAR_HI)
    return rng.randrange(MIN_T, MAX_T)


def gen_end(rng):
    """A UTC second at an end of the supported range."""
    d = rng.choice([0, 0, 1, 3599, 3600, 43200, DAY, rng.randrange(3 * DAY)])
    return T_MIN + d if rng.random() < 0.5 else T_MAX - d


def gen_t(rng, zm):
    """A UTC second, usually close to one of zm's transitions."""
    tr = gen_transition(rng, zm) if rng.random() < 0.85 else None
    if tr is None:
        return gen_any(rng)
    u, x, y = tr
    d = abs(y - x)
    r = rng.random()
    if r < 0.3:
        return u + rng.choice([-1, 0, 0, 1, -d, d, d - 1, -d - 1, -d + 1, d + 1])
    if r < 0.7:
        return u + rng.randrange(-d - 1800, d + 1800)
    if r < 0.85:
        return u + rng.choice([-1, 1]) * rng.randrange(3 * DAY)
    return u + rng.choice([-1, 1]) * rng.choice([1, 6, 7, 8, 14, 30, 31, 100, 182, 365, 366]) * DAY + rng.randrange(-7200, 7200)


def gen_ls(rng, zm, p=0.9):
    """A local second, usually in or at the edge of a gap or fold."""
    tr = gen_transition(rng, zm) if rng.random() < p else None
    if tr is None:
        return gen_any(rng)
    u, x, y = tr
    lo, hi = u + min(x, y), u + max(x, y)
    r = rng.random()
    if r < 0.25:
        return rng.choice([lo - 1, lo, lo + 1, hi - 1, hi, hi + 1, (lo + hi) // 2])
    if r < 0.7:
        return rng.randrange(lo, hi)
    if r < 0.85:
        return rng.randrange(lo - 5400, hi + 5400)
    return rng.randrange(lo - 2 * DAY, hi + 2 * DAY)


def gen_day_ls(rng, zm):
    """A local second at a telling time of a day around a transition."""
    base = gen_ls(rng, zm)
    mid = base // DAY * DAY + rng.choice([0, 0, 0, DAY, -DAY])
    n = day_len(zm, mid)
    h = n // 2
    return mid + rng.choice(
        [0, 1, DAY - 1, h, h - 1, h + 1, 43200, 43199, 43201, 39600, 46800, DAY - 3600,
         rng.randrange(DAY), rng.randrange(DAY)]
    ) % DAY


def gen_off(rng):
    r = rng.random()
    if r < 0.4:
        return rng.randrange(-12, 15) * 3600
    if r < 0.7:
        return rng.randrange(-56, 57) * 900
    if r < 0.9:
        return rng.randrange(-14 * 60, 14 * 60) * 60
    return rng.randrange(-86399, 86400)


TWINS = {"sod", "daylen", "ambiguous", "round", "add", "replace", "cmp", "copy", "pickle", "text", "local", "instant"}


# unit, the one below it, how many of that make one, those that make an
# exact binary fraction
FRACTIONS = [("hours", "minutes", 60, 15), ("minutes", "seconds", 60, 15), ("seconds", "milliseconds", 1000, 125),
             ("milliseconds", "microseconds", 1000, 125), ("microseconds", "nanoseconds", 1000, 125)]


class Gen:
    def __init__(self, rng, trace, profile, gap=0.0, limit=12):
        self.rng, self.trace, self.p = rng, trace, profile
        self.world = World(trace)
        self.slots = {}
        self.made_with = {}  # index of a step -> the kinds of values it used
        self.steps = trace["steps"]
        self.n = 0
        self.limit = limit
        self.keys = sorted(trace["db"])
        # telling values per run ("swarm"): form subsets
        self.dis_w = rng.choice([0.2, 0.5, 0.9])
        self.kinds = profile.get("kinds", "IOZS")

    # -- plumbing
    def emit(self, step):
        """Append a step and track it in the model.  Returns the Out."""
        kinds = self.source_kinds(step)
        try:
            out = expect(step, self.world, self.slots)
        except Skip:
            return None
        except AssertionError:
            return None
        if out.kind == "val":
            if step.get("to"):
                self.slots[step["to"]] = out.vals[0]
        self.made_with[len(self.steps)] = kinds
        self.steps.append(step)
        return out

    def source_kinds(self, step):
        return [self.slots[step[k]].kind if step.get(k) in self.slots else None for k in ("src", "a", "b")]

    def again(self, i):
        """Step i once more, if its values are (still) of the same kinds."""
        st = self.steps[i]
        if self.made_with.get(i) == self.source_kinds(st):
            self.emit({**st, "to": self.slot()} if "to" in st and self.rng.random() < 0.5 else dict(st))

    def slot(self):
        rng = self.rng
        if len(self.slots) >= self.limit and rng.random() < 0.9:
            return rng.choice(sorted(self.slots))
        self.n += 1
        return f"v{self.n}"

    def pick(self, kinds):
        c = [s for s, m in self.slots.items() if m.kind in kinds]
        if not c:
            return None
        # recent values more often
        if self.rng.random() < 0.5:
            return c[-1 - min(int(self.rng.expovariate(0.7)), len(c) - 1)]
        return self.rng.choice(c)

    def key(self):
        return self.rng.choice(self.keys)

    def zm_any(self):
        """Some zone model of interest."""
        r = self.rng.random()
        if self.keys and r < 0.6:
            return self.world.zm(self.key())
        return self.world.sysm

    def zm_of(self, mv):
        if mv.kind == "Z":
            return mv.zm
        if mv.kind == "S":
            return self.world.sysm
        return self.zm_any()

    def dis(self, p=None):
        return self.rng.choice(DIS) if self.rng.random() < (self.dis_w if p is None else p) else None

    # -- creation
    def create(self, kind=None):
        rng = self.rng
        kind = kind or rng.choice(self.kinds)
        how = rng.choice(self.p.get("create", {}).get(kind, ["mk", "ts", "ts", "parse"]))
        to = self.slot()
        if kind == "L":
            if rng.random() < 0.25:
                return self.emit(self.py("L", to))
            return self.emit({"op": "mkL", "to": to, "ls": gen_ls(rng, self.zm_any()), "ns": gen_ns(rng)})
        if how == "py":
            st = self.py(kind, to)
            return st and self.emit(st)
        end = rng.random() < 0.015
        if kind == "I":
            t, ns = gen_end(rng) if end else gen_t(rng, self.zm_any()), gen_ns(rng)
            if how == "mk":
                return self.emit({"op": "mkI", "to": to, "t": t, "ns": ns})
            if how == "parse":
                return self.emit({"op": "parse", "to": to, "kind": "I", "t": t, "ns": ns})
            return self.ts("I", to, t, ns)
        if kind == "O":
            t, ns, off = gen_t(rng, self.zm_any()), gen_ns(rng), gen_off(rng)
            if rng.random() < 0.4:
                off = self.zm_any().offset(t)
            if end:
                t = gen_end(rng)
                off = abs(off) if t < 0 else -abs(off)
            if how == "mk":
                return self.emit({"op": "mkO", "to": to, "ls": t + off, "ns": ns, "off": off})
            if how == "parse":
                return self.emit({"op": "parse", "to": to, "kind": "O", "t": t, "ns": ns, "off": off})
            return self.ts("O", to, t, ns, off=off)
        if kind == "Z":
            if not self.keys:
                return None
            key = self.key()
            zm = self.world.zm(key)
            if how == "mk":
                return self.emit({"op": "mkZ", "to": to, "key": key, "ls": gen_ls(rng, zm), "ns": gen_ns(rng),
                                  "dis": self.dis(0.8)})
            if how == "parse":
                t = gen_t(rng, zm)
                return self.emit({"op": "parse", "to": to, "kind": "Z", "key": key, "t": t, "ns": gen_ns(rng),
                                  "off": zm.offset(t)})
            return self.ts("Z", to, gen_t(rng, zm), gen_ns(rng), key=key)
        zm = self.world.sysm
        if how == "mk":
            return self.emit({"op": "mkS", "to": to, "ls": gen_ls(rng, zm), "ns": gen_ns(rng), "dis": self.dis(0.8)})
        if how == "parse":
            t = gen_t(rng, zm)
            off = zm.offset(t) if rng.random() < 0.7 else gen_off(rng)
            return self.emit({"op": "parse", "to": to, "kind": "S", "t": t, "ns": gen_ns(rng), "off": off})
        return self.ts("S", to, gen_t(rng, zm), gen_ns(rng))

    def py(self, kind, to):
        """From a standard library datetime."""
        rng = self.rng
        st = {"op": "from_py", "to": to, "kind": kind, "us": gen_ns(rng) // 1000, "fold": rng.randrange(2)}
        if rng.random() < 0.3:
            st["sub"] = True
        if kind == "L":
            return {**st, "ls": gen_ls(rng, self.zm_any())}
        if kind == "Z" or (self.keys and rng.random() < 0.3):
            if not self.keys:
                return None
            key = self.key()
            return {**st, "key": key, "ls": gen_ls(rng, self.world.zm(key)),
                    "via": rng.choice(self.p.get("via", ["cached"]))}
        off = gen_off(rng)
        if rng.random() < 0.5 and kind == "I":
            off = 0
        return {**st, "ls": gen_t(rng, self.zm_any()) + off, "off": off}

    def ts(self, kind, to, t, ns, **kw):
        unit = self.rng.choice(["s", "ms", "ns", "ns"])
        if kind in "IS" and self.rng.random() < 0.12:
            unit = "f"
        n = {"s": t, "ms": t * 1000 + ns // 1_000_000, "ns": t * NS + ns, "f": t * 512 + ns // 1953125}[unit]
        return self.emit({"op": "from_ts", "to": to, "kind": kind, "unit": unit, "n": n, **kw})

    # -- amounts
    def exact_amt(self, tot):
        """Split a total of nanoseconds into keyword amounts."""
        rng = self.rng
        amt = {}
        names = ["hours", "minutes", "seconds", "milliseconds", "microseconds", "nanoseconds"]
        units = [3600 * NS, 60 * NS, NS, 1_000_000, 1000, 1]
        start = rng.choice([0, 0, 0, 1, 2, 5])
        for n, u in list(zip(names, units))[start:]:
            q = int(tot / u) if abs(tot) < 1 << 52 else (abs(tot) // u) * (1 if tot >= 0 else -1)
            if abs(q * u) > abs(tot):
                q -= 1 if q > 0 else -1
            if u == 1:
                q = tot
            if q:
                amt[n] = q
                tot -= q * u
        if not amt:
            amt = {"seconds": 0}
        # an equivalent fractional rendering (exact in binary) now and then
        if rng.random() < 0.15:
            for n, u, per, step in rng.sample(FRACTIONS, len(FRACTIONS)):
                v, w = amt.get(u, 0), amt.get(n, 0)
                if type(v) is not int or type(w) is not int or abs(w) >= 1000:
                    continue
                if not v and rng.random() < 0.3:
                    # other amounts make up for it
                    v = rng.choice([-1, 1]) * step * rng.randrange(1, per // step)
                    low = "nanoseconds"
                    if type(amt.get(low, 0)) is not int or n == low or u == low:
                        continue
                    amt[low] = amt.get(low, 0) - v * UNIT_NS[u]
                elif not v or v % step:
                    continue
                if abs(v) < 10000:
                    amt[n] = w + v / per
                    amt.pop(u, None)
                    break
        return amt

    def cal_amt(self):
        rng = self.rng
        amt = {}
        r = rng.random()
        sign = rng.choice([1, 1, -1])
        if r < 0.03:
            amt[rng.choice(["years", "months", "weeks", "days"])] = 0
        elif r < 0.35:
            amt["days"] = sign * rng.choice([1, 1, 2, 7, 30, 31, 90, 182, 365, rng.randrange(1, 4000)])
        elif r < 0.5:
            amt["weeks"] = sign * rng.choice([1, 2, 4, 26, 52])
        elif r < 0.7:
            amt["months"] = sign * rng.choice([1, 1, 2, 5, 6, 7, 11, 12, 13, 120])
        elif r < 0.8:
            amt["years"] = sign * rng.choice([1, 1, 4, 5, 20])
        else:
            for n, m in (("years", 3), ("months", 14), ("weeks", 5), ("days", 40)):
                if rng.random() < 0.55:
                    amt[n] = sign * rng.randrange(0, m)
            if not any(amt.get(x) for x in ("years", "months", "weeks", "days")):
                amt["days"] = sign
        return amt, sign

    def mixed(self, amt):
        """Amounts in opposite directions, as keywords allow."""
        rng = self.rng
        cal = [n for n in ("years", "months", "weeks", "days") if amt.get(n)]
        if not cal:
            return amt
        amt = dict(amt)
        if len(cal) < 2 or rng.random() < 0.3:
            n = rng.choice([x for x in ("years", "months", "weeks", "days") if x != cal[0]])
            m = amt[cal[0]]
            amt[n] = -(m if n != "days" or rng.random() < 0.6 else m * {"years": 365, "months": 30, "weeks": 7}.get(cal[0], 1))
        else:
            n = rng.choice(cal)
            amt[n] = -amt[n]
        if rng.random() < 0.15 and type(amt.get("hours", 0)) is int:
            amt["hours"] = amt.get("hours", 0) - 24 * amt.get("days", 1)
        return amt

    # -- operations
    def add_exact(self, kinds="IOZS"):
        rng = self.rng
        src = self.pick(kinds)
        if src is None:
            return None
        mv = self.slots[src]
        r = rng.random()
        if r < 0.6:
            target = gen_t(rng, self.zm_of(mv)) * NS + gen_ns(rng)
            tot = target - mv.total
        elif r < 0.8:
            tot = rng.choice([-1, 1]) * rng.choice([0, 1, 999, 1000, NS - 1, NS, 60 * NS, 3600 * NS, DAY * NS, 1800 * NS])
        else:
            tot = rng.randrange(-60 * 366 * DAY, 60 * 366 * DAY) * NS + gen_ns(rng)
        if mv.kind != "L" and not MIN_T - 50 * 366 * DAY <= (mv.total + tot) // NS <= MAX_T + 50 * 366 * DAY:
            tot = -tot // 7
        sign = rng.choice([1, 1, -1])
        amt = self.exact_amt(tot * sign)
        if "O" == mv.kind or mv.kind == "L":
            form = rng.choice(["kw", "delta"])
        else:
            form = rng.choice(["kw", "kw", "delta", "op"])
        return self.emit({"op": "add", "to": self.slot(), "src": src, "amt": amt, "sign": sign, "form": form})

    def add_cal(self, kinds="ZS", aimed=True):
        rng = self.rng
        amt, sgn = self.cal_amt()
        if rng.random() < 0.2:
            # with exact units as well (same direction: deltas refuse mixes)
            amt.update(self.exact_amt(sgn * rng.randrange(1, 4 * DAY) * NS))
        sign = rng.choice([1, 1, -1])
        mixed = rng.random() < 0.12
        if mixed:
            amt = self.mixed(amt)
        src = None
        if aimed and rng.random() < 0.75:
            # aim: choose the target, work the start back
            kind = rng.choice(kinds)
            zm = None
            if kind == "Z" and self.keys:
                key = self.key()
                zm = self.world.zm(key)
            elif kind == "S":
                zm = self.world.sysm
            if zm is not None:
                target = gen_ls(rng, zm) if rng.random() < 0.93 else gen_calendar(rng)
                from .machine import amounts

                mo, da, _ = amounts(amt)
                try:
                    start = shift_cal(target, -mo * sign, 0)
                    start = shift_cal(start, 0, -da * sign) if rng.random() < 0.5 else \
                        shift_cal(shift_cal(target, 0, -da * sign), -mo * sign, 0)
                    off = self._pref_off(zm, target, start)
                    src = self.slot()
                    if kind == "Z":
                        o = self.ts("Z", src, start - off, gen_ns(rng), key=key)
                    else:
                        o = self.ts("S", src, start - off, gen_ns(rng))
                    if o is None or o.kind != "val":
                        src = None
                except (Expected, Skip):
                    src = None
        src = src or self.pick(kinds)
        if src is None:
            return None
        mv = self.slots[src]
        form = "kw" if mixed else rng.choice(["kw", "kw", "delta"] + (["op"] if mv.kind in "ZS" else []))
        step = {"op": "add", "to": self.slot(), "src": src, "amt": amt, "sign": sign, "form": form}
        if mv.kind in "ZS" and form != "op":
            step["dis"] = self.dis()
        return self.emit(step)

    def _pref_off(self, zm, target, start):
        """An offset under which start lies close to valid local time."""
        kind, us = zm.local(start)
        return start - self.rng.choice(us)

    def replace(self, kinds="ZS"):
        rng = self.rng
        src = self.pick(kinds)
        if src is None:
            return None
        mv = self.slots[src]
        zm = self.zm_of(mv)
        form = rng.choice(["kw", "kw", "date", "time"])
        f = {}
        newtz = None
        if form == "kw" and mv.kind == "Z" and rng.random() < 0.45:
            newtz = f["tz"] = mv.key if rng.random() < 0.4 else self.key()
            zm = self.world.zm(newtz)
        target = gen_ls(rng, zm)
        if rng.random() < 0.2:
            # what it is already, or next to it
            target = mv.ls + rng.choice([0, 0, 0, 1, -60, 3600, -3600, DAY, -DAY])
        y = local_fields(target)
        if form == "date":
            f = dict(zip(("year", "month", "day"), y[:3]))
        elif form == "time":
            f = dict(zip(("hour", "minute", "second"), y[3:]), nanosecond=gen_ns(rng))
        else:
            r = rng.random()
            if r < 0.5:
                for n, a in zip(("year", "month", "day", "hour", "minute", "second"), y):
                    f[n] = a
            elif r < 0.8:
                for n, a in zip(("year", "month", "day", "hour", "minute", "second"), y):
                    if rng.random() < 0.4:
                        f[n] = a
            if rng.random() < 0.3:
                f["nanosecond"] = gen_ns(rng)
            if not f:
                f["nanosecond"] = gen_ns(rng)
        step = {"op": "replace", "to": self.slot(), "src": src, "form": form, "f": f}
        if mv.kind in "ZS":
            step["dis"] = self.dis()
        return self.emit(step)

    def day_ops(self):
        rng = self.rng
        # a value on a telling day
        if rng.random() < 0.6:
            kind = rng.choice([k for k in self.kinds if k in "ZS"])
            if kind == "Z" and not self.keys:
                kind = "S"
            key = self.key() if kind == "Z" else None
            zm = self.world.zm(key) if kind == "Z" else self.world.sysm
            ls = gen_day_ls(rng, zm)
            _, us = zm.local(ls)
            src = self.slot()
            t, ns = rng.choice(us), rng.choice([0, 0, 0, 1, NS - 1, gen_ns(rng)])
            n = t * NS + ns
            if self.emit({"op": "from_ts", "to": src, "kind": kind, "unit": "ns", "n": n, "key": key}) is None:
                return None
        else:
            src = self.pick("ZS")
            if src is None:
                return None
        r = rng.random()
        if r < 0.25:
            return self.emit({"op": "sod", "to": self.slot(), "src": src})
        if r < 0.45:
            return self.emit({"op": "daylen", "src": src})
        return self.round(src, day=0.6)

    def round(self, src=None, kinds=None, day=0.2):
        rng = self.rng
        src = src or self.pick(kinds or self.kinds)
        if src is None:
            return None
        if rng.random() < day:
            unit, incr = "day", 1
        else:
            unit = rng.choice(["hour", "hour", "minute", "minute", "second", "millisecond", "microsecond", "nanosecond"])
            if unit == "hour":
                incr = rng.choice([1, 2, 3, 4, 6, 8, 12])
            elif unit in ("minute", "second"):
                incr = rng.choice([1, 2, 3, 4, 5, 6, 10, 12, 15, 20, 30])
            else:
                incr = rng.choice([1, 2, 5, 8, 10, 20, 25, 100, 125, 250, 500])
        mode = rng.choice(["ceil", "floor", "half_even", "half_ceil", "half_floor"])
        how = rng.choice(["pos", "kw", "def"])
        if how == "def":
            # what is not given has a default
            if rng.random() < 0.3:
                unit, incr = "second", rng.choice([1, 1, 20])
            if rng.random() < 0.5:
                incr = 1
            if rng.random() < 0.5:
                mode = "half_even"
        return self.emit({"op": "round", "to": self.slot(), "src": src, "unit": unit, "incr": incr,
                          "mode": mode, "how": how})

    def diff(self):
        if self.rng.random() < 0.15:
            ab = self.around()
            return ab and self.emit({"op": "diff", "a": ab[0], "b": ab[1], "how": self.rng.choice(["op", "meth"])})
        a, b = self.pick("IOZS"), self.pick("IOZS")
        if a is None:
            return None
        return self.emit({"op": "diff", "a": a, "b": b, "how": self.rng.choice(["op", "meth"])})

    def cmp(self):
        rng = self.rng
        if rng.random() < 0.15:
            ab = self.around()
            return ab and self.emit({"op": "cmp", "a": ab[0], "b": ab[1]})
        a = self.pick("IOZS")
        if a is None:
            return None
        if rng.random() < 0.5:
            # a close relative: same moment or local time through another route
            b = self.relative(a)
            if b is None:
                return None
        else:
            b = self.pick("IOZS")
        if rng.random() < 0.5:
            a, b = b, a
        return self.emit({"op": "cmp", "a": a, "b": b})

    def around(self):
        """Two moments on either side of a transition, or in its fold."""
        rng = self.rng
        kind = rng.choice([k for k in self.kinds if k in "ZS"] or ["S"])
        key = self.key() if kind == "Z" and self.keys else None
        kind = kind if key else "S"
        zm = self.world.zm(key) if key else self.world.sysm
        tr = None
        for _ in range(8):
            tr = gen_transition(rng, zm)
            if tr is not None and (tr[2] < tr[1] or rng.random() < 0.3):
                break
        if tr is None:
            return None
        d = abs(tr[2] - tr[1])
        out = []
        for t in (tr[0] - rng.randrange(1, d + 1), tr[0] + rng.randrange(d)):
            to = self.slot()
            if to in out:
                return None
            o = self.emit({"op": "from_ts", "to": to, "kind": kind, "unit": "ns", "n": t * NS + gen_ns(rng),
                           **({"key": key} if key else {})})
            if o is None or o.kind != "val":
                return None
            out.append(to)
        rng.shuffle(out)
        return out

    def relative(self, a):
        rng = self.rng
        mv = self.slots[a]
        to = self.slot()
        if to == a:
            return None
        r = rng.random()
        if r < 0.4:  # the other side of a fold / one step away
            d = rng.choice([0, 0, 1, -1, NS, -NS])
            tot = mv.total + d
            if mv.kind in "ZS" and rng.random() < 0.7:
                kind, us = self.zm_of(mv).local(mv.ls)
                if kind == "fold":
                    tot = rng.choice(us) * NS + mv.ns + (d if rng.random() < 0.3 else 0)
            kw = {"key": mv.key} if mv.kind == "Z" else ({"off": mv.off} if mv.kind == "O" else {})
            o = self.emit({"op": "from_ts", "to": to, "kind": mv.kind, "unit": "ns", "n": tot, **kw})
        else:
            o = self.convert(a, to)
        return to if o is not None and o.kind == "val" and self.slots[to].kind != "L" else None

    def convert(self, src=None, to=None):
        rng = self.rng
        src = src or self.pick("IOZS")
        if src is None:
            return None
        mv = self.slots[src]
        to = to or self.slot()
        c = ["to_sys", "to_off", "copy"]
        if self.keys:
            c += ["to_tz", "to_tz"]
        if mv.kind != "I":
            c += ["instant"]
        else:
            c += []
        c += ["pickle", "text"] if rng.random() < 0.3 else []
        op = rng.choice(c)
        if op == "to_tz":
            return self.emit({"op": op, "to": to, "src": src, "key": mv.key if mv.key and rng.random() < 0.3 else self.key()})
        if op == "to_off":
            off = None if rng.random() < 0.5 else gen_off(rng)
            if off is None and mv.kind == "I":
                off = 0
            return self.emit({"op": op, "to": to, "src": src, "off": off})
        if op == "copy":
            return self.emit({"op": op, "to": to, "src": src, "how": rng.choice(["copy", "deepcopy"])})
        if op == "pickle":
            return self.emit({"op": op, "to": to, "src": src, "proto": rng.randrange(2, 6)})
        if op == "text":
            return self.emit({"op": op, "to": to, "src": src, "how": rng.choice(["str", "fmt"])})
        return self.emit({"op": op, "to": to, "src": src})

    def store(self, kinds="IOZSL"):
        rng = self.rng
        src = self.pick(kinds)
        if src is None:
            return None
        op = rng.choice(["copy", "pickle", "text"])
        st = {"op": op, "to": self.slot(), "src": src}
        st.update({"copy": {"how": rng.choice(["copy", "deepcopy"])}, "pickle": {"proto": rng.randrange(2, 6)},
                   "text": {"how": rng.choice(["str", "fmt"])}}[op])
        return self.emit(st)

    def twin(self, st):
        """The same operation on a value that is the same moment, or the same
        local time, elsewhere."""
        rng = self.rng
        name = "a" if st["op"] == "cmp" else "src"
        src = st.get(name)
        mv = self.slots.get(src)
        if st["op"] not in TWINS or mv is None or mv.kind not in "ZS" or st.get("to") == src:
            return None
        to = self.slot()
        if to in (src, st.get("b")):
            return None
        sysk = rng.random() < 0.3 or not self.keys
        kind, us = self.zm_of(mv).local(mv.ls)
        other = [u for u in us if u != mv.t]
        if sysk and st["op"] == "replace" and "tz" in st["f"]:
            return None
        key = None if sysk else self.key()
        if kind == "fold" and other and rng.random() < 0.6:
            # (the other one of the two)
            o = self.emit({"op": "from_ts", "to": to, "kind": mv.kind, "unit": "ns", "n": other[0] * NS + mv.ns,
                           "key": mv.key})
        elif rng.random() < 0.6:
            o = self.emit({"op": "to_sys", "to": to, "src": src} if sysk else {"op": "to_tz", "to": to, "src": src, "key": key})
        else:
            new = {"op": "mkS" if sysk else "mkZ", "to": to, "ls": mv.ls, "ns": mv.ns, "dis": rng.choice(DIS[:3])}
            if key:
                new["key"] = key
            o = self.emit(new)
        if o is None or o.kind != "val":
            return None
        new = {**st, name: to}
        if "to" in st:
            new["to"] = self.slot()
        if self.emit(new) is not None and rng.random() < 0.4:
            if st.get("to") is None or new["to"] != src:
                self.emit({**st, **({"to": self.slot()} if "to" in st else {})})

    def pair(self, st):
        """The same operation on both times of a fold (of some zone)."""
        rng = self.rng
        name = "a" if st["op"] == "cmp" else "src"
        mv = self.slots.get(st.get(name))
        if st["op"] not in TWINS or mv is None or mv.kind not in "ZS":
            return
        sysk = mv.kind == "S"
        key = None if sysk else mv.key if rng.random() < 0.4 else self.key()
        zm = self.world.sysm if sysk else self.world.zm(key)
        for _ in range(10):
            ls = gen_ls(rng, zm)
            if zm.local(ls)[0] == "fold":
                break
        for dis in rng.sample(["earlier", "later"], 2):
            to = self.slot()
            o = self.emit({"op": "mkS" if sysk else "mkZ", "to": to, "ls": ls, "ns": mv.ns, "dis": dis,
                           **({} if sysk else {"key": key})})
            if o is not None and o.kind == "val":
                self.emit({**st, name: to, **({"to": self.slot()} if "to" in st else {})})

    def local(self):
        src = self.pick("OZS")
        if src is None:
            return None
        return self.emit({"op": "local", "to": self.slot(), "src": src})

    def assume(self, kinds="ZS"):
        rng = self.rng
        to = rng.choice(kinds)
        if to == "Z" and not self.keys:
            to = "S"
        key = self.key() if to == "Z" else None
        zm = self.world.zm(key) if to == "Z" else self.world.sysm
        src = self.pick("L") if rng.random() < 0.3 else None
        if src is None:
            src = self.slot()
            if self.emit({"op": "mkL", "to": src, "ls": gen_ls(rng, zm), "ns": gen_ns(rng)}) is None:
                return None
        st = {"op": "assume", "src": src, "to": self.slot(), "target": to}
        if to == "Z":
            st["key"] = key
        if to in "ZS":
            st["dis"] = self.dis(0.85)
        if to == "O":
            st["off"] = gen_off(rng)
        return self.emit(st)

    def ambiguous(self):
        rng = self.rng
        if rng.random() < 0.5 or self.pick("ZS") is None:
            self.create(rng.choice("ZS" if self.keys else "S"))
        src = self.pick("ZS")
        if src is None:
            return None
        return self.emit({"op": "ambiguous", "src": src})

    def multi(self):
        c = [s for s, m in self.slots.items() if m.kind in "IOZS"]
        if len(c) < 3:
            return None
        srcs = self.rng.sample(c, self.rng.randint(2, len(c)))
        return self.emit({"op": "multi", "srcs": srcs})

    # -- environment
    def settz(self, names):
        n = self.rng.choice(names)
        self.world.sys = n
        self.steps.append({"op": "settz", "zone": n})

    def weighted(self, table):
        names = [k for k, w in table.items() if w > 0]
        return self.rng.choices(names, [table[k] for k in names])[0]
