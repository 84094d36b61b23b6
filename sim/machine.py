"""The stateful machine: executes steps of a trace against the real library and
an integer model in lockstep.

A step is a JSON object {"op": ..., ...}.  `expect` is pure (model only) and is
also used while generating traces; `perform` calls the library.  Values live in
named slots, so removing steps while shrinking leaves a runnable trace (steps
whose inputs are missing are skipped).
"""
import datetime

from . import tz as TZ
from .tz import DAY, local_fields, local_secs, month_len

NS = 1_000_000_000


class MV:
    """Model value.  kind: I, O, Z, S (exact: t, ns, off) or L (local: t is the
    local second)."""

    __slots__ = ("kind", "t", "ns", "off", "key", "zm")

    def __init__(self, kind, t, ns, off=0, key=None, zm=None):
        self.kind, self.t, self.ns, self.off, self.key, self.zm = kind, t, ns, off, key, zm

    @property
    def ls(self):
        return self.t + self.off

    @property
    def total(self):
        return self.t * NS + self.ns

    def __repr__(self):
        return f"{self.kind}:{fmt(self)}"

    def same(self, o):
        return (self.kind, self.t, self.ns, self.off, self.key) == (o.kind, o.t, o.ns, o.off, o.key)


def fmt_off(off):
    s = "-" if off < 0 else "+"
    a = abs(off)
    out = f"{s}{a // 3600:02}:{a // 60 % 60:02}"
    if a % 60:
        out += f":{a % 60:02}"
    return out


def fmt_local(ls, ns):
    y, m, d, H, M, S = local_fields(ls)
    out = f"{y:04}-{m:02}-{d:02}T{H:02}:{M:02}:{S:02}"
    if ns:
        out += "." + f"{ns:09}".rstrip("0")
    return out


def fmt(mv):
    """The documented common ISO text of a model value."""
    out = fmt_local(mv.ls, mv.ns)
    if mv.kind == "I":
        out += "Z"
    elif mv.kind != "L":
        out += fmt_off(mv.off)
        if mv.kind == "Z":
            out += f"[{mv.key}]"
    return out


def txt(x):
    """str() of a library value that may be broken."""
    try:
        return str(x)
    except Exception as e:
        return f"<a {type(x).__name__} whose str() raises {e!r}>"


class Expected(Exception):
    def __init__(self, *names):
        self.names = names


# -------------------------------------------------------------- model rules --
def resolve(zm, ls, dis):
    kind, us = zm.local(ls)
    if kind == "unique":
        return us[0]
    if dis == "raise":
        raise Expected("RepeatedTime" if kind == "fold" else "SkippedTime")
    if dis == "earlier":
        return us[0]
    if dis == "later":
        return us[1]
    return us[0] if kind == "fold" else us[1]


def resolve_keep(zm, ls, prev_off):
    """No explicit disambiguation: keep the offset if an option has it."""
    _, us = zm.local(ls)
    for u in us:
        if zm.offset(u) == prev_off:
            return u
    return resolve(zm, ls, "compatible")


LO, HI = local_secs(2, 1, 1), local_secs(9998, 12, 1)
BELOW, ABOVE = local_secs(1, 1, 1) - 3 * DAY, local_secs(9999, 12, 31) + 4 * DAY


# (within these a moment is a valid Instant)
T_MIN, T_MAX = local_secs(1, 1, 1), local_secs(9999, 12, 31, 23, 59, 59)
AT_ENDS = {"cmp", "diff", "multi", "copy", "pickle", "text", "instant", "local", "back"}


def _bound(t):
    if t < BELOW or t > ABOVE:
        raise Expected("ValueError", "OverflowError")
    if not LO <= t <= HI:
        # (the very ends of the range are another property's business)
        raise Skip()
    return t


def shift_cal(ls, months, days):
    """Months first (clamping the day), then days."""
    d, tod = divmod(ls, DAY)
    y, m, dd = TZ.civil_from_days(d)
    mm = y * 12 + (m - 1) + months
    y, m = mm // 12, mm % 12 + 1
    if not 1 <= y <= 9999:
        raise Expected("ValueError", "OverflowError")
    dd = min(dd, month_len(y, m))
    return _bound((TZ.days_from_civil(y, m, dd) + days) * DAY + tod)


UNIT_NS = {
    "hours": 3600 * NS, "minutes": 60 * NS, "seconds": NS,
    "milliseconds": 1_000_000, "microseconds": 1000, "nanoseconds": 1,
}


def amounts(a):
    """-> (months, days, nanoseconds) of an amounts dict."""
    months = a.get("years", 0) * 12 + a.get("months", 0)
    days = a.get("weeks", 0) * 7 + a.get("days", 0)
    ns = 0
    for k, u in UNIT_NS.items():
        v = a.get(k, 0)
        if v:
            if isinstance(v, float):  # only binary fractions are generated
                p, q = v.as_integer_ratio()
                assert (p * u) % q == 0 and abs(v * u) < 1 << 53
                ns += p * u // q
            else:
                ns += v * u
    return months, days, ns


ROUND_NS = {
    "hour": 3600 * NS, "minute": 60 * NS, "second": NS,
    "millisecond": 1_000_000, "microsecond": 1000, "nanosecond": 1,
}


def round_up(q, r, inc, mode):
    if mode == "ceil":
        return r > 0
    if mode == "floor":
        return False
    if 2 * r != inc:
        return 2 * r > inc
    if mode == "half_even":
        return q % 2 == 1
    return mode == "half_ceil"


# ------------------------------------------------------------------ machine --
class World:
    """What the model knows of the environment."""

    def __init__(self, trace):
        self.zones = {n: TZ.zone_model(s) for n, s in trace["zones"].items()}
        self.db = dict(trace["db"])  # tz key -> zone name
        self.sys = trace.get("sys0")
        self.clock = trace.get("clock0", 1_700_000_000 * NS)
        self.fixed = TZ.FixedModel(0)

    def zm(self, key):
        return self.zones[self.db[key]]

    @property
    def sysm(self):
        return self.zones[self.sys] if self.sys is not None else self.fixed


def mkz(world, key, t, ns, zm=None):
    zm = zm or world.zm(key)
    return MV("Z", t, ns, zm.offset(t), key, zm)


def mks(world, t, ns):
    return MV("S", t, ns, world.sysm.offset(t))


class Out:
    """An expected outcome."""

    __slots__ = ("kind", "vals", "names", "data")

    def __init__(self, kind, vals=(), names=(), data=None):
        self.kind, self.vals, self.names, self.data = kind, vals, names, data

    def __repr__(self):
        if self.kind == "val":
            return " or ".join(map(repr, self.vals))
        if self.kind == "exc":
            return "raises " + "/".join(self.names)
        return repr(self.data)


def V(*vals):
    return Out("val", vals=list(vals))


def D(data):
    return Out("data", data=data)


class Skip(Exception):
    """The step cannot run (its input slot is missing or unsuitable)."""


ENV_OPS = {"update", "settz", "clear_cache", "clear_key", "evict", "gc", "clock", "hold"}
EXACT = "IOZS"


def expect(step, world, slots):
    try:
        return _expect(step, world, slots)
    except Expected as e:
        return Out("exc", names=e.names)


def _get(slots, step, name, kinds=None):
    mv = slots.get(step[name])
    if mv is None or (kinds and mv.kind not in kinds):
        raise Skip()
    return mv




def _expect(step, world, slots):
    op = step["op"]
    if op not in AT_ENDS:
        for n in ("src", "a", "b"):
            mv = slots.get(step.get(n))
            if mv is not None and not LO <= mv.t <= HI and (op != "add" or mv.kind != "I"):
                raise Skip()
    if op == "mkL":
        return V(MV("L", step["ls"], step["ns"]))
    if op == "mkI":
        return V(MV("I", step["t"], step["ns"]))
    if op == "mkO":
        return V(MV("O", step["ls"] - step["off"], step["ns"], step["off"]))
    if op == "mkZ":
        t = resolve(world.zm(step["key"]), step["ls"], step["dis"] or "compatible")
        return V(mkz(world, step["key"], t, step["ns"]))
    if op == "mkS":
        t = resolve(world.sysm, step["ls"], step["dis"] or "compatible")
        return V(mks(world, t, step["ns"]))
    if op == "from_ts":
        n, unit = step["n"], step["unit"]
        per = {"s": 1, "ms": 1000, "ns": NS, "f": 512}[unit]
        t, fr = divmod(n, per)
        ns = fr * (NS // per)
        k = step["kind"]
        if k == "I":
            return V(MV("I", t, ns))
        if k == "O":
            return V(MV("O", t, ns, step["off"]))
        if k == "Z":
            return V(mkz(world, step["key"], t, ns))
        return V(mks(world, t, ns))
    if op == "from_py":
        ls, us = step["ls"], step["us"]
        k = step["kind"]
        if k == "Z":
            zm = world.zm(step["key"])
            kind, uu = zm.local(ls)
            fold = step["fold"]
            if kind == "unique":
                t = uu[0]
            elif kind == "fold":
                t = uu[fold]
            else:
                t = uu[1 - fold]
            return V(mkz(world, step["key"], t, us * 1000))
        if k == "L":
            return V(MV("L", ls, us * 1000))
        if step.get("key") is not None:
            # any aware datetime will do for these
            kind, uu = world.zm(step["key"]).local(ls)
            t = uu[0] if kind == "unique" else uu[step["fold"]] if kind == "fold" else uu[1 - step["fold"]]
            return V(MV(k, t, us * 1000, 0 if k == "I" else ls - t))
        return V(MV(k, ls - step["off"], us * 1000, 0 if k == "I" else step["off"]))
    if op == "parse":
        k = step["kind"]
        if k == "Z":
            zm = world.zm(step["key"])
            return V(mkz(world, step["key"], step["t"], step["ns"]))
        if k == "L":
            return V(MV("L", step["t"], step["ns"]))
        return V(MV(k, step["t"], step["ns"], 0 if k == "I" else step["off"]))
    if op in ("copy", "pickle", "text"):
        mv = _get(slots, step, "src")
        if op == "text" and mv.kind == "Z" and mv.zm is not world.zm(mv.key):
            raise Skip()
        if op == "pickle" and mv.kind == "Z" and mv.zm is not world.zm(mv.key):
            raise Skip()
        return V(mv)
    if op == "to_tz":
        mv = _get(slots, step, "src", EXACT)
        return V(mkz(world, step["key"], mv.t, mv.ns))
    if op == "to_sys":
        mv = _get(slots, step, "src", EXACT)
        return V(mks(world, mv.t, mv.ns))
    if op == "to_off":
        mv = _get(slots, step, "src", EXACT)
        off = step["off"]
        return V(MV("O", mv.t, mv.ns, mv.off if off is None else off))
    if op == "instant":
        mv = _get(slots, step, "src", "OZS")
        return V(MV("I", mv.t, mv.ns))
    if op == "local":
        mv = _get(slots, step, "src", "OZS")
        return V(MV("L", mv.ls, mv.ns))
    if op == "assume":
        mv = _get(slots, step, "src", "L")
        to = step["target"]
        if to == "I":
            return V(MV("I", mv.t, mv.ns))
        if to == "O":
            return V(MV("O", mv.t - step["off"], mv.ns, step["off"]))
        if to == "Z":
            t = resolve(world.zm(step["key"]), mv.t, step["dis"] or "compatible")
            return V(mkz(world, step["key"], t, mv.ns))
        t = resolve(world.sysm, mv.t, step["dis"] or "compatible")
        return V(mks(world, t, mv.ns))
    if op == "add":
        return _expect_add(step, world, slots)
    if op == "replace":
        return _expect_replace(step, world, slots)
    if op == "sod":
        mv = _get(slots, step, "src", "ZS")
        zm = mv.zm if mv.kind == "Z" else world.sysm
        t = resolve(zm, mv.ls // DAY * DAY, "compatible")
        return V(_like(world, mv, t, 0))
    if op == "daylen":
        mv = _get(slots, step, "src", "ZS")
        zm = mv.zm if mv.kind == "Z" else world.sysm
        return D(day_len(zm, mv.ls) * NS)
    if op == "ambiguous":
        mv = _get(slots, step, "src", "ZS")
        zm = mv.zm if mv.kind == "Z" else world.sysm
        # (a system datetime from before a tz change may be in a gap)
        return D(zm.local(mv.ls)[0] == "fold")
    if op == "round":
        return _expect_round(step, world, slots)
    if op == "diff":
        a, b = _get(slots, step, "a", EXACT), _get(slots, step, "b", EXACT)
        return D(a.total - b.total)
    if op == "cmp":
        a, b = _get(slots, step, "a", EXACT), _get(slots, step, "b", EXACT)
        x, y = a.total, b.total
        ee = None
        if a.kind == b.kind:
            ee = (a.total, a.off, a.key) == (b.total, b.off, b.key)
        return D([x == y, x != y, x < y, x <= y, x > y, x >= y, True, ee])
    if op == "multi":
        mvs = [slots[s] for s in step["srcs"] if s in slots and slots[s].kind in EXACT]
        if len(mvs) < 2:
            raise Skip()
        tot = [m.total for m in mvs]
        return D([sorted(tot), len(set(tot)), [tot.index(x) for x in tot]])
    if op == "sysnow":
        # the clock stands still at world.clock
        t, ns = divmod(world.clock, NS)
        if step["how"] == "now":
            return V(mks(world, t, ns))
        if step["how"] == "instant":
            return V(mks(world, t, ns))
        return D(list(local_fields(t + world.sysm.offset(t))[:3]))
    if op == "nowZ":
        t, ns = divmod(world.clock, NS)
        return V(mkz(world, step["key"], t, ns))
    if op == "back":
        mv, b = _get(slots, step, "src", EXACT), _get(slots, step, "b", EXACT)
        if mv.kind != "I" and not LO <= b.t <= HI:
            raise Skip()  # (may not exist in the other's timezone)
        return V(_like(world, mv, b.t, b.ns))
    if op == "pyrt":
        # through the standard library's datetime (which has microseconds)
        mv = _get(slots, step, "src", EXACT)
        ns = mv.ns // 1000 * 1000
        k = step["target"]
        if k == "Z":
            if mv.kind != "Z" or mv.zm is not world.zm(mv.key):
                raise Skip()
            return V(MV("Z", mv.t, ns, mv.off, mv.key, mv.zm))
        return V(MV(k, mv.t, ns, 0 if k == "I" else mv.off))
    if op == "tsrt":
        mv = _get(slots, step, "src", EXACT)
        ns = {"s": 0, "ms": mv.ns // 1_000_000 * 1_000_000, "ns": mv.ns}[step["unit"]]
        k = step["target"]
        if k == "Z":
            return V(mkz(world, step["key"], mv.t, ns))
        if k == "S":
            return V(mks(world, mv.t, ns))
        return V(MV(k, mv.t, ns, step.get("off", 0)))
    raise AssertionError(op)


def _like(world, mv, t, ns):
    """Value of mv's type (and tz) at the moment (t, ns)."""
    if mv.kind == "Z":
        return MV("Z", t, ns, mv.zm.offset(t), mv.key, mv.zm)
    if mv.kind == "S":
        return mks(world, t, ns)
    return MV(mv.kind, t, ns, mv.off)


def day_len(zm, ls):
    mid = ls // DAY * DAY
    return resolve(zm, mid + DAY, "compatible") - resolve(zm, mid, "compatible")


def _expect_add(step, world, slots):
    mv = _get(slots, step, "src")
    months, days, ns = amounts(step["amt"])
    s = step["sign"]
    months, days, ns = s * months, s * days, s * ns
    dis = step.get("dis")
    k = mv.kind
    if k == "I" and (months or days):
        raise Skip()
    if k == "L":
        ls = shift_cal(mv.t, months, days)
        tot = ls * NS + mv.ns + ns
        return V(MV("L", _bound(tot // NS), tot % NS))
    if k == "O":
        ls = shift_cal(mv.ls, months, days)
        tot = (ls - mv.off) * NS + mv.ns + ns
        return V(MV("O", _bound(tot // NS), tot % NS, mv.off))
    t, n = mv.t, mv.ns
    if k == "S" and not (months or days) and any(x in step["amt"] for x in ("years", "months", "weeks", "days")):
        # after a change of timezone: the moment or the local time may be kept
        raise Skip()
    if k in "ZS" and (months or days):
        zm = mv.zm if k == "Z" else world.sysm
        ls = shift_cal(mv.ls, months, days)
        if dis:
            t = resolve(zm, ls, dis)
        else:
            t = resolve_keep(zm, ls, mv.off)
    tot = t * NS + n + ns
    if k == "I":
        if not T_MIN <= tot // NS <= T_MAX:
            raise Expected("ValueError", "OverflowError")
        return V(MV("I", tot // NS, tot % NS))
    return V(_like(world, mv, _bound(tot // NS), tot % NS))


FIELDS = ("year", "month", "day", "hour", "minute", "second")


def _expect_replace(step, world, slots):
    mv = _get(slots, step, "src")
    k = mv.kind
    if k == "I":
        raise Skip()
    form, f = step["form"], step["f"]
    dis = step.get("dis")
    flds = dict(zip(FIELDS, local_fields(mv.ls)))
    ns = mv.ns
    key, zm = mv.key, mv.zm
    if form == "date":
        flds.update(zip(("year", "month", "day"), (f["year"], f["month"], f["day"])))
    elif form == "time":
        flds.update(hour=f["hour"], minute=f["minute"], second=f["second"])
        ns = f["nanosecond"]
    else:
        for n, v in f.items():
            if n == "nanosecond":
                ns = v
            elif n == "tz":
                if k != "Z":
                    raise Skip()
                if v != key:
                    key, zm = v, world.zm(v)
                    dis = dis or "compatible"
                elif zm is not world.zm(v):
                    raise Skip()
            else:
                flds[n] = v
    if not 1 <= flds["day"] <= month_len(flds["year"], flds["month"]):
        raise Expected("ValueError")
    ls = local_secs(*(flds[n] for n in FIELDS))
    if k == "L":
        return V(MV("L", ls, ns))
    if k == "O":
        return V(MV("O", ls - mv.off, ns, mv.off))
    if k == "S":
        zm = world.sysm
    t = resolve(zm, ls, dis) if dis else resolve_keep(zm, ls, mv.off)
    if k == "Z":
        return V(MV("Z", t, ns, zm.offset(t), key, zm))
    return V(mks(world, t, ns))


def _expect_round(step, world, slots):
    mv = _get(slots, step, "src")
    unit, incr, mode = step["unit"], step["incr"], step["mode"]
    k = mv.kind
    mid = mv.ls // DAY * DAY
    rem = (mv.ls - mid) * NS + mv.ns
    if unit == "day":
        if k == "I":
            raise Skip()
        if k in "OL":
            length = DAY * NS
        else:
            zm = mv.zm if k == "Z" else world.sysm
            length = day_len(zm, mv.ls) * NS
        up = round_up(0, rem, length, mode)
        ls, ns = mid + (DAY if up else 0), 0
    else:
        inc = ROUND_NS[unit] * incr
        q, r = divmod(rem, inc)
        tot = mid * NS + (q + round_up(q, r, inc, mode)) * inc
        ls, ns = divmod(tot, NS)
    if k == "L":
        return V(MV("L", ls, ns))
    if k in "IO":
        return V(MV(k, ls - mv.off, ns, mv.off))
    zm = mv.zm if k == "Z" else world.sysm
    kind, us = zm.local(ls)
    if kind != "gap":
        return V(_like(world, mv, resolve_keep(zm, ls, mv.off), ns))
    if unit == "day":
        return V(_like(world, mv, us[1], ns))
    opts = [_like(world, mv, u, ns) for u in us]
    # (counted from the value's own offset, which is neither of the two around
    # the gap if there is another transition in between)
    opts.append(_like(world, mv, ls - mv.off, ns))
    if zm.offset(mv.t) == mv.off:  # not outdated by a system tz change
        if mode == "floor":
            opts = [o for o in opts if o.total <= mv.total] or opts
        elif mode == "ceil":
            opts = [o for o in opts if o.total >= mv.total] or opts
    return V(*opts)


# ------------------------------------------------------------- the library --
class SubDateTime(datetime.datetime):
    """As applications and other libraries have them."""

    def __repr__(self):
        return "Sub" + super().__repr__()


class ForeignTz(datetime.tzinfo):
    """A tzinfo class neither of the standard library's."""

    def __init__(self, tz):
        self.tz = tz

    def utcoffset(self, d):
        return self.tz.utcoffset(d)

    def dst(self, d):
        return None

    def tzname(self, d):
        return "?"

    def __reduce__(self):
        return ForeignTz, (self.tz,)


class Lib:
    """Calls into the library.  Imported lazily so that generators need not
    load it."""

    def __init__(self):
        import copy
        import datetime
        import pickle
        import zoneinfo

        import whenever as W

        self.W, self.copy, self.dt, self.pickle, self.zi = W, copy, datetime, pickle, zoneinfo
        self.cls = {
            "I": W.Instant, "O": W.OffsetDateTime, "Z": W.ZonedDateTime,
            "S": W.SystemDateTime, "L": W.LocalDateTime,
        }
        self.held = []  # keeps timezone objects alive on request

    # -- construction helpers
    def offset(self, off):
        W = self.W
        if off % 3600 == 0 and off % 7200:
            return off // 3600
        return W.seconds(off)

    def delta(self, amt):
        W = self.W
        cal = {k: v for k, v in amt.items() if k in ("years", "months", "weeks", "days")}
        ex = {k: v for k, v in amt.items() if k in UNIT_NS}
        if cal and ex:
            return W.DateTimeDelta(**cal, **ex)
        if cal:
            return W.DateDelta(**cal)
        return W.TimeDelta(**ex)

    def perform(self, step, slots):
        """Run the step; returns the library's result (value or raw data)."""
        W = self.W
        op = step["op"]
        if op == "mkL":
            return W.LocalDateTime(*local_fields(step["ls"]), nanosecond=step["ns"])
        if op == "mkI":
            return W.Instant.from_utc(*local_fields(step["t"]), nanosecond=step["ns"])
        if op == "mkO":
            return W.OffsetDateTime(
                *local_fields(step["ls"]), nanosecond=step["ns"], offset=self.offset(step["off"])
            )
        if op == "mkZ":
            kw = {"disambiguate": step["dis"]} if step["dis"] else {}
            return W.ZonedDateTime(
                *local_fields(step["ls"]), nanosecond=step["ns"], tz=step["key"], **kw
            )
        if op == "mkS":
            kw = {"disambiguate": step["dis"]} if step["dis"] else {}
            return W.SystemDateTime(*local_fields(step["ls"]), nanosecond=step["ns"], **kw)
        if op == "from_ts":
            c = self.cls[step["kind"]]
            f = {"s": c.from_timestamp, "ms": c.from_timestamp_millis, "ns": c.from_timestamp_nanos}
            kw = {}
            if step["kind"] == "Z":
                kw = {"tz": step["key"]}
            elif step["kind"] == "O":
                kw = {"offset": self.offset(step["off"]), "ignore_dst": True}
            if step["unit"] == "f":  # a float that is exact
                return f["s"](step["n"] / 512, **kw)
            return f[step["unit"]](step["n"], **kw)
        if op == "from_py":
            return self._from_py(step)
        if op == "parse":
            k = step["kind"]
            mv = MV(k, step["t"], step["ns"], step.get("off", 0), step.get("key"))
            return self.cls[k].parse_common_iso(fmt(mv))
        src = slots.get(step.get("src"))
        if op == "copy":
            how = step["how"]
            return self.copy.copy(src) if how == "copy" else self.copy.deepcopy(src)
        if op == "pickle":
            return self.pickle.loads(self.pickle.dumps(src, protocol=step["proto"]))
        if op == "text":
            return type(src).parse_common_iso(str(src) if step["how"] == "str" else src.format_common_iso())
        if op == "to_tz":
            return src.to_tz(step["key"])
        if op == "to_sys":
            return src.to_system_tz()
        if op == "to_off":
            return src.to_fixed_offset() if step["off"] is None else src.to_fixed_offset(self.offset(step["off"]))
        if op == "instant":
            return src.instant()
        if op == "local":
            return src.local()
        if op == "assume":
            to = step["target"]
            kw = {"disambiguate": step["dis"]} if step.get("dis") else {}
            if to == "I":
                return src.assume_utc()
            if to == "O":
                return src.assume_fixed_offset(self.offset(step["off"]))
            if to == "Z":
                return src.assume_tz(step["key"], **kw)
            return src.assume_system_tz(**kw)
        if op == "add":
            return self._add(step, src)
        if op == "replace":
            return self._replace(step, src)
        if op == "sod":
            return src.start_of_day()
        if op == "daylen":
            return src.day_length().in_nanoseconds()
        if op == "ambiguous":
            return src.is_ambiguous()
        if op == "round":
            kw = {}
            if isinstance(src, W.OffsetDateTime):
                kw["ignore_dst"] = True
            if step["how"] == "def":
                for n, d in (("unit", "second"), ("increment", 1), ("mode", "half_even")):
                    x = step["incr" if n == "increment" else n]
                    if x != d:
                        kw[n] = x
                return src.round(**kw)
            if step["how"] == "pos":
                return src.round(step["unit"], step["incr"], step["mode"], **kw)
            return src.round(unit=step["unit"], increment=step["incr"], mode=step["mode"], **kw)
        if op == "sysnow":
            if step["how"] == "now":
                return W.SystemDateTime.now()
            if step["how"] == "instant":
                return W.Instant.now().to_system_tz()
            d = W.Date.today_in_system_tz()
            return [d.year, d.month, d.day]
        if op == "nowZ":
            c = self.cls["Z"]
            return c.now(step["key"]) if step["how"] == "now" else W.Instant.now().to_tz(step["key"])
        if op == "back":
            b = slots[step["b"]]
            d = b - src if step["how"] == "op" else b.difference(src)
            if isinstance(src, W.OffsetDateTime):
                return src.add(d, ignore_dst=True)
            return src + d if step["how"] == "op" or isinstance(src, W.Instant) else src.add(d)
        if op == "pyrt":
            return self.cls[step["target"]].from_py_datetime(src.py_datetime())
        if op == "tsrt":
            n = {"s": src.timestamp, "ms": src.timestamp_millis, "ns": src.timestamp_nanos}[step["unit"]]()
            c = self.cls[step["target"]]
            f = {"s": c.from_timestamp, "ms": c.from_timestamp_millis, "ns": c.from_timestamp_nanos}[step["unit"]]
            kw = {}
            if step["target"] == "Z":
                kw = {"tz": step["key"]}
            elif step["target"] == "O":
                kw = {"offset": self.offset(step["off"]), "ignore_dst": True}
            return f(n, **kw)
        if op == "diff":
            a, b = slots[step["a"]], slots[step["b"]]
            d = a - b if step["how"] == "op" else a.difference(b)
            return d.in_nanoseconds()
        if op == "cmp":
            a, b = slots[step["a"]], slots[step["b"]]
            r = [a == b, a != b, a < b, a <= b, a > b, a >= b]
            r.append((not r[0] or hash(a) == hash(b)) and self.hash_ok(a, a.timestamp_nanos())
                     and self.hash_ok(b, b.timestamp_nanos()))
            r.append(a.exact_eq(b) if type(a) is type(b) else None)
            return r
        if op == "multi":
            vs = [slots[s] for s in step["srcs"] if s in slots and not isinstance(slots[s], W.LocalDateTime)]
            order = [v.timestamp_nanos() for v in sorted(vs)]
            idx = {}
            first = []
            for i, v in enumerate(vs):
                first.append(idx.setdefault(v, i))
            return [order, len(set(vs)), first]
        raise AssertionError(op)

    def _from_py(self, step):
        dt = self.dt
        k = step["kind"]
        y = local_fields(step["ls"])
        if k == "L":
            tz = None
        elif step.get("key") is not None:
            tz = self.zoneinfo(step["key"], step["via"])
        else:
            tz = dt.timezone(dt.timedelta(seconds=step["off"]))
            if step.get("sub"):
                tz = ForeignTz(tz)
        cls = SubDateTime if step.get("sub") else dt.datetime
        return self.cls[k].from_py_datetime(cls(*y, step["us"], tz, fold=step.get("fold", 0)))

    def zoneinfo(self, key, via):
        ZI = self.zi.ZoneInfo
        if via == "cached":
            return ZI(key)
        if via == "no_cache":
            return ZI.no_cache(key)
        if via == "file":
            with open(self.zi.TZPATH[0] + "/" + key, "rb") as f:
                return ZI.from_file(f, key=key)
        if via == "pickled_nc":
            return self.pickle.loads(self.pickle.dumps(ZI.no_cache(key)))
        raise AssertionError(via)

    def _add(self, step, src):
        W = self.W
        form, amt, sign = step["form"], step["amt"], step["sign"]
        kw = {"disambiguate": step["dis"]} if step.get("dis") else {}
        if isinstance(src, (W.OffsetDateTime, W.LocalDateTime)):
            kw = {"ignore_dst": True}
        if form == "kw":
            return (src.add if sign > 0 else src.subtract)(**amt, **kw)
        d = self.delta(amt)
        if form == "delta":
            if isinstance(src, W.Instant):
                return src + d if sign > 0 else src - d
            return (src.add if sign > 0 else src.subtract)(d, **kw)
        return src + d if sign > 0 else src - d

    def _replace(self, step, src):
        W = self.W
        kw = {"disambiguate": step["dis"]} if step.get("dis") else {}
        if isinstance(src, W.OffsetDateTime):
            kw = {"ignore_dst": True}
        elif isinstance(src, W.LocalDateTime):
            kw = {}
        f = step["f"]
        if step["form"] == "date":
            return src.replace_date(W.Date(f["year"], f["month"], f["day"]), **kw)
        if step["form"] == "time":
            return src.replace_time(
                W.Time(f["hour"], f["minute"], f["second"], nanosecond=f["nanosecond"]), **kw
            )
        return src.replace(**f, **kw)

    def hash_ok(self, v, total):
        """Equal to, and hashing like, an Instant of that moment."""
        i = self.W.Instant.from_timestamp_nanos(total)
        return v == i and i == v and hash(v) == hash(i)

    # -- observation
    def check(self, v, mv, deep=True):
        """First difference between a library value and a model value, or None."""
        try:
            return self._check(v, mv, deep)
        except Exception as e:
            return f"observing raised {e!r}"

    def _check(self, v, mv, deep):
        W = self.W
        if type(v) is not self.cls[mv.kind]:
            return f"type {type(v).__name__}, expected {self.cls[mv.kind].__name__}"
        ls = mv.ls
        if mv.kind == "I":
            got = v.timestamp_nanos()
            if got != mv.total:
                return f"timestamp_nanos {got}, expected {mv.total}"
        else:
            got = (v.year, v.month, v.day, v.hour, v.minute, v.second, v.nanosecond)
            want = local_fields(ls) + (mv.ns,)
            if got != want:
                return f"local fields {got}, expected {want} ({mv!r})"
        if mv.kind in "OZS":
            got = v.offset.in_nanoseconds()
            if got != mv.off * NS:
                return f"offset {got / NS}s, expected {mv.off}s ({mv!r})"
            got = v.timestamp_nanos()
            if got != mv.total:
                return f"timestamp_nanos {got}, expected {mv.total} ({mv!r})"
        if mv.kind == "Z" and v.tz != mv.key:
            return f"tz {v.tz!r}, expected {mv.key!r}"
        if not deep:
            return None
        got = v.format_common_iso()
        want = fmt(mv)
        if got != want or str(v) != want:
            return f"text {got!r} / {txt(v)!r}, expected {want!r}"
        got = repr(v)
        if want.replace("T", " ", 1) not in got:
            return f"repr() {got}, expected {want}"
        if mv.kind != "L":
            got = (v.timestamp(), v.timestamp_millis())
            want = (mv.t, mv.t * 1000 + mv.ns // 1_000_000)
            if got != want:
                return f"timestamp(), timestamp_millis() {got}, expected {want} ({mv!r})"
        p = v.py_datetime()
        y = local_fields(ls)
        got = (p.year, p.month, p.day, p.hour, p.minute, p.second, p.microsecond)
        if type(p) is not datetime.datetime:
            return f"py_datetime() is a {type(p).__name__} ({mv!r})"
        if mv.kind == "Z" and p.tzinfo.key != mv.key:
            return f"py_datetime has tz {p.tzinfo!r} ({mv!r})"
        if got != y + (mv.ns // 1000,):
            return f"py_datetime {got}, expected {y} ({mv!r})"
        if mv.kind != "L":
            got = p.utcoffset().total_seconds()
            if got != mv.off:
                return f"py_datetime offset {got}, expected {mv.off} ({mv!r})"
        if mv.kind != "L" and not self.hash_ok(v, mv.total):
            return f"hash/equality different from that of the Instant ({mv!r})"
        if mv.kind in "OZS":
            if not v.instant() == W.Instant.from_timestamp_nanos(mv.total):
                return f"instant() {v.instant()} for {mv!r}"
        if mv.kind != "I":
            d, tm = v.date(), v.time()
            if (d.year, d.month, d.day) != y[:3]:
                return f"date() {d}, expected {y[:3]}"
            if (tm.hour, tm.minute, tm.second, tm.nanosecond) != y[3:] + (mv.ns,):
                return f"time() {tm}, expected {y[3:]} ({mv!r})"
            if mv.kind != "L":
                lo = v.local()
                got = (lo.year, lo.month, lo.day, lo.hour, lo.minute, lo.second, lo.nanosecond)
                if got != y + (mv.ns,):
                    return f"local() {lo}, expected {y}"
        return None
