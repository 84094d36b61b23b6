"""Operations on types that have no timezone rules, as data.

A step is {"op": "call", "to": slot, "fn": name, "args": [...]}; an argument
{"$": slot} refers to a slot.  Only static types matter for generation, so no
model is needed: these steps are judged differentially (the same step under
another environment, interleaving or process) or against themselves.
"""
from .gen import gen_ns, gen_off
from .tz import DAY, local_fields, local_secs, month_len
from .machine import fmt_local, fmt_off

FN = {}  # name -> (argument makers or type names, result type, callable(W, *args))


def fn(name, args, res):
    def deco(f):
        FN[name] = (args, res, f)
        return f

    return deco


def _y(rng):
    r = rng.random()
    if r < 0.7:
        return rng.randrange(1900, 2101)
    if r < 0.9:
        return rng.randrange(1, 10000)
    return rng.choice([1, 2, 4, 1582, 1600, 1900, 1969, 1970, 2000, 2037, 2038, 9998, 9999])


def _fields(rng):
    y = _y(rng)
    m = rng.choice([1, 2, 2, 3, 12, rng.randrange(1, 13)])
    d = rng.choice([1, month_len(y, m), month_len(y, m), rng.randrange(1, month_len(y, m) + 1)])
    return [y, m, d]


def _tod(rng):
    if rng.random() < 0.25:
        return rng.choice([[0, 0, 0], [23, 59, 59], [12, 0, 0], [0, 30, 0]])
    return [rng.randrange(24), rng.randrange(60), rng.randrange(60)]


def _near(rng, p):
    """Now and then, a local time that is telling in the system timezone."""
    near = getattr(rng, "near", None)
    if near and rng.random() < p:
        return list(local_fields(rng.choice(near)))
    return None


def ldt(rng):
    return (_near(rng, 0.55) or _fields(rng) + _tod(rng)) + [gen_ns(rng)]


def date_(rng):
    f = _near(rng, 0.5)
    return f[:3] if f else _fields(rng)


def time_(rng):
    return _tod(rng) + [gen_ns(rng)]


def off(rng):
    return gen_off(rng)


def edge(rng, top):
    """Around the powers of two, and the greatest one allowed."""
    n = rng.choice([2**rng.randrange(7, 50), top])
    while n > top:
        n = 2**rng.randrange(7, 50)
    return rng.choice([1, -1]) * max(0, min(top, n + rng.choice([-1, 0, 0, 1, rng.randrange(100)])))


MAX_MONTHS, MAX_DAYS = 9999 * 12, 9999 * 366


def small(rng):
    return rng.choice([0, 1, -1, 2, -3, 7, 12, -12, 30, 31, 365, rng.randrange(-2000, 2000)])


def nanos(rng):
    r = rng.random()
    if r < 0.3:
        return rng.choice([0, 1, -1, 999_999_999, -10**9, 86_400 * 10**9, -3600 * 10**9])
    if r < 0.6:
        return rng.randrange(-10**13, 10**13)
    return rng.randrange(-10**18, 10**18)


def ts(rng):
    r = rng.random()
    near = getattr(rng, "near", None)
    if near and r > 0.65:
        return rng.choice(rng.moments) + rng.choice([0, 0, -1, 1800, -1800])
    if near and r > 0.6:
        return rng.choice(near) - gen_off(rng)
    if r < 0.2:
        return rng.choice([0, -1, 1, 2**31 - 1, 2**31, -2**31, 253402300799, -62135596800])
    return rng.randrange(local_secs(1850, 1, 1), local_secs(2200, 1, 1))


def short(rng):
    """Some nanoseconds to some hours."""
    return rng.choice([1, -1]) * rng.choice([1, rng.randrange(10**9), rng.randrange(4000) * 10**9, rng.randrange(4000) * 10**9,
                                             rng.randrange(1, 12) * 600 * 10**9, rng.randrange(10**14)])


def _pair(a, n):
    """A local time and another one not far from it."""
    b = a.add(nanoseconds=n, ignore_dst=True)
    return [a == b, a != b, a < b, a <= b, a > b, a >= b, hash(a) == hash(b), b.difference(a, ignore_dst=True).in_nanoseconds()]


def tsf(rng):
    return ts(rng) + rng.choice([0.5, 0.25, 0.125, 0.0])


def tsms(rng):
    return ts(rng) * rng.choice([1000, 1000, 1000, 1]) + rng.choice([0, 1, 999, rng.randrange(1000)])


def tsns(rng):
    return nanos(rng) if rng.random() < 0.4 else ts(rng) * 10**9 + gen_ns(rng)


def unit(rng):
    return rng.choice([["hour", rng.choice([1, 2, 6, 12])], ["minute", rng.choice([1, 5, 15, 30])],
                       ["second", rng.choice([1, 10, 20])], ["millisecond", rng.choice([1, 5, 250])],
                       ["microsecond", rng.choice([1, 100])], ["nanosecond", rng.choice([1, 8, 500])]])


def unit_d(rng):
    return unit(rng) if rng.random() < 0.75 else ["day", 1]


def mode(rng):
    return rng.choice(["ceil", "floor", "half_even", "half_ceil", "half_floor"])


def txt_off(rng):
    f = ldt(rng)
    return fmt_local(local_secs(*f[:6]), f[6]) + fmt_off(gen_off(rng))


def txt_utc(rng):
    f = ldt(rng)
    return fmt_local(local_secs(*f[:6]), f[6]) + "Z"


def txt_local(rng):
    f = ldt(rng)
    return fmt_local(local_secs(*f[:6]), f[6])


DOW = ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"]
MON = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"]


def txt_2822(rng):
    s = rng.randrange(local_secs(1901, 1, 1), local_secs(2100, 1, 1))
    y, m, d, H, M, S = local_fields(s)
    dow = DOW[(s // DAY + 3) % 7]
    o = rng.choice(["GMT", "+0000", "-0000", "-0000", "UT", "UTC", "Z", "EST", "EDT", "MST", "PDT", "-0500", "+0530", "+1300", ""])
    w = rng.random()
    day = f"{d:02}" if w < 0.8 else str(d)
    year = f"{y:04}" if w < 0.9 else f"{y % 100:02}"
    sec = f":{S:02}" if w > 0.05 else ""
    return (f"{dow}, " if w > 0.1 else "") + f"{day} {MON[m - 1]} {year} {H:02}:{M:02}{sec} {o}".rstrip()


def strp(rng):
    y, m, d, H, M, S, ns = ldt(rng)
    o = rng.choice(["Z", "+0000", "-0430", "+05:30", "+13:00", "-11:59:30"])
    return rng.choice([
        [f"{d:02} {MON[m - 1]} {y:04} {H:02}:{M:02}:{S:02} {o}", "%d %b %Y %H:%M:%S %z"],
        [f"{y:04}-{m:02}-{d:02}T{H:02}:{M:02}{o}", "%Y-%m-%dT%H:%M%z"],
        [f"{y:04}{m:02}{d:02} {H:02}{M:02}{S:02}.{ns // 1000:06} {o}", "%Y%m%d %H%M%S.%f %z"],
        [f"{o} {y:04}/{m}/{d}", "%z %Y/%m/%d"],
    ])


def strp_name(rng):
    """With the name of a timezone (which Python looks up in time.tzname)."""
    y, m, d, H, M, S, ns = ldt(rng)
    n = rng.choice(["CET", "CEST", "EST", "EDT", "GMT", "UTC", "JST", "BST"])
    return f"{y:04}-{m:02}-{d:02}T{H:02}:{M:02}:{S:02} {n}"


def txt_3339(rng):
    f = ldt(rng)
    o = rng.choice(["Z", "+00:00", "-03:30", "+14:00"])
    sep = rng.choice(["T", " ", "t"])
    return fmt_local(local_secs(*f[:6]), f[6]).replace("T", sep) + o


def lead(rng):
    if rng.random() < 0.25:
        return rng.choice([{"days": edge(rng, MAX_DAYS)}, {"months": edge(rng, MAX_MONTHS)},
                           {"weeks": edge(rng, MAX_DAYS // 7)}, {"years": edge(rng, 9999)}])
    return rng.choice([{"years": small(rng)}, {"months": small(rng)}, {"weeks": small(rng)}, {"days": small(rng)},
                       {"months": rng.randrange(13), "days": rng.randrange(40)},
                       {"years": -rng.randrange(5), "months": -rng.randrange(13), "days": -rng.randrange(40)}])


def exact(rng):
    if rng.random() < 0.2:
        return rng.choice([{"seconds": edge(rng, MAX_DAYS * 86400)}, {"milliseconds": edge(rng, MAX_DAYS * 86400)},
                           {"nanoseconds": edge(rng, 2**50)}, {"hours": edge(rng, MAX_DAYS * 24)}])
    return rng.choice([{"hours": small(rng)}, {"minutes": small(rng)}, {"seconds": small(rng) + 0.5},
                       {"nanoseconds": nanos(rng)}, {"hours": small(rng), "milliseconds": small(rng), "nanoseconds": 5}])


def both(rng):
    s = rng.choice([1, -1])
    if rng.random() < 0.15:
        return {"months": s * abs(edge(rng, MAX_MONTHS)), "seconds": s * abs(edge(rng, MAX_DAYS * 86400))} \
            if rng.random() < 0.5 else \
            {"days": s * abs(edge(rng, MAX_DAYS)), "nanoseconds": s * abs(edge(rng, 2**50))}
    return {"months": s * rng.randrange(20), "days": s * rng.randrange(60), "hours": s * rng.randrange(60),
            "nanoseconds": s * rng.randrange(10**12)}


def months_days(rng):
    s = rng.choice([1, -1])
    return [s * rng.randrange(40), s * rng.randrange(100)]


def _off(W, o):
    """Whole hours as a number, now and then."""
    return o // 3600 if o % 3600 == 0 and o % 14400 else W.seconds(o)


# -- constructors
fn("I.from_utc", [ldt], "I")(lambda W, f: W.Instant.from_utc(*f[:6], nanosecond=f[6]))
fn("I.from_ts", [ts], "I")(lambda W, n: W.Instant.from_timestamp(n))
fn("I.from_tsf", [tsf], "I")(lambda W, n: W.Instant.from_timestamp(n))
fn("I.from_ms", [tsms], "I")(lambda W, n: W.Instant.from_timestamp_millis(n))
fn("I.from_ns", [tsns], "I")(lambda W, n: W.Instant.from_timestamp_nanos(n))
fn("I.parse", [txt_utc], "I")(lambda W, s: W.Instant.parse_common_iso(s))
fn("I.parse2822", [txt_2822], "I")(lambda W, s: W.Instant.parse_rfc2822(s))
fn("I.parse3339", [txt_3339], "I")(lambda W, s: W.Instant.parse_rfc3339(s))
fn("O", [ldt, off], "O")(lambda W, f, o: W.OffsetDateTime(*f[:6], nanosecond=f[6], offset=_off(W, o)))
fn("O.from_ts", [ts, off], "O")(
    lambda W, n, o: W.OffsetDateTime.from_timestamp(n, offset=_off(W, o), ignore_dst=True))
fn("O.from_tsf", [tsf, off], "O")(
    lambda W, n, o: W.OffsetDateTime.from_timestamp(n, offset=_off(W, o), ignore_dst=True))
fn("O.from_ms", [tsms, off], "O")(
    lambda W, n, o: W.OffsetDateTime.from_timestamp_millis(n, offset=_off(W, o), ignore_dst=True))
fn("O.from_ns", [tsns, off], "O")(
    lambda W, n, o: W.OffsetDateTime.from_timestamp_nanos(n, offset=_off(W, o), ignore_dst=True))
fn("O.parse", [txt_off], "O")(lambda W, s: W.OffsetDateTime.parse_common_iso(s))
fn("O.parse2822", [txt_2822], "O")(lambda W, s: W.OffsetDateTime.parse_rfc2822(s))
fn("O.parse3339", [txt_3339], "O")(lambda W, s: W.OffsetDateTime.parse_rfc3339(s))
fn("O.strptime", [strp], "O")(lambda W, a: W.OffsetDateTime.strptime(a[0], a[1]))
fn("L", [ldt], "L")(lambda W, f: W.LocalDateTime(*f[:6], nanosecond=f[6]))
fn("L.parse", [txt_local], "L")(lambda W, s: W.LocalDateTime.parse_common_iso(s))
fn("L.strptime", [txt_local], "L")(lambda W, s: W.LocalDateTime.strptime(s[:19], "%Y-%m-%dT%H:%M:%S"))
fn("O.strptime-%Z", [strp_name], "raw")(lambda W, s: W.OffsetDateTime.strptime(s + " +0100", "%Y-%m-%dT%H:%M:%S %Z %z"))
fn("L.strptime-%Z", [strp_name], "raw")(lambda W, s: W.LocalDateTime.strptime(s, "%Y-%m-%dT%H:%M:%S %Z"))
fn("L.frompy", [ldt], "L")(lambda W, f: W.LocalDateTime.from_py_datetime(_dt().datetime(*f[:6], f[6] // 1000)))
fn("Date", [date_], "Date")(lambda W, f: W.Date(*f))
fn("Date.parse", [txt_local], "Date")(lambda W, s: W.Date.parse_common_iso(s[:10]))
fn("Date.frompy", [date_], "Date")(lambda W, f: W.Date.from_py_date(_dt().date(*f)))
fn("YM", [date_], "YM")(lambda W, f: W.YearMonth(*f[:2]))
fn("YM.parse", [txt_local], "YM")(lambda W, s: W.YearMonth.parse_common_iso(s[:7]))
fn("MD", [date_], "MD")(lambda W, f: W.MonthDay(*f[1:]))
fn("MD.parse", [txt_local], "MD")(lambda W, s: W.MonthDay.parse_common_iso("--" + s[5:10]))
fn("Time", [time_], "Time")(lambda W, f: W.Time(*f[:3], nanosecond=f[3]))
fn("Time.parse", [txt_local], "Time")(lambda W, s: W.Time.parse_common_iso(s[11:]))
fn("Time.frompy", [time_], "Time")(lambda W, f: W.Time.from_py_time(_dt().time(*f[:3], f[3] // 1000)))
fn("TD", [exact], "TD")(lambda W, k: W.TimeDelta(**k))
fn("DD", [lead], "DD")(lambda W, k: W.DateDelta(**k))
fn("DTD", [both], "DTD")(lambda W, k: W.DateTimeDelta(**k))
fn("hours", [small], "TD")(lambda W, n: W.hours(n))
fn("days", [small], "DD")(lambda W, n: W.days(n))
fn("months", [small], "DD")(lambda W, n: W.months(n))
# -- instant / offset
for T in "IO":
    k = {"I": {}, "O": {"ignore_dst": True}}[T]
    fn(f"{T}.add", [T, exact], T)(lambda W, a, d, k=k: a.add(**d, **k))
    fn(f"{T}.sub", [T, exact], T)(lambda W, a, d, k=k: a.subtract(**d, **k))
    fn(f"{T}.addtd", [T, "TD"], T)(lambda W, a, d, k=k: a.add(d, **k) if k else a + d)
    fn(f"{T}.round", [T, unit, mode], T)(lambda W, a, u, m, k=k: a.round(u[0], u[1], m, **k))
    fn(f"{T}.tooff", [T, off], "O")(lambda W, a, o: a.to_fixed_offset(_off(W, o)))
    fn(f"{T}.pyrt", [T], T)(lambda W, a: type(a).from_py_datetime(a.py_datetime()))
    fn(f"{T}.3339", [T], T)(lambda W, a: type(a).parse_rfc3339(a.format_rfc3339()))
    fn(f"{T}.2822", [T], T)(lambda W, a: type(a).parse_rfc2822(a.format_rfc2822()))
    fn(f"{T}.fmt2822", [T], "raw")(lambda W, a: a.format_rfc2822())
    fn(f"{T}.fmt3339", [T], "raw")(lambda W, a: a.format_rfc3339())
    fn(f"{T}.stamps", [T], "raw")(lambda W, a: [a.timestamp(), a.timestamp_millis(), a.timestamp_nanos()])
    for U in "IO":
        fn(f"{T}-{U}", [T, U], "TD")(lambda W, a, b: a - b)
        fn(f"{T}diff{U}", [T, U], "TD")(lambda W, a, b: a.difference(b))
        fn(f"{T}cmp{U}", [T, U], "raw")(lambda W, a, b: [a == b, a < b, a <= b, a > b, a >= b, hash(a) == hash(b)])
    fn(f"{T}eq{T}", [T, T], "raw")(lambda W, a, b: a.exact_eq(b))
fn("O.instant", ["O"], "I")(lambda W, a: a.instant())
fn("O.local", ["O"], "L")(lambda W, a: a.local())
fn("O.date", ["O"], "Date")(lambda W, a: a.date())
fn("O.time", ["O"], "Time")(lambda W, a: a.time())
fn("O.addcal", ["O", both], "O")(lambda W, a, d: a.add(**d, ignore_dst=True))
fn("O.subdd", ["O", "DD"], "O")(lambda W, a, d: a.subtract(d, ignore_dst=True))
fn("O.rday", ["O", mode], "O")(lambda W, a, m: a.round("day", mode=m, ignore_dst=True))
fn("O.repl", ["O", date_], "O")(lambda W, a, f: a.replace(year=f[0], month=f[1], ignore_dst=True))
fn("O.repltime", ["O", "Time"], "O")(lambda W, a, t: a.replace_time(t, ignore_dst=True))
fn("O.repldate", ["O", "Date"], "O")(lambda W, a, d: a.replace_date(d, ignore_dst=True))
fn("I.noscal", ["I", small], "raw")(lambda W, a, n: a.add(days=n))
# -- local
fn("L.add", ["L", both], "L")(lambda W, a, d: a.add(**d, ignore_dst=True))
fn("L.subdtd", ["L", "DTD"], "L")(lambda W, a, d: a.subtract(d, ignore_dst=True))
fn("L+DD", ["L", "DD"], "L")(lambda W, a, d: a + d)
fn("L-DD", ["L", "DD"], "L")(lambda W, a, d: a - d)
fn("L.diff", ["L", "L"], "TD")(lambda W, a, b: a.difference(b, ignore_dst=True))
fn("L.pair", ["L", short], "raw")(lambda W, a, n: _pair(a, n))
fn("L.cmp", ["L", "L"], "raw")(lambda W, a, b: [a == b, a < b, a <= b, a > b, a >= b])
fn("L.round", ["L", unit_d, mode], "L")(lambda W, a, u, m: a.round(u[0], u[1], m))
fn("L.utc", ["L"], "I")(lambda W, a: a.assume_utc())
fn("L.off", ["L", off], "O")(lambda W, a, o: a.assume_fixed_offset(_off(W, o)))
fn("L.date", ["L"], "Date")(lambda W, a: a.date())
fn("L.time", ["L"], "Time")(lambda W, a: a.time())
fn("L.repl", ["L", time_], "L")(lambda W, a, t: a.replace(hour=t[0], nanosecond=t[3]))
fn("L.repltime", ["L", "Time"], "L")(lambda W, a, t: a.replace_time(t))
fn("L.repldate", ["L", "Date"], "L")(lambda W, a, d: a.replace_date(d))
fn("L.pyrt", ["L"], "L")(lambda W, a: W.LocalDateTime.from_py_datetime(a.py_datetime()))
# -- dates and times
fn("Date.add", ["Date", lead], "Date")(lambda W, a, d: a.add(**d))
fn("Date.sub", ["Date", lead], "Date")(lambda W, a, d: a.subtract(**d))
fn("Date+DD", ["Date", "DD"], "Date")(lambda W, a, d: a + d)
fn("Date-Date", ["Date", "Date"], "DD")(lambda W, a, b: a - b)
fn("Date.until", ["Date", "Date"], "raw")(lambda W, a, b: [a.days_until(b), a.days_since(b)])
fn("Date.dow", ["Date"], "raw")(lambda W, a: a.day_of_week().value)
fn("Date.ym", ["Date"], "YM")(lambda W, a: a.year_month())
fn("Date.md", ["Date"], "MD")(lambda W, a: a.month_day())
fn("Date.at", ["Date", "Time"], "L")(lambda W, a, t: a.at(t))
fn("Date.cmp", ["Date", "Date"], "raw")(lambda W, a, b: [a == b, a < b, a <= b, a > b, a >= b])
fn("Date.repl", ["Date", date_], "Date")(lambda W, a, f: a.replace(year=f[0], day=f[2]))
fn("Date.pyrt", ["Date"], "Date")(lambda W, a: W.Date.from_py_date(a.py_date()))
fn("YM.on", ["YM", date_], "Date")(lambda W, a, f: a.on_day(f[2]))
fn("YM.cmp", ["YM", "YM"], "raw")(lambda W, a, b: [a == b, a < b, a <= b, a > b, a >= b])
fn("YM.repl", ["YM", date_], "YM")(lambda W, a, f: a.replace(month=f[1]))
fn("MD.in", ["MD", date_], "Date")(lambda W, a, f: a.in_year(f[0]))
fn("MD.leap", ["MD"], "raw")(lambda W, a: a.is_leap())
fn("MD.cmp", ["MD", "MD"], "raw")(lambda W, a, b: [a == b, a < b, a <= b, a > b, a >= b])
fn("Time.on", ["Time", "Date"], "L")(lambda W, a, d: a.on(d))
fn("Time.round", ["Time", unit, mode], "Time")(lambda W, a, u, m: a.round(u[0], u[1], m))
fn("Time.cmp", ["Time", "Time"], "raw")(lambda W, a, b: [a == b, a < b, a <= b, a > b, a >= b])
fn("Time.repl", ["Time", time_], "Time")(lambda W, a, t: a.replace(minute=t[1], nanosecond=t[3]))
fn("Time.pyrt", ["Time"], "Time")(lambda W, a: W.Time.from_py_time(a.py_time()))
# -- deltas
fn("TD+TD", ["TD", "TD"], "TD")(lambda W, a, b: a + b)
fn("TD-TD", ["TD", "TD"], "TD")(lambda W, a, b: a - b)
fn("TD*n", ["TD", small], "TD")(lambda W, a, n: a * n)
fn("TD/n", ["TD", small], "TD")(lambda W, a, n: a / (n or 3))
fn("TD/TD", ["TD", "TD"], "raw")(lambda W, a, b: a / b)
fn("TDneg", ["TD"], "TD")(lambda W, a: -a)
fn("TDabs", ["TD"], "TD")(lambda W, a: abs(a))
fn("TD.in", ["TD"], "raw")(
    lambda W, a: [a.in_days_of_24h(), a.in_hours(), a.in_minutes(), a.in_seconds(), a.in_milliseconds(),
                  a.in_microseconds(), a.in_nanoseconds(), list(a.in_hrs_mins_secs_nanos())])
fn("TD.cmp", ["TD", "TD"], "raw")(lambda W, a, b: [a == b, a < b, a <= b, a > b, a >= b, bool(a)])
fn("TD.round", ["TD", unit, mode], "TD")(lambda W, a, u, m: a.round(u[0], u[1], m))
fn("TD.pyrt", ["TD"], "TD")(lambda W, a: W.TimeDelta.from_py_timedelta(a.py_timedelta()))
fn("DD+DD", ["DD", "DD"], "DD")(lambda W, a, b: a + b)
fn("DD-DD", ["DD", "DD"], "DD")(lambda W, a, b: a - b)
fn("DD*n", ["DD", small], "DD")(lambda W, a, n: a * n)
fn("DDneg", ["DD"], "DD")(lambda W, a: -a)
fn("DDabs", ["DD"], "DD")(lambda W, a: abs(a))
fn("DD.in", ["DD"], "raw")(lambda W, a: [list(a.in_months_days()), list(a.in_years_months_days()), bool(a)])
fn("DD+TD", ["DD", "TD"], "DTD")(lambda W, a, b: a + b)
fn("DTD+DD", ["DTD", "DD"], "DTD")(lambda W, a, b: a + b)
fn("DTD+TD", ["DTD", "TD"], "DTD")(lambda W, a, b: a + b)
fn("DTD-DTD", ["DTD", "DTD"], "DTD")(lambda W, a, b: a - b)
fn("DTD*n", ["DTD", small], "DTD")(lambda W, a, n: a * n)
fn("DTDneg", ["DTD"], "DTD")(lambda W, a: -a)
fn("DTD.dd", ["DTD"], "DD")(lambda W, a: a.date_part())
fn("DTD.td", ["DTD"], "TD")(lambda W, a: a.time_part())
fn("DTD.in", ["DTD"], "raw")(lambda W, a: [list(a.in_months_days_secs_nanos()), bool(a)])
# -- everything
TYPES = ["I", "O", "L", "Date", "YM", "MD", "Time", "TD", "DD", "DTD"]
for T in TYPES:
    fn(f"{T}.text", [T], T)(lambda W, a: type(a).parse_common_iso(a.format_common_iso()))
    fn(f"{T}.str", [T], T)(lambda W, a: type(a).parse_common_iso(str(a)))
    fn(f"{T}.pickle", [T], T)(lambda W, a: _pickle().loads(_pickle().dumps(a)))
    fn(f"{T}.copy", [T], T)(lambda W, a: _copy().deepcopy(_copy().copy(a)))
    fn(f"{T}.repr", [T], "raw")(lambda W, a: repr(a))
    fn(f"{T}.hash", [T, T], "raw")(lambda W, a, b: [
        hash(a) == hash(b) if a == b else None, len({a, b}), hash(a) == hash(_pickle().loads(_pickle().dumps(a)))])

MAKERS = {}
BY_TYPE = {}
for _n, (_args, _res, _f) in FN.items():
    if not any(isinstance(a, str) for a in _args):
        if _res != "raw":
            MAKERS.setdefault(_res, []).append(_n)
    else:
        for a in {x for x in _args if isinstance(x, str)}:
            BY_TYPE.setdefault(a, []).append(_n)


def _dt():
    import datetime

    return datetime


def _pickle():
    import pickle

    return pickle


def _copy():
    import copy

    return copy


class CallGen:
    """Generates call steps; tracks static types of slots only."""

    def __init__(self, rng, steps, prefix="c", types=TYPES):
        self.rng, self.steps, self.types = rng, steps, types
        self.slots = {}
        self.n = 0
        self.prefix = prefix

    def slot(self, t):
        if len(self.slots) > 14 and self.rng.random() < 0.8:
            s = self.rng.choice(sorted(self.slots))
        else:
            self.n += 1
            s = f"{self.prefix}{self.n}"
        self.slots[s] = t
        return s

    def make(self, t):
        name = self.rng.choice(MAKERS[t])
        return self.emit(name)

    def arg(self, a):
        if callable(a):
            return a(self.rng)
        have = [s for s, t in self.slots.items() if t == a]
        if not have or self.rng.random() < 0.25:
            return {"$": self.make(a)}
        return {"$": self.rng.choice(have)}

    def emit(self, name):
        args, res, _ = FN[name]
        vals = [self.arg(a) for a in args]
        st = {"op": "call", "fn": name, "args": vals}
        if res != "raw":
            st["to"] = self.slot(res)
        self.steps.append(st)
        return st.get("to")

    def step(self):
        t = self.rng.choice(self.types)
        have = [x for x in set(self.slots.values())]
        if have and self.rng.random() < 0.75:
            t = self.rng.choice(sorted(have))
            name = self.rng.choice(BY_TYPE[t])
            return self.emit(name)
        return self.make(t)


def perform(W, step, slots):
    """Runs a call step; raises KeyError-free Missing if a slot is absent."""
    args = []
    for a in step["args"]:
        if isinstance(a, dict) and "$" in a:
            if a["$"] not in slots:
                raise Missing()
            args.append(slots[a["$"]])
        else:
            args.append(a)
    return FN[step["fn"]][2](W, *args)


class Missing(Exception):
    pass


def observe(v):
    """Everything visible of a value, as text."""
    try:
        return _observe(v)
    except Exception as e:
        return f"observing a {type(v).__name__} raised {type(e).__name__}"


def nohash(o):
    """An observation without the hash (which differs between interpreters)."""
    p = o.split("\x1f")
    if len(p) > 3:
        del p[3]
    return "\x1f".join(p)


def _observe(v):
    if isinstance(v, (int, float, bool, str, list, type(None))):
        return repr(v)
    out = [type(v).__name__, repr(v), str(v), str(hash(v))]
    for n in ("timestamp", "timestamp_millis", "timestamp_nanos", "in_nanoseconds", "in_months_days",
              "in_months_days_secs_nanos"):
        if hasattr(v, n):
            out.append(repr(getattr(v, n)()))
    for n in ("year", "month", "day", "hour", "minute", "second", "nanosecond", "tz"):
        if hasattr(v, n):
            out.append(str(getattr(v, n)))
    if hasattr(v, "offset"):
        out.append(str(v.offset.in_nanoseconds()))
    if hasattr(v, "format_common_iso"):
        out.append(v.format_common_iso())
    if hasattr(v, "py_datetime"):
        p = v.py_datetime()
        out.append(p.replace(tzinfo=None).isoformat() + "|" + str(p.utcoffset()))
    for n in ("py_date", "py_time", "py_timedelta"):
        if hasattr(v, n):
            try:
                out.append(repr(getattr(v, n)()))
            except OverflowError:
                pass
    return "\x1f".join(out)
