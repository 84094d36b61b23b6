"""Independent time zone model: integers only, no datetime, no zoneinfo.

Zone rules exist here as TZif bytes (what the library reads through zoneinfo
and libc) and as a ZoneModel parsed from those same bytes by this module (what
the oracles consult).
"""
import os
import struct
from bisect import bisect_right

HERE = os.path.dirname(os.path.abspath(__file__))
DAY = 86400


# ---------------------------------------------------------------- calendar --
def days_from_civil(y, m, d):
    y -= m <= 2
    era = y // 400
    yoe = y - era * 400
    doy = (153 * (m + (-3 if m > 2 else 9)) + 2) // 5 + d - 1
    doe = yoe * 365 + yoe // 4 - yoe // 100 + doy
    return era * 146097 + doe - 719468


def civil_from_days(z):
    z += 719468
    era = z // 146097
    doe = z - era * 146097
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    y = yoe + era * 400
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    mp = (5 * doy + 2) // 153
    d = doy - (153 * mp + 2) // 5 + 1
    m = mp + (3 if mp < 10 else -9)
    return y + (m <= 2), m, d


def is_leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


MLEN = (31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)


def month_len(y, m):
    return 29 if m == 2 and is_leap(y) else MLEN[m - 1]


def local_fields(ls):
    """Local seconds since 1970-01-01T00:00 -> (y, m, d, H, M, S)."""
    d, s = divmod(ls, DAY)
    return civil_from_days(d) + (s // 3600, s // 60 % 60, s % 60)


def local_secs(y, m, d, H=0, M=0, S=0):
    return days_from_civil(y, m, d) * DAY + H * 3600 + M * 60 + S


# ------------------------------------------------------------ POSIX footer --
def _parse_num(s, i):
    j = i
    while j < len(s) and s[j].isdigit():
        j += 1
    return int(s[i:j]), j


def _parse_hms(s, i):
    sign = 1
    if s[i] in "+-":
        sign = -1 if s[i] == "-" else 1
        i += 1
    h, i = _parse_num(s, i)
    m = sec = 0
    if i < len(s) and s[i] == ":":
        m, i = _parse_num(s, i + 1)
        if i < len(s) and s[i] == ":":
            sec, i = _parse_num(s, i + 1)
    return sign * (h * 3600 + m * 60 + sec), i


def _parse_name(s, i):
    if s[i] == "<":
        j = s.index(">", i)
        return j + 1
    while i < len(s) and s[i].isalpha():
        i += 1
    return i


def _parse_rule(s):
    if "/" in s:
        a, b = s.split("/")
        tod, _ = _parse_hms(b, 0)
    else:
        a, tod = s, 7200
    if a[0] == "M":
        m, w, d = map(int, a[1:].split("."))
        return ("M", m, w, d, tod)
    if a[0] == "J":
        return ("J", int(a[1:]), 0, 0, tod)
    return ("N", int(a), 0, 0, tod)


def _rule_local(rule, y):
    kind, a, w, d, tod = rule
    if kind == "M":
        first = days_from_civil(y, a, 1)
        dow = (first + 4) % 7  # 1970-01-01 was a Thursday (Sunday = 0)
        day = 1 + (d - dow) % 7 + (w - 1) * 7
        while day > month_len(y, a):
            day -= 7
        day = first + day - 1
    elif kind == "J":
        day = days_from_civil(y, 1, 1) + a - 1
        if is_leap(y) and a >= 60:
            day += 1
    else:
        day = days_from_civil(y, 1, 1) + a
    return day * DAY + tod


class Footer:
    def __init__(self, s):
        self.s = s
        i = _parse_name(s, 0)
        off, i = _parse_hms(s, i)
        self.std = -off
        self.dst = None
        if i < len(s):
            i = _parse_name(s, i)
            if i < len(s) and s[i] != ",":
                off, i = _parse_hms(s, i)
                self.dst = -off
            else:
                self.dst = self.std + 3600
            a, b = s[i + 1:].split(",")
            self.start, self.end = _parse_rule(a), _parse_rule(b)

    def transitions(self, y):
        """[(utc, offset before, offset after)] for the DST rules in year y."""
        if self.dst is None:
            return []
        return sorted(
            [
                (_rule_local(self.start, y) - self.std, self.std, self.dst),
                (_rule_local(self.end, y) - self.dst, self.dst, self.std),
            ]
        )

    def around(self, t):
        y = local_fields(t)[0]
        out = []
        for yy in (y - 1, y, y + 1):
            out += self.transitions(yy)
        return out

    def offset(self, t):
        if self.dst is None:
            return self.std
        off = None
        for u, before, after in self.around(t):
            if u <= t:
                off = after
            elif off is None:
                off = before
        return off


# -------------------------------------------------------------------- TZif --
def _parse_block(b, i, tsize):
    isut, isstd, leap, ntime, ntype, nchar = struct.unpack_from(">6l", b, i + 20)
    i += 44
    fmt = "q" if tsize == 8 else "l"
    times = list(struct.unpack_from(f">{ntime}{fmt}", b, i))
    i += ntime * tsize
    idx = list(b[i:i + ntime])
    i += ntime
    types = []
    for k in range(ntype):
        off, dst, ab = struct.unpack_from(">lbB", b, i + 6 * k)
        types.append((off, dst))
    i += 6 * ntype + nchar + leap * (tsize + 4) + isstd + isut
    return times, idx, types, i


class ZoneModel:
    def __init__(self, data):
        assert data[:4] == b"TZif"
        times, idx, types, i = _parse_block(data, 0, 4)
        footer = ""
        if data[4:5] >= b"2":
            times, idx, types, i = _parse_block(data, i, 8)
            footer = data[i:].strip(b"\n").decode()
        self.init = next((o for o, d in types if not d), types[0][0])
        self.times = times
        self.offs = [types[k][0] for k in idx]
        self.footer = Footer(footer) if footer else None
        self._cache = {}

    def offset(self, t):
        """UTC offset (s) in force at UTC second t."""
        k = bisect_right(self.times, t)
        if k == 0:
            if not self.times and self.footer:
                return self.footer.offset(t)
            return self.init
        if k == len(self.times) and self.footer:
            return self.footer.offset(t)
        return self.offs[k - 1]

    def transitions_near(self, t, span):
        """[(utc, before, after)] with real offset changes, |utc-t| <= span."""
        cand = set()
        a = bisect_right(self.times, t - span - 1)
        b = bisect_right(self.times, t + span)
        cand.update(self.times[a:b])
        if self.footer and (not self.times or t + span >= self.times[-1]):
            last = self.times[-1] if self.times else None
            y0 = local_fields(t - span)[0]
            y1 = local_fields(t + span)[0]
            for y in range(y0 - 1, y1 + 2):
                for u, _, _ in self.footer.transitions(y):
                    if abs(u - t) <= span and (last is None or u > last):
                        cand.add(u)
        out = []
        for u in sorted(cand):
            x, y = self.offset(u - 1), self.offset(u)
            if x != y:
                out.append((u, x, y))
        return out

    def next_transition(self, t):
        for span in (200 * DAY, 800 * DAY):
            for tr in self.transitions_near(t + span, span):
                if tr[0] > t:
                    return tr
        return None

    def local(self, ls):
        """Classify a local second: ('unique', [utc]), ('fold', [earlier,
        later]) or ('gap', [earlier, later]) (the two extrapolated moments)."""
        got = self._cache.get(ls)
        if got is None:
            got = self._cache[ls] = self._local(ls)
        return got

    def _local(self, ls):
        trs = self.transitions_near(ls, 3 * DAY)
        offs = {self.offset(ls - 3 * DAY), self.offset(ls + 3 * DAY)}
        for _, x, y in trs:
            offs.update((x, y))
        us = sorted({ls - o for o in offs if self.offset(ls - o) == o})
        if len(us) == 1:
            return ("unique", us)
        if len(us) == 2:
            return ("fold", us)
        if not us:
            for u, x, y in trs:
                if u + x <= ls < u + y:
                    return ("gap", [ls - y, ls - x])
        raise AssertionError(("zone too wild for the model", ls, us, trs))


class FixedModel(ZoneModel):
    def __init__(self, off):
        self.init = off
        self.times = []
        self.offs = []
        self.footer = None
        self._cache = {}


def build_tzif(spec):
    """spec: {"init": off, "trans": [[utc, off, isdst], ...], "footer": str}"""
    types = [(spec["init"], 0)]
    idx = []
    for t, off, dst in spec["trans"]:
        ty = (off, dst)
        if ty not in types:
            types.append(ty)
        idx.append(types.index(ty))
    names = {}
    chars = b""
    recs = b""
    for off, dst in types:
        ab = ("D" if dst else "S") + "abcdefghijklmnop"[len(names) % 16] + "T"
        names[ab] = len(chars)
        recs += struct.pack(">lbB", off, dst, len(chars))
        chars += ab.encode() + b"\0"
    head = b"TZif2" + b"\0" * 15
    # minimal v1 block (one type), as zic -b slim writes
    out = head + struct.pack(">6l", 0, 0, 0, 0, 1, 1) + struct.pack(">lbB", 0, 0, 0) + b"\0"
    out += head + struct.pack(">6l", 0, 0, 0, len(idx), len(types), len(chars))
    out += b"".join(struct.pack(">q", t) for t, _, _ in spec["trans"])
    out += bytes(idx) + recs + chars
    # never truncate at or after this point: CPython's reader would not stop
    footer_at = len(out)
    out += b"\n" + spec["footer"].encode() + b"\n"
    return out, footer_at


def footer_start(data):
    """Offset at which the TZif footer starts."""
    _, _, _, i = _parse_block(data, 0, 4)
    if data[4:5] < b"2":
        return len(data)
    _, _, _, i = _parse_block(data, i, 8)
    return i


# --------------------------------------------------------------- universe --
REAL = sorted(
    os.path.relpath(os.path.join(r, f), os.path.join(HERE, "zones"))
    for r, _, fs in os.walk(os.path.join(HERE, "zones"))
    for f in fs
)
_bytes = {}


def zone_bytes(spec):
    """spec is {"real": name} or a synthetic spec."""
    if "real" in spec:
        got = _bytes.get(spec["real"])
        if got is None:
            with open(os.path.join(HERE, "zones", spec["real"]), "rb") as f:
                got = _bytes[spec["real"]] = f.read()
        return got
    return build_tzif(spec)[0]


_models = {}


def zone_model(spec):
    if "real" in spec:
        got = _models.get(spec["real"])
        if got is None:
            got = _models[spec["real"]] = ZoneModel(zone_bytes(spec))
        return got
    return ZoneModel(zone_bytes(spec))


def _fmt_off(off):
    """POSIX (inverted) rendering of an offset."""
    sign = "-" if off > 0 else ""
    off = abs(off)
    s = f"{sign}{off // 3600}"
    if off % 3600:
        s += f":{off // 60 % 60:02}"
        if off % 60:
            s += f":{off % 60:02}"
    return s


def gen_footer(rng, std):
    r = rng.random()
    if r < 0.35:
        return f"<{'S'}TD>{_fmt_off(std)}"
    save = rng.choice([3600, 3600, 3600, 1800, 7200, 1200, 5400, -3600, 10800])
    dst = std + save
    tod1 = rng.choice(["", "/0", "/1", "/3", "/0:30", "/23:30", "/24", "/-1", "/2:15:30"])
    tod2 = rng.choice(["", "/0", "/1", "/3", "/4", "/0:30", "/24", "/23:45", "/2:15:30"])
    a = f"M{rng.choice([3, 4])}.{rng.choice([1, 2, 5])}.{rng.choice([0, 4, 6])}{tod1}"
    b = f"M{rng.choice([9, 10, 11])}.{rng.choice([1, 3, 5])}.{rng.choice([0, 3, 6])}{tod2}"
    if rng.random() < 0.4:
        a, b = b, a
    return f"<STD>{_fmt_off(std)}<DST>{_fmt_off(dst)},{a},{b}"


def gen_offset(rng):
    r = rng.random()
    if r < 0.5:
        return rng.randrange(-11, 14) * 3600
    if r < 0.75:
        return rng.randrange(-44, 56) * 900
    if r < 0.9:
        return rng.randrange(-11 * 60, 13 * 60) * 60
    return rng.randrange(-11 * 3600, 13 * 3600)


def gen_synth(rng, near=False):
    """A synthetic zone.  Transitions are at least 4 days apart, gaps at most
    24 h and folds at most 23 h (limits of CPython's own PEP 495 support for
    the system timezone; zones that are never the system's may be `near`:
    clock changes within hours of each other)."""
    near = near and rng.random() < 0.3
    close = 0
    init = gen_offset(rng)
    off = init
    trans = []
    t = local_secs(rng.randrange(1905, 2015), rng.randrange(1, 13), rng.randrange(1, 28))
    n = rng.choice([0, 1, 2, 3, 5, 8, 14])
    std = off
    for k in range(n):
        t += rng.choice([4, 5, 9, 30, 120, 180, 365, 1000, 4000]) * DAY
        # align local transition time to interesting places
        place = rng.choice([0, 0, 1800, 3600, 7200, 7200, 10800, 82800, 84600, rng.randrange(DAY)])
        kind = rng.random()
        if kind < 0.55:  # dst flip
            if off == std:
                new, dst = std + rng.choice([3600, 3600, 1800, 7200, 1200]), 1
            else:
                new, dst = std, 0
        elif kind < 0.8:
            new, dst = off + rng.choice([-7200, -3600, -1800, -900, 900, 1800, 3600, 5400, 10800, 1172, -1]), 0
        elif kind < 0.9:
            new, dst = off + rng.choice([-1, 1]) * rng.choice([6, 12, 20, 22, 23]) * 3600, 0
        else:
            new, dst = gen_offset(rng), 0
        if not -15 * 3600 <= new <= 15 * 3600:
            new, dst = gen_offset(rng), 0
        if not -82800 <= new - off <= 86400 or new == off:
            continue
        if new - off > 82800 and place:
            continue  # a whole day is only ever skipped from midnight on
        if not dst:
            std = new
        # the wall clock *before* the transition shows `place`
        day = (t + off) // DAY
        u = day * DAY + place - off
        if trans and u - trans[-1][0] < 4 * DAY:
            continue
        trans.append([u, new, dst])
        prev, off = off, new
        t = u
        if near and abs(new - prev) <= 10800 and rng.random() < 0.5:
            back = prev if rng.random() < 0.7 else new + rng.choice([-3600, 3600, 1800])
            if abs(back) <= 15 * 3600:
                t = u + rng.choice([7, 9, 20, 22, 23, 24, 25, 30, 47]) * 3600 + rng.choice([0, 0, 0, 1800, -1])
                trans.append([t, back, 0])
                std = off = back
                close = 1
    r = rng.random()
    if r < 0.15 and trans:
        footer = ""
    else:
        footer = gen_footer(rng, std)
        f = Footer(footer)
        # the explicit data must agree with the footer where it takes over,
        # away from any footer transition
        if trans or f.dst is not None:
            # (glibc evaluates DST rules correctly only for years after 1970)
            u = max((trans[-1][0] if trans else t) + 40 * DAY, local_secs(1972, 1, 20))
            while any(abs(u - x) < 5 * DAY for x, _, _ in f.around(u)):
                u += 3 * DAY
            o = f.offset(u)
            if not -82800 <= o - off <= 82800:
                footer = ""
            if footer and f.dst is not None and o == off:
                # pin the hand-over with a no-op transition
                trans.append([u, o, trans[-1][2] if trans else 0])
            elif footer and o != off:
                trans.append([u, o, 1 if (f.dst is not None and o == f.dst and o != f.std) else 0])
            elif not trans:
                trans.append([u, o, 0])
        if not trans and footer and f.std != init:
            footer = ""
    if not trans and not footer:
        footer = f"<STD>{_fmt_off(init)}"
    _tame_dst_flags(init, trans)
    spec = {"init": init, "trans": trans, "footer": footer}
    if close:
        spec["near"] = 1
    return spec


def _tame_dst_flags(init, trans):
    """CPython's _zoneinfo.c reads out of bounds for a DST-flagged last
    transition whose DST saving it cannot work out (two DST types in a row);
    the flag has no bearing on offsets, so only keep the unproblematic ones."""
    prev_off, prev_dst = init, 0
    for tr in trans:
        if tr[2] and (prev_dst or tr[1] == prev_off) and not (prev_dst and tr[1] == prev_off):
            tr[2] = 0
        prev_off, prev_dst = tr[1], tr[2]


def mutate_spec(rng, spec):
    """A new release of the zone's rules: some transitions moved, removed or
    re-offset, or entirely different rules."""
    if "real" in spec or rng.random() < 0.3:
        return gen_synth(rng)
    s = {**spec, "trans": [list(x) for x in spec["trans"]]}
    # (the last transition hands over to the footer: keep it where it is)
    if len(s["trans"]) > 1:
        k = rng.randrange(len(s["trans"]) - 1)
        r = rng.random()
        if r < 0.5:
            lo = s["trans"][k - 1][0] + 4 * DAY if k else s["trans"][k][0] - 20 * DAY
            hi = s["trans"][k + 1][0] - 4 * DAY if k + 1 < len(s["trans"]) else s["trans"][k][0] + 1
            new = s["trans"][k][0] + rng.choice([-7 * DAY, 7 * DAY, -DAY, 3600, -3600, -1800])
            if lo <= new <= hi:
                s["trans"][k][0] = new
        elif k + 1 < len(s["trans"]):
            d = rng.choice([-3600, 3600, 1800, -900, 1, -1, 17, -28, 59, 60, -90])
            prev = s["trans"][k - 1][1] if k else s["init"]
            new = s["trans"][k][1] + d
            nxt = s["trans"][k + 1][1]
            if all(-82800 <= x <= 82800 and x for x in (new - prev, nxt - new)) and abs(new) <= 54000:
                s["trans"][k][1] = new
    _tame_dst_flags(s["init"], s["trans"])
    return s if s != spec else gen_synth(rng)
