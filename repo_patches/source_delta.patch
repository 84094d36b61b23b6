From ee8acbd89ce3881fb8dc57383d5de40ee539d3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:58 +0000
Subject: [PATCH 01/18] fix: Time.__lt__ compares the other operand's
 nanoseconds

---
 pysrc/whenever/_pywhenever.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 1ef0531..d9cd4c0 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -1173,7 +1173,7 @@ class Time(_ImmutableBase):
     def __lt__(self, other: Time) -> bool:
         if not isinstance(other, Time):
             return NotImplemented
-        return (self._py_time, self._nanos) < (other._py_time, self._nanos)
+        return (self._py_time, self._nanos) < (other._py_time, other._nanos)
 
     def __le__(self, other: Time) -> bool:
         if not isinstance(other, Time):
-- 
2.43.0


From f77dd93c011d84c5155ff5bb7a66c29b90ca0f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:58 +0000
Subject: [PATCH 02/18] fix: half rounding modes with odd increments round to
 the nearest

---
 pysrc/whenever/_pywhenever.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index d9cd4c0..bc17108 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -1122,7 +1122,8 @@ class Time(_ImmutableBase):
         )
 
         if mode == "half_even":  # check the default mode first
-            threshold_ns = increment_ns // 2 + (quotient % 2 == 0) or 1
+            # i.e. more than half if the quotient is even, at least half if odd
+            threshold_ns = (increment_ns + 1 + (quotient % 2 == 0)) // 2
         elif mode == "ceil":
             threshold_ns = 1  # Always round up
         elif mode == "floor":
@@ -1130,7 +1131,7 @@ class Time(_ImmutableBase):
         elif mode == "half_floor":
             threshold_ns = increment_ns // 2 + 1
         elif mode == "half_ceil":
-            threshold_ns = increment_ns // 2 or 1
+            threshold_ns = (increment_ns + 1) // 2
         else:
             raise ValueError(f"Invalid rounding mode: {mode!r}")
 
@@ -1553,7 +1554,8 @@ class TimeDelta(_ImmutableBase):
         quotient, remainder_ns = divmod(self._total_ns, increment_ns)
 
         if mode == "half_even":  # check the default case first
-            threshold_ns = increment_ns // 2 + (quotient % 2 == 0) or 1
+            # i.e. more than half if the quotient is even, at least half if odd
+            threshold_ns = (increment_ns + 1 + (quotient % 2 == 0)) // 2
         elif mode == "ceil":
             threshold_ns = 1  # Always round up
         elif mode == "floor":
@@ -1561,7 +1563,7 @@ class TimeDelta(_ImmutableBase):
         elif mode == "half_floor":
             threshold_ns = increment_ns // 2 + 1
         elif mode == "half_ceil":
-            threshold_ns = increment_ns // 2 or 1
+            threshold_ns = (increment_ns + 1) // 2
         else:
             raise ValueError(f"Invalid rounding mode: {mode!r}")
 
-- 
2.43.0


From f3fd00a01619e62da86df21beb49bbf87ec06072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:06 +0000
Subject: [PATCH 03/18] fix: rounding to the day late on a shortened day stays
 within that day's bounds

---
 pysrc/whenever/_pywhenever.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index bc17108..9b33bc1 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -1120,6 +1120,10 @@ class Time(_ImmutableBase):
         quotient, remainder_ns = divmod(
             self._to_ns_since_midnight(), increment_ns
         )
+        # A time of day can be at (or past) the length of a shortened day,
+        # but it still belongs to that day.
+        if quotient and increment_ns == day_in_ns:
+            quotient, remainder_ns = 0, increment_ns
 
         if mode == "half_even":  # check the default mode first
             # i.e. more than half if the quotient is even, at least half if odd
-- 
2.43.0


From 572669315f2d83bfa660da1b7ccfd8ca59d82c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:06 +0000
Subject: [PATCH 04/18] fix: rounding to a skipped time doesn't move against
 the rounding direction

---
 pysrc/whenever/_pywhenever.py | 38 ++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 9b33bc1..543ae26 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -4746,13 +4746,18 @@ class ZonedDateTime(_KnowsInstantAndLocal):
         rounded_local = self.local()._round_unchecked(
             increment_ns, mode, day_ns
         )
-        return self._from_py_unchecked(
-            _resolve_ambiguity_using_prev_offset(
-                rounded_local._py_dt.replace(tzinfo=self._py_dt.tzinfo),
-                self._py_dt.utcoffset(),  # type: ignore[arg-type]
-            ),
-            rounded_local._nanos,
-        )
+        tz, offset = self._py_dt.tzinfo, self._py_dt.utcoffset()
+        dt = rounded_local._py_dt.replace(tzinfo=tz)
+        resolved = _resolve_ambiguity_using_prev_offset(dt, offset)  # type: ignore[arg-type]
+        if resolved.replace(tzinfo=None) != rounded_local._py_dt:
+            # The rounded time is skipped. Days start right after the gap.
+            # Otherwise, count from the current offset, so that
+            # we never move in the opposite direction of the rounding.
+            if unit == "day":
+                resolved = _resolve_ambiguity(dt, tz, "compatible")  # type: ignore[arg-type]
+            else:
+                resolved = dt.replace(tzinfo=_timezone(offset)).astimezone(tz)  # type: ignore[arg-type]
+        return self._from_py_unchecked(resolved, rounded_local._nanos)
 
     def __repr__(self) -> str:
         return f"ZonedDateTime({str(self).replace('T', ' ', 1)})"
@@ -5226,13 +5231,18 @@ class SystemDateTime(_KnowsInstantAndLocal):
         rounded_local = self.local()._round_unchecked(
             increment_ns, mode, day_ns
         )
-        return self._from_py_unchecked(
-            _resolve_system_ambiguity_using_prev_offset(
-                rounded_local._py_dt,
-                self._py_dt.utcoffset(),  # type: ignore[arg-type]
-            ),
-            rounded_local._nanos,
-        )
+        offset = self._py_dt.utcoffset()
+        dt = rounded_local._py_dt
+        resolved = _resolve_system_ambiguity_using_prev_offset(dt, offset)  # type: ignore[arg-type]
+        if resolved.replace(tzinfo=None) != dt:
+            # The rounded time is skipped. Days start right after the gap.
+            # Otherwise, count from the current offset, so that
+            # we never move in the opposite direction of the rounding.
+            if unit == "day":
+                resolved = _resolve_system_ambiguity(dt, "compatible")
+            else:
+                resolved = dt.replace(tzinfo=_timezone(offset)).astimezone()  # type: ignore[arg-type]
+        return self._from_py_unchecked(resolved, rounded_local._nanos)
 
     # a custom pickle implementation with a smaller payload
     def __reduce__(self) -> tuple[object, ...]:
-- 
2.43.0


From a3d2ef0e44b2adbba50c2ad0aed2dfe00edf7a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:06 +0000
Subject: [PATCH 05/18] fix: ZonedDateTime keeps the offset, if possible, when
 a change results in a skipped time

---
 pysrc/whenever/_pywhenever.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 543ae26..63117aa 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -5885,16 +5885,14 @@ def _resolve_ambiguity_using_prev_offset(
     dt: _datetime,
     prev_offset: _timedelta,
 ) -> _datetime:
-    if prev_offset == dt.utcoffset():
-        pass
-    elif prev_offset == dt.replace(fold=not dt.fold).utcoffset():
-        dt = dt.replace(fold=not dt.fold)
-    else:
-        # No offset match. Setting fold=0 adopts the 'compatible' strategy
-        dt = dt.replace(fold=0)
-
-    # This roundtrip ensures skipped times are shifted
-    return dt.astimezone(_UTC).astimezone(dt.tzinfo)
+    # The roundtrips ensure skipped times are shifted.
+    # Setting fold=0 adopts the 'compatible' strategy
+    compatible = dt.replace(fold=0).astimezone(_UTC).astimezone(dt.tzinfo)
+    if compatible.utcoffset() != prev_offset:
+        other = dt.replace(fold=1).astimezone(_UTC).astimezone(dt.tzinfo)
+        if other.utcoffset() == prev_offset:
+            return other
+    return compatible
 
 
 # Whether the fold of a system time needs to be flipped in a gap
-- 
2.43.0


From 38f90152b2682727d273e71b676b3fedfb17a155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:06 +0000
Subject: [PATCH 06/18] fix: ZonedDateTime.exact_eq() compares the timezone ID

---
 pysrc/whenever/_pywhenever.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 63117aa..6357770 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -2989,16 +2989,18 @@ class _KnowsInstant(_BasicConversions):
         """
         if type(self) is not type(other):
             raise TypeError("Cannot compare different types")
+        # Compare the timezone by key: there may be several ZoneInfo instances
+        # for it, and other timezones may have the same offset.
         return (
-            self._py_dt,  # type: ignore[attr-defined]
+            self._py_dt.replace(tzinfo=None),  # type: ignore[attr-defined]
             self._py_dt.utcoffset(),  # type: ignore[attr-defined]
             self._nanos,  # type: ignore[attr-defined]
-            type(self._py_dt.tzinfo),  # type: ignore[attr-defined]
+            getattr(self._py_dt.tzinfo, "key", None),  # type: ignore[attr-defined]
         ) == (
-            other._py_dt,  # type: ignore[attr-defined]
+            other._py_dt.replace(tzinfo=None),  # type: ignore[attr-defined]
             other._py_dt.utcoffset(),  # type: ignore[attr-defined]
             other._nanos,  # type: ignore[attr-defined]
-            type(other._py_dt.tzinfo),  # type: ignore[attr-defined]
+            getattr(other._py_dt.tzinfo, "key", None),  # type: ignore[attr-defined]
         )
 
     def difference(
-- 
2.43.0


From e674005ee4093a9a11aeb10670edf93dec975e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:06 +0000
Subject: [PATCH 07/18] fix: replacing the tz with the same tz keeps the offset
 regardless of the ZoneInfo cache

---
 pysrc/whenever/_pywhenever.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 6357770..482e7ca 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -4496,7 +4496,7 @@ class ZonedDateTime(_KnowsInstantAndLocal):
             pass
         else:
             kwargs["tzinfo"] = zoneinfo_new = ZoneInfo(tz)
-            if zoneinfo_new is not self._py_dt.tzinfo:
+            if zoneinfo_new.key != self.tz:
                 disambiguate = disambiguate or "compatible"
         nanos = _pop_nanos_kwarg(kwargs, self._nanos)
 
-- 
2.43.0


From cd311799327b2bd40a6e91a567820c370543868d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:06 +0000
Subject: [PATCH 08/18] fix: a ticking time patch always follows the actual
 clock

---
 pysrc/whenever/_pywhenever.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 482e7ca..6f85242 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -6222,8 +6222,10 @@ def _patch_time_keep_ticking(inst: Instant) -> None:
     global _time_patch
     global time_ns
 
-    _patched_at = time_ns()
-    _time_ns = time_ns
+    # Use the actual clock, not any patch that's currently active
+    from time import time_ns as _time_ns
+
+    _patched_at = _time_ns()
 
     def time_ns() -> int:
         return inst.timestamp_nanos() + _time_ns() - _patched_at
-- 
2.43.0


From 1f402de0ec402b9d6e192647ab1cd4d9145ba214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:06 +0000
Subject: [PATCH 09/18] fix: parsing or unpickling a skipped time doesn't
 create a nonexistent ZonedDateTime

---
 pysrc/whenever/_pywhenever.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 6f85242..b850841 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -6088,7 +6088,8 @@ def _adjust_fold_to_offset(dt: _datetime, offset: _timedelta) -> _datetime:
         dt = dt.replace(fold=1)
         if dt.utcoffset() != offset:
             raise InvalidOffset()
-    return dt
+    # This roundtrip ensures skipped times are shifted to an existing time
+    return dt.astimezone(_UTC).astimezone(dt.tzinfo)
 
 
 def _as_fold(s: str) -> Fold:
-- 
2.43.0


From 6cea14c90f702d63cdda4a28f73b6c91fb7e054d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:06 +0000
Subject: [PATCH 10/18] fix: LocalDateTime() rejects out-of-range nanoseconds

---
 pysrc/whenever/_pywhenever.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index b850841..aed073a 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -5302,6 +5302,8 @@ class LocalDateTime(_KnowsLocal):
         nanosecond: int = 0,
     ) -> None:
         self._py_dt = _datetime(year, month, day, hour, minute, second)
+        if nanosecond < 0 or nanosecond >= 1_000_000_000:
+            raise ValueError(f"nanosecond out of range: {nanosecond}")
         self._nanos = nanosecond
 
     def format_common_iso(self) -> str:
-- 
2.43.0


From 1f114dab54a2743f01e0999981798eafe8048e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:58 +0000
Subject: [PATCH 11/18] fix: adding date and time deltas of opposite sign
 raises instead of giving a corrupt delta

---
 pysrc/whenever/_pywhenever.py | 36 ++++++++++++++---------------------
 1 file changed, 14 insertions(+), 22 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index aed073a..0edc5af 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -2000,19 +2000,13 @@ class DateDelta(_ImmutableBase):
                 days=self._days + other._days,
             )
         elif isinstance(other, TimeDelta):
-            new = _object_new(DateTimeDelta)
-            new._date_part = self
-            new._time_part = other
-            return new
+            return DateTimeDelta._from_parts(self, other)
         else:
             return NotImplemented
 
     def __radd__(self, other: TimeDelta) -> DateTimeDelta:
         if isinstance(other, TimeDelta):
-            new = _object_new(DateTimeDelta)
-            new._date_part = self
-            new._time_part = other
-            return new
+            return DateTimeDelta._from_parts(self, other)
         return NotImplemented
 
     @overload
@@ -2316,19 +2310,18 @@ class DateTimeDelta(_ImmutableBase):
         >>> d + DateTimeDelta(months=2, days=3, minutes=90)
         DateTimeDelta(P1M1W14DT5H30M)
         """
-        new = _object_new(DateTimeDelta)
         if isinstance(other, DateTimeDelta):
-            new._date_part = self._date_part + other._date_part
-            new._time_part = self._time_part + other._time_part
+            d = self._date_part + other._date_part
+            t = self._time_part + other._time_part
         elif isinstance(other, TimeDelta):
-            new._date_part = self._date_part
-            new._time_part = self._time_part + other
+            d = self._date_part
+            t = self._time_part + other
         elif isinstance(other, DateDelta):
-            new._date_part = self._date_part + other
-            new._time_part = self._time_part
+            d = self._date_part + other
+            t = self._time_part
         else:
             return NotImplemented
-        return new
+        return self._from_parts(d, t)
 
     def __radd__(self, other: TimeDelta | DateDelta) -> DateTimeDelta:
         if isinstance(other, (TimeDelta, DateDelta)):
@@ -2360,16 +2353,15 @@ class DateTimeDelta(_ImmutableBase):
         return self._from_parts(d, t)
 
     def __rsub__(self, other: TimeDelta | DateDelta) -> DateTimeDelta:
-        new = _object_new(DateTimeDelta)
         if isinstance(other, TimeDelta):
-            new._date_part = -self._date_part
-            new._time_part = other - self._time_part
+            d = -self._date_part
+            t = other - self._time_part
         elif isinstance(other, DateDelta):
-            new._date_part = other - self._date_part
-            new._time_part = -self._time_part
+            d = other - self._date_part
+            t = -self._time_part
         else:
             return NotImplemented
-        return new
+        return self._from_parts(d, t)
 
     def __eq__(self, other: object) -> bool:
         """Compare for equality
-- 
2.43.0


From ead08479d3a1f77b6b2e21f407e6a5a5c6143d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:50 +0000
Subject: [PATCH 12/18] fix: parsing deltas doesn't lose nanoseconds to float
 rounding

---
 pysrc/whenever/_pywhenever.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 0edc5af..2479c1d 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -1792,7 +1792,7 @@ def _parse_timedelta_component(s: str, exc: Exception) -> tuple[str, int, str]:
         raise exc
     digits_maybe_fractional, unit = match.groups()
     if unit == "S":
-        value = int(float(digits_maybe_fractional) * 1_000_000_000)
+        value = _parse_seconds_as_nanos(digits_maybe_fractional)
     else:
         try:
             value = int(digits_maybe_fractional)
@@ -1801,6 +1801,12 @@ def _parse_timedelta_component(s: str, exc: Exception) -> tuple[str, int, str]:
     return s[len(digits_maybe_fractional) + 1 :], value, unit  # noqa[E203]
 
 
+# Parse without floats, which can't represent every nanosecond exactly
+def _parse_seconds_as_nanos(s: str) -> int:
+    secs, _, fraction = s.partition(".")
+    return int(secs) * 1_000_000_000 + int(fraction.ljust(9, "0"))
+
+
 TimeDelta.ZERO = TimeDelta()
 TimeDelta.MAX = TimeDelta(seconds=9999 * 366 * 24 * 3_600)
 TimeDelta.MIN = TimeDelta(seconds=-9999 * 366 * 24 * 3_600)
@@ -2297,7 +2303,7 @@ class DateTimeDelta(_ImmutableBase):
             days=int(days or 0),
             hours=int(hours or 0),
             minutes=int(minutes or 0),
-            seconds=float(seconds or 0),
+            nanoseconds=_parse_seconds_as_nanos(seconds or "0"),
         )
         return -parsed if sign == "-" else parsed
 
-- 
2.43.0


From c59a4a10486f6eab455c2be453d6d05474aa593a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:42 +0000
Subject: [PATCH 13/18] fix: shifting a ticking time patch pinned to an
 OffsetDateTime

---
 pysrc/whenever/__init__.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pysrc/whenever/__init__.py b/pysrc/whenever/__init__.py
index 9a6c035..bf149ee 100644
--- a/pysrc/whenever/__init__.py
+++ b/pysrc/whenever/__init__.py
@@ -63,9 +63,14 @@ class _TimePatch:
 
     def shift(self, *args, **kwargs):
         if self._keep_ticking:
-            self._pin = new = (self._pin + (Instant.now() - self._pin)).add(
-                *args, **kwargs
+            elapsed = Instant.now() - self._pin
+            current = (
+                # OffsetDateTime doesn't support the `+` operator
+                self._pin.add(elapsed, ignore_dst=True)
+                if isinstance(self._pin, OffsetDateTime)
+                else self._pin + elapsed
             )
+            self._pin = new = current.add(*args, **kwargs)
             _patch_time_keep_ticking(
                 new if isinstance(new, Instant) else new.instant()
             )
-- 
2.43.0


From cf2455cc20e33a22b6206dee42e342f50a2c01d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:36 +0000
Subject: [PATCH 14/18] fix: SystemDateTime.is_ambiguous() doesn't depend on
 the fold of the datetime it came from

---
 pysrc/whenever/_pywhenever.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 2479c1d..bf99f42 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -5143,7 +5143,7 @@ class SystemDateTime(_KnowsInstantAndLocal):
         ----
         This method may give a different result after a change to the system timezone.
         """
-        naive = self._py_dt.replace(tzinfo=None)
+        naive = self._py_dt.replace(tzinfo=None, fold=0)
         return naive.astimezone(_UTC) != naive.replace(fold=1).astimezone(_UTC)
 
     def day_length(self) -> TimeDelta:
-- 
2.43.0


From 53510f9b921525cd02711c9c2e92cbab35b6ea1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:47 +0000
Subject: [PATCH 15/18] fix: SystemDateTime.round('day') on a date that the
 current system timezone skips

---
 pysrc/whenever/_pywhenever.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index bf99f42..2e8c14e 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -5225,6 +5225,9 @@ class SystemDateTime(_KnowsInstantAndLocal):
         increment_ns = increment_to_ns(unit, increment, any_hour_ok=False)
         if unit == "day":
             increment_ns = day_ns = self.day_length()._total_ns
+            if not day_ns:
+                # The system timezone changed to one that skips this date
+                return self.start_of_day()
         else:
             day_ns = 86_400_000_000_000
 
-- 
2.43.0


From 6fc5c79f5eedbfa6c7d32f3d4dcac8350bc8ee1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:27 +0000
Subject: [PATCH 16/18] fix: DateTimeDelta.in_months_days_secs_nanos() is exact
 for large totals

---
 pysrc/whenever/_pywhenever.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 2e8c14e..0d3f432 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -2222,8 +2222,10 @@ class DateTimeDelta(_ImmutableBase):
         >>> d.in_months_days_secs_nanos()
         (0, 18, 14_400, 2000)
         """
-        subsec_nanos = int(fmod(self._time_part._total_ns, 1_000_000_000))
-        whole_seconds = int(self._time_part._total_ns / 1_000_000_000)
+        total_ns = self._time_part._total_ns
+        whole_seconds, subsec_nanos = divmod(abs(total_ns), 1_000_000_000)
+        if total_ns < 0:
+            whole_seconds, subsec_nanos = -whole_seconds, -subsec_nanos
         return self._date_part.in_months_days() + (whole_seconds, subsec_nanos)
 
     def format_common_iso(self) -> str:
-- 
2.43.0


From 050c0ae4b6ff628f6b0fd1424902a4f9790b815e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:27 +0000
Subject: [PATCH 17/18] fix: check the UTC range when shifting an
 OffsetDateTime and assuming a fixed offset

The result could be a value outside the supported range (years 1-9999 in
UTC), which can't be compared, converted or loaded again.
---
 pysrc/whenever/_pywhenever.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 0d3f432..b955201 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -4163,7 +4163,9 @@ class OffsetDateTime(_KnowsInstantAndLocal):
             tdelta._total_ns + self._nanos, 1_000_000_000
         )
         return self._from_py_unchecked(
-            (py_dt_with_new_date + _timedelta(seconds=delta_secs)),
+            _check_utc_bounds(
+                py_dt_with_new_date + _timedelta(seconds=delta_secs)
+            ),
             nanos,
         )
 
@@ -5631,7 +5633,10 @@ class LocalDateTime(_KnowsLocal):
         OffsetDateTime(2020-08-15 23:12:00+02:00)
         """
         return OffsetDateTime._from_py_unchecked(
-            self._py_dt.replace(tzinfo=_load_offset(offset)), self._nanos
+            _check_utc_bounds(
+                self._py_dt.replace(tzinfo=_load_offset(offset))
+            ),
+            self._nanos,
         )
 
     def assume_tz(
-- 
2.43.0


From 7c86c723cf606d1f954fddbdce5895280943a886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:38 +0000
Subject: [PATCH 18/18] fix: SystemDateTime.is_ambiguous() is false for skipped
 local times

A value from before a change of the system timezone may have a local time
that the timezone in force skips. It was reported as ambiguous.
---
 pysrc/whenever/_pywhenever.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index b955201..011c0bc 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -5148,7 +5148,13 @@ class SystemDateTime(_KnowsInstantAndLocal):
         This method may give a different result after a change to the system timezone.
         """
         naive = self._py_dt.replace(tzinfo=None, fold=0)
-        return naive.astimezone(_UTC) != naive.replace(fold=1).astimezone(_UTC)
+        as_utc = naive.astimezone(_UTC)
+        return (
+            as_utc != naive.replace(fold=1).astimezone(_UTC)
+            # The fold also matters for skipped times, which a value from before
+            # a system timezone change may have. They don't survive a roundtrip.
+            and as_utc.astimezone().replace(tzinfo=None) == naive
+        )
 
     def day_length(self) -> TimeDelta:
         """The duration between the start of the current day and the next.
-- 
2.43.0

