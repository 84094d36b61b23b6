"""Regenerates /verif/properties.jsonl (kept as a script so the text is easy to edit)."""
import json, os
PY = "pysrc/whenever/_pywhenever.py"
INIT = "pysrc/whenever/__init__.py"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
        "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
        "observe_at": list(observe), "hook_needed": hook}})

TIMEG = [("time_ns", "the clock function all now() methods call; rebound by patches", PY)]

prop("C01", "Now-functions return one clock reading taken during the call, exact to the ns",
 "Every way of asking for the current time (of Instant, OffsetDateTime, ZonedDateTime and SystemDateTime, and today's date in the system timezone) returns the moment of one single reading of the system clock taken during that very call, exact to the nanosecond. It is expressed in the requested offset or timezone, or the system timezone in force, by the rules for that moment. This holds wherever the clock stands and however it jumps, steps backward or stalls before, between or during calls.",
 ["schedules", "fault_sequences", "configurations"],
 "all clock values (1677-2262), advances per reading, backward and forward steps and stalls, all zones and system timezones",
 "Tests call now() on the real clock and compare with a tolerance; they cannot place the clock at a transition, a second or ns boundary, before 1970, or make it step backward within a call.",
 [PY], [("now() / today_in_system_tz()", PY)], TIMEG, ["return values of now functions vs. the log of clock readings handed out"])
prop("C02", "A patched clock shows exactly the pinned, ticking or shifted time",
 "While a time patch is active every now-function reports the patched time: exactly the pinned moment for a frozen patch, and the pinned moment plus the real clock's advance since pinning for a ticking one. Shifting the patch moves it exactly as adding the same amounts to the current patched time (as a value of the type that was pinned) would, any number of times. A shift that fails changes nothing.",
 ["schedules", "histories", "fault_sequences"],
 "all histories of patching, shifting (exact, calendar, failing), clock advances, backward clock steps and now() calls, for all four pinned types",
 "Tests freeze and tick once for microseconds of real time and shift once or twice; long shift histories, backward clock steps and failing shifts are not reached.",
 [INIT, PY], [("patch_current_time, shift", INIT), ("_patch_time_frozen / _patch_time_keep_ticking", PY)], TIMEG, ["now functions", "readings of the real clock"])
prop("C03", "Leaving a time patch always restores the real clock, and never touches more",
 "However a patched block ends - normally, by an exception of any kind, by closing a generator or leaving a decorated function, or because entering it failed - all now-functions report the real clock again, or the enclosing patch's time if patches are nested. At no point does a patch affect the standard library's clock functions or the system timezone.",
 ["histories", "fault_sequences"],
 "all histories of entering, nesting, shifting, failing and leaving patches, with exceptions injected anywhere in the block",
 "Tests leave patched blocks normally only.",
 [INIT, PY], [("patch_current_time", INIT), ("_unpatch_time", PY)], TIMEG, ["now functions", "time.time_ns, datetime.now"])
prop("C04", "System timezone changes never alter an existing SystemDateTime",
 "A SystemDateTime keeps the moment, offset and local date and time it was created with, however the system timezone changes afterwards: reading its fields, comparing, hashing, formatting, pickling, copying and converting it (also to other types) give the same results as before the change.",
 ["histories", "configurations"],
 "all histories of creating SystemDateTime values by every route and changing the system timezone between and after",
 "Tests change the system timezone around single assertions with two fixed zones.",
 [PY], [("SystemDateTime stores a fixed offset", PY)], [("_py_dt", "aware datetime with fixed offset", PY)], ["all read-only operations of SystemDateTime"])
prop("C05", "System-timezone operations use the rules in force at the time of the call",
 "Every operation that creates or computes a time in the system timezone (now, construction, timestamps, conversion to and assumption of the system timezone, replacing fields, adding and subtracting, rounding, start and length of day, ambiguity) follows the system timezone's rules in force when it is called, whatever they were earlier in the process's life. Exact-time operations keep the exact moment and re-express it in the current system timezone.",
 ["histories", "configurations"],
 "all histories of system timezone changes interleaved with operations on values created before and after, for all tz rules",
 "Tests fix the system timezone for a test's whole duration and cover two zones; values that outlive a change are used in one test.",
 [PY], [("_resolve_system_ambiguity, astimezone()", PY)], (), ["results of SystemDateTime operations vs. a model of the current rules"])
prop("C06", "Disambiguation of local times is right for any timezone rules",
 "Turning a local date and time into a moment in a timezone (named or system) gives the unique moment if there is one; for a repeated time 'earlier' and 'later' pick the two moments in order, 'compatible' picks the earlier, 'raise' raises RepeatedTime; for a skipped time 'earlier' and 'later' shift by the gap's length to before and after it, 'compatible' picks the later, 'raise' raises SkippedTime. Ambiguity is reported exactly for repeated times. This follows the rules the tz database or system holds at that time, whatever they are.",
 ["inputs", "configurations", "histories"],
 "all local times and all tz rules delivered by the tz database or system (any offsets, gap and fold sizes, footers), in any cache state",
 "Tests check a handful of dates in Amsterdam, New York and a few others; other gap shapes, midnight, sub-minute and date-line transitions and rules replaced on disk are not reached.",
 [PY], [("_resolve_ambiguity", PY), ("_resolve_system_ambiguity", PY)], (), ["ZonedDateTime / SystemDateTime constructors, assume_tz, assume_system_tz, replace*"])
prop("C07", "Exact-time arithmetic moves by exactly the elapsed time across transitions",
 "Adding or subtracting hours and smaller units moves the exact moment by precisely that amount to the nanosecond, and the difference of any two exact times is precisely the elapsed time between their moments; the two are inverse. The result's offset and local time are those the (named, fixed or system) timezone's rules give for that moment, whatever transitions lie between.",
 ["inputs", "configurations", "histories"],
 "all moments, amounts, tz rules delivered by the environment, and mixes of exact types",
 "Tests use a few amounts around one or two DST transitions.",
 [PY], [("__add__/__sub__/add/subtract/difference of exact types", PY)], (), ["add, subtract, operators, difference"])
prop("C08", "Calendar arithmetic in a timezone keeps wall time and resolves per the rules",
 "Adding or subtracting years, months, weeks and days, and replacing fields, date, time or tz of a zoned or system datetime acts on the local date and time (months first, with the day clamped to the month's length, then days, then exact units) and keeps the other fields. If the result is repeated or skipped it is resolved by the requested disambiguation, or by default by keeping the same UTC offset if one of the two options has it and 'compatible' otherwise (always 'compatible' when the tz is replaced by another).",
 ["inputs", "configurations", "histories"],
 "all starting values, amounts, replaced fields, disambiguation settings and tz rules delivered by the environment",
 "Tests cover a few month-end and DST cases in two or three zones.",
 [PY], [("_shift_kwargs, replace, replace_date, replace_time", PY), ("_resolve_ambiguity_using_prev_offset", PY)], (), ["add, subtract, replace, replace_date, replace_time, operators"])
prop("C09", "Day boundaries and rounding respect the timezone's actual days",
 "The start of a day is the moment its midnight occurs (the earlier if repeated, the end of the gap's equivalent if skipped) and a day's length is the time between its start and the next day's start. Rounding to a day gives the start of this or of the next day (of a repeated midnight, the one with the offset of the value rounded if there is one) - up for ceil unless at midnight, down for floor, by the time of day compared with half the day's length otherwise; rounding to smaller units rounds the local time, never moves against the direction of the rounding mode, and keeps the offset if the result is repeated and that is possible.",
 ["inputs", "configurations", "histories"],
 "all moments, units, increments, modes and tz rules delivered by the environment (short, long, skipped days, transitions at midnight)",
 "Tests cover some 23, 25 and 24.5 hour days at noon.",
 [PY], [("start_of_day, day_length, round", PY)], (), ["start_of_day, day_length, round"])
prop("C10", "Results never depend on the history of the timezone cache",
 "For fixed tz database contents, every operation on zoned datetimes (comparison, exact comparison, hashing, differences, replacing, arithmetic, conversion, formatting, pickling) gives the same result however the timezone objects involved came about: cached, evicted and reloaded, after clearing the cache, loaded without the cache, or supplied from outside with a standard library datetime.",
 ["histories", "configurations"],
 "all histories of cache clears, evictions and externally loaded timezones interleaved with operations on values created before and after",
 "Tests run with one warm cache in which each timezone has exactly one object.",
 [PY], [("use of ZoneInfo objects held by values", PY)], [("_py_dt.tzinfo", "ZoneInfo object held by a value", PY)], ["all ZonedDateTime operations"])
prop("C11", "A failing tz database raises errors, never yields wrong times",
 "If the tz database cannot be read properly (missing, unreadable or truncated files, I/O errors, descriptor exhaustion, short or interrupted reads) an operation needing it either raises an exception or gives the correct result - never a wrong time, such as falling back to UTC or another zone. Existing values are unaffected, and once the fault is gone the same operation gives the correct result.",
 ["fault_sequences", "histories"],
 "all faults at every open and read of a tz database file, in all operations that take a timezone, followed by recovery",
 "Tests only try unknown timezone names.",
 [PY], [("ZoneInfo(tz) lookups", PY)], (), ["operations taking tz="])
prop("C12", "tz database updates never silently change stored or existing times",
 "When the tz database is replaced by one with other rules, existing zoned datetimes keep their moment, offset and local time, while new conversions follow the new rules once the timezone is reloaded. Loading a zoned datetime stored (as text or pickle) under other rules gives a value of exactly the stored moment or raises InvalidOffset; it is never silently another moment, and the loaded value is one that the current rules allow.",
 ["histories", "crash_points", "configurations"],
 "all pairs of rule versions, stored values around the changed transitions, and histories of update, reload, restart and load",
 "Tests check InvalidOffset for a few literal strings; the tz database never changes during a test.",
 [PY], [("parse_common_iso / unpickling check the offset", PY)], (), ["parse_common_iso, pickle.loads, existing values"])
prop("C13", "Values survive pickling or text across restarts in any environment",
 "Any value of any type, stored as pickle or as common ISO text (also RFC 2822/3339 where the type has it, within the format's precision), is loaded as an equal value with the same type and the same fields, offset and tz ID by another process, whatever its system timezone, clock, hash seed or time patches. Pickles stored by the pinned release load the same, and a truncated pickle is rejected.",
 ["crash_points", "configurations", "inputs"],
 "all values, all pairs of writing and reading process environments, and all truncation points of the stored pickle",
 "Tests round-trip some values within one process and environment.",
 [PY, INIT], [("__reduce__ / _unpkl_*", PY), ("format_* / parse_*", PY)], (), ["pickle, format_common_iso, parse_common_iso"])
prop("C14", "Concurrent use from several threads gives the same results as sequential use",
 "Threads that use the library at the same time, on shared and own values (including loading timezones, parsing, arithmetic, comparing, hashing, pickling and asking for the current time), each get exactly the results they would get on their own, whatever the interleaving.",
 ["schedules"],
 "all interleavings of 2-4 threads at line or bytecode granularity",
 "Tests are single-threaded.",
 [PY], [("immutable values, no shared mutable state", PY)], (), ["results of all operations"])
prop("C15", "Interrupted operations leave values and later results intact",
 "If an operation is cut off at any point by an exception (KeyboardInterrupt, MemoryError, a signal handler or timeout raising), the exception propagates, no existing value changes, and repeating the operation, or doing any other, gives the correct result.",
 ["crash_points", "fault_sequences"],
 "all points (lines and bytecodes) at which an asynchronous exception may arise in all operations",
 "Tests never interrupt an operation.",
 [PY], [("values built before publication, no shared mutable state", PY)], (), ["results before, of and after the interrupted operation"])
prop("C16", "Timezone-free types do not depend on system timezone, tz database or clock",
 "All operations on Instant, OffsetDateTime, LocalDateTime, Date, YearMonth, MonthDay, Time and the deltas other than now() and conversions to a named or the system timezone give the same results whatever the system timezone is or changes to, whatever the tz database contains or fails with, whatever the clock shows and whether or not time is patched.",
 ["configurations", "histories", "inputs"],
 "all operation sequences under all environment histories",
 "Tests run these operations in one environment.",
 [PY], [("arithmetic on UTC and fixed offsets only", PY)], (), ["results of all operations of these types"])
prop("C17", "Conversion chains preserve the exact moment to the nanosecond",
 "Converting an exact time through any chain of exact types, zones, fixed offsets, the system timezone, timestamps and standard library datetimes preserves its moment exactly (to the precision of the type or unit passed through), and every step's local time equals moment plus offset, with the offset the one the rules give for the moment. This holds while the system timezone and the timezone cache change between steps.",
 ["inputs", "histories", "configurations"],
 "all moments, conversion chains and environment changes between steps",
 "Tests convert a few values one step at a time in a fixed environment.",
 [PY], [("to_tz, to_fixed_offset, to_system_tz, instant, timestamps, py_datetime", PY)], (), ["conversions"])
prop("C18", "Comparison and hashing of exact times agree with their moments, always",
 "For any two values of exact types (same or different types and zones, whenever created) ==, !=, <, <=, >, >= agree with comparing their moments to the nanosecond, equal values have equal hashes, and exact_eq holds exactly for equal moment, offset and timezone ID within one type. This holds for repeated times and while the system timezone and timezone cache change.",
 ["inputs", "histories", "configurations"],
 "all pairs of values around transitions in all zones, in all environment histories",
 "Tests compare a few pairs, mostly of the same type, in a fixed environment.",
 [PY], [("_KnowsInstant comparison and __hash__", PY)], (), ["comparison operators, hash, sets, sorting, exact_eq"])
prop("C19", "Use from a signal handler or finalizer amid an operation disturbs neither",
 "If code that uses the library runs in the midst of one of the library's operations in the same thread (a signal handler, a finalizer, a garbage collection callback or a trace function that asks for the time, formats, loads a timezone or does anything else), the nested operations give exactly the results they would give on their own and so does, once they are done, the operation they interrupted. Neither blocks, and no existing value changes.",
 ["schedules", "crash_points"],
 "all points (lines and bytecodes) within all operations at which other code may run, and all nested operations",
 "Tests never run one operation within another.",
 [PY], [("values built before publication, no shared mutable state, no locks", PY)], (), ["results of the outer and of the nested operations"])
# ---- pure functions: stated, not claimed
NA_WHY = "Tests sample; the quantifier is over all inputs."
def na(id, title, statement, text, files=(PY,)):
    prop(id, title, statement, ["inputs"], text, NA_WHY, list(files), [(title, files[0])])
na("C20", "Calendar date arithmetic follows the Gregorian calendar",
 "Adding years and months to a date clamps the day to the month's length, days count civil days, differences between dates are the inverse as documented, and all results stay within years 1-9999 or raise.", "all dates and deltas")
na("C21", "Text formats are exact inverses within one process",
 "Formatting any value in a supported format and parsing the text gives the value back, and parsing accepts exactly the documented formats.", "all values and strings")
na("C22", "Malformed text is rejected with ValueError",
 "Parsing a string not in the documented format raises ValueError and nothing else, and never yields a value.", "all strings")
na("C23", "Delta arithmetic is exact and component-wise",
 "Time deltas add, scale and compare as exact integers of nanoseconds; date deltas as months and days; mixed deltas component-wise; normalisation and sign rules hold.", "all deltas")
na("C24", "Ordering of calendar and clock types is a total order consistent with equality",
 "Date, YearMonth, MonthDay, Time and LocalDateTime order chronologically to the nanosecond, consistently with equality and hashing.", "all pairs of values")
na("C25", "Rounding of timezone-free types picks the documented multiple",
 "Rounding picks the nearest, lower or higher multiple of the increment as the mode says, ties per mode, for all units and increments.", "all values, units, increments, modes")
na("C26", "Values stay within the documented range or raise",
 "No operation yields a value outside years 1-9999 (in UTC for exact types); it raises ValueError or OverflowError instead.", "all inputs near the limits")
na("C27", "DST-unsafe operations require an explicit opt-in",
 "Operations that would ignore DST on local and fixed-offset datetimes raise ImplicitlyIgnoringDST unless explicitly allowed.", "all operations of those types")
na("C28", "Values are immutable",
 "No public operation changes an existing value; attributes cannot be set; copies are the same value.", "all values and operations")
na("C29", "Standard library interop is lossless to microseconds",
 "Converting to and from datetime, date, time and timedelta keeps all fields to microsecond precision and rejects unsupported tzinfo types.", "all values")
na("C30", "The Rust extension and the pure Python implementation agree",
 "Both implementations give the same results and exceptions for all public operations.", "all operations and inputs", ("src/lib.rs", PY))
na("C31", "Type stubs match the runtime API",
 "The stub file declares exactly the public runtime API.", "the whole API", ("pysrc/whenever/__init__.pyi", PY))
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
