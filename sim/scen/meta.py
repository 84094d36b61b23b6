"""What the evidence files say about each check."""
REAL = [
    "pysrc/whenever (all of it, from /repo's working tree, unmodified)",
    "CPython's datetime, zoneinfo (C), pickle", "glibc tzset/localtime",
]
STUBS = [
    "realtime clock (clock_gettime, gettimeofday, time: LD_PRELOAD shim)",
    "tz database and system timezone files (generated or recorded TZif files in a scratch directory)",
]
ASSUME = [
    "the integer model of TZif rules (sim/tz.py; validated against zoneinfo and glibc on 32,000 generated zones)",
    "transitions at least 4 days apart, gaps up to 24 h, folds up to 23 h (limits of CPython's zoneinfo)",
]
MEASURE = ("distinct tuples (operation, type, form, disambiguation, mode, outcome, source and result in "
           "gap/fold/unique time, offset kept or moved, preceding environment events)")
META = {}


def meta(prop, rule, measure=MEASURE, real=REAL, stubs=STUBS, assumptions=ASSUME, time=None):
    META[prop] = {"rule": rule, "measure": measure, "real": real, "stubs": stubs, "assumptions": assumptions}
    if time:
        META[prop]["time"] = time


HIST = ("each run is a seeded history of library operations and environment events ({}) on a generated universe of "
        "recorded and synthetic zones, values placed at gaps and folds; non-trivial: at least one operation of this "
        "property was judged; distinct by the digest of all results")
for p, e in {
    "C04": "system timezone changes", "C05": "system timezone changes, clock settings",
    "C06": "system timezone changes, cache clears and evictions",
    "C07": "system timezone changes, cache clears and evictions",
    "C08": "system timezone changes, cache clears and evictions",
    "C09": "system timezone changes, cache clears and evictions",
    "C17": "system timezone changes, cache clears and evictions",
    "C18": "system timezone changes, cache clears and evictions",
}.items():
    meta(p, HIST.format(e))
meta("C10", "each run executes one seeded history of ZonedDateTime operations in two processes: one in which every "
     "timezone object stays cached, one with cache clears, evictions, garbage collection and externally loaded timezone "
     "objects in between; all results are compared; non-trivial: at least one operation ran and one cache event fired",
     measure="distinct tuples (operation, form, origin of the timezone object, disambiguation, result type, preceding "
     "cache events)")
meta("C16", "each run executes one seeded sequence of operations on types without timezone rules in two processes: a "
     "plain environment, and one in which the system timezone changes, the tz database is missing or junk, the clock "
     "jumps and time is patched; all results are compared; non-trivial: at least one operation ran and one "
     "environment event fired", measure="distinct tuples (operation, outcome, preceding environment events)")
meta("C11", "each run is a seeded history of ZonedDateTime operations in which single operations meet a fault of the tz "
     "database (failing open or read with various errnos, short reads, missing, truncated, junk files, a directory in "
     "place), usually with a cold cache, followed by recovery and the same operation again; non-trivial: at least one "
     "operation was judged", measure="distinct tuples (operation, fault kind, errno, position, outcome) and the "
     "machine's tuples")
meta("C12", "each run is a seeded history over several releases of the tz database: values created, stored as pickle and "
     "text, the database replaced, processes restarted (only stored values and files survive), values loaded; moments "
     "aimed at where the releases differ; non-trivial: at least one operation was judged")
meta("C13", "each run is a seeded history over several processes (two separately started interpreters with different "
     "hash seeds, one without assertions (-O), each restart with another system timezone, clock and possibly a time patch): values of all types are "
     "created, stored as pickle (all protocols) and text, processes crash at arbitrary points, stored values (whole or "
     "torn) are loaded and compared with what was visible when they were stored; also pickles of the pinned release; "
     "non-trivial: at least one value was loaded", measure="distinct tuples (store or load form, type, interpreter, "
     "patched or not)")

CLK = ["pysrc/whenever (all of it, from /repo's working tree, unmodified)", "CPython's time, datetime, zoneinfo (C), "
       "contextlib", "glibc tzset/localtime"]
CT = "the simulated clock stands still unless told otherwise, advances per reading, jumps between and within calls"
meta("C01", "each run is a seeded history of now-calls of all five forms and of clock settings, jumps (also between two "
     "readings within one call), rates (also backward), system timezone changes and cache events; each result is compared "
     "with the clock readings handed out during that call; non-trivial: at least one now-call was judged",
     measure="distinct tuples (form, gap/fold/unique, sign of the moment, kind of sub-second part, readings, preceding events)",
     real=CLK, time=CT)
meta("C02", "each run is a seeded history of shifts (exact, calendar, disambiguated, failing), clock jumps and now-calls "
     "within one or two patched blocks (frozen or ticking, pinned with all four types); the oracle keeps the set of states "
     "the clock readings allow; non-trivial: at least one now-call was judged",
     measure="distinct tuples (form or shift units, frozen or ticking, type of pin, outcome, preceding events)",
     real=CLK, time=CT)
meta("C03", "each run is a seeded history of patched blocks (with statement, ExitStack, decorator, generator) that end "
     "normally, by an exception, by closing or dropping a generator, or by an exception injected into the n-th instruction "
     "of a shift; also nested blocks and failing entries; after each end all now-functions and the standard library's clock "
     "functions are compared with the clock readings; non-trivial: at least one now-call was judged",
     measure="distinct tuples (kind of block, frozen or ticking, type of pin, way of ending, exception, depth)",
     real=CLK, time=CT)
meta("C15", "each run is a seeded history of operations of all types in which operations are cut off by an exception "
     "(KeyboardInterrupt, MemoryError, SystemExit, a timeout handler's, RecursionError) raised at the n-th line or bytecode "
     "instruction executed in whenever's or zoneinfo's Python code, checked for what came out, all existing values, and "
     "repeated; non-trivial: at least one exception was injected",
     measure="distinct points of injection (operation, form, file, function, kind of event)")
meta("C14", "each run executes 2-4 threads (real threads, one at a time) on shared and own values under a seeded schedule "
     "that switches at chosen lines or bytecode instructions of whenever's and zoneinfo's Python code, also inside the "
     "loading of a timezone with a cold or just cleared cache; results are compared with the model, clock readings of the "
     "same thread, the same threads run one after another, and the same operations without threads; non-trivial: more than one switch took place; distinct by "
     "the digest of results, events and switches",
     measure="distinct points (function, instruction or line offset) at which a switch took place",
     stubs=STUBS + ["thread scheduler (real threads; a baton decides which runs)", "threading.Lock/RLock (scheduler-aware)"])
meta("C19", "each run executes a program of operations on shared and own values in which, at chosen lines or bytecode "
     "instructions of whenever's and zoneinfo's Python code, one to three other programs are executed to their end in the "
     "same thread, as signal handlers and finalizers do, in a third of the runs interruptible in turn by the next; results of both are compared with the model, their own clock "
     "readings, and the same programs run one after another; non-trivial: at least one program ran nested; distinct by "
     "the digest of results, events and nestings",
     measure="distinct points (function, instruction or line offset) at which nested operations ran",
     stubs=STUBS + ["signal delivery (nested operations run from a trace function, or as handler of a signal raised by one)", "threading.Lock/RLock (a wait that would never end raises)"])
