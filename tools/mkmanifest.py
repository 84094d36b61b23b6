"""Regenerates /verif/MANIFEST.json."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sim.scen import meta  # noqa

T = "deterministic simulation with fault injection: "
TECH = {
    "C01": "seeded clock schedules (jumps, steps backward, rates) under an LD_PRELOAD clock; results vs. the log of readings handed out",
    "C02": "seeded histories of shifts, clock jumps and failing shifts in patched blocks vs. a set-of-states reference model",
    "C03": "seeded histories of patched blocks ended by returns, exceptions, generator closing and injected interrupts; clock-reading oracle",
    "C04": "seeded histories of operations and system timezone changes vs. an integer reference model",
    "C05": "seeded histories of operations, system timezone changes and clock settings vs. an integer reference model",
    "C06": "seeded histories aimed at gaps and folds, with environment events, vs. an integer reference model",
    "C07": "seeded histories of exact arithmetic around transitions, with environment events, vs. an integer reference model",
    "C08": "seeded histories of calendar arithmetic and replacement around transitions vs. an integer reference model",
    "C09": "seeded histories of day and rounding operations around transitions vs. an integer reference model",
    "C10": "the same seeded history with and without timezone cache events (clears, evictions, GC, foreign timezone objects), compared",
    "C11": "seeded faults of the tz database (failing opens and reads, short reads, torn, junk and missing files) and recovery vs. an integer reference model",
    "C12": "seeded histories over releases of the tz database with restarts, durable values and updates vs. an integer reference model",
    "C13": "seeded crash and restart histories over two interpreters and changing environments, with torn writes; stored values vs. what was stored",
    "C14": "seeded thread schedules at line and instruction granularity over real threads vs. the reference model and sequential runs",
    "C15": "seeded asynchronous exceptions at the n-th line or instruction; intact values and retried results vs. the model and undisturbed runs",
    "C16": "the same seeded operations in a plain and a hostile environment (tz changes, missing or junk database, clock jumps, patched time), compared",
    "C19": "seeded placement of nested operations (as of a signal handler) at lines and instructions within running ones vs. the reference model and sequential runs",
    "C17": "seeded conversion chains with environment events vs. an integer reference model",
    "C18": "seeded comparisons around transitions with environment events vs. an integer reference model",
}
NOTE = {
    None: "Holds on every simulated run of the seeds tried, no more. Trusts the integer model of timezone rules (checked against "
          "zoneinfo and glibc), CPython, the LD_PRELOAD shim.",
    "C14": "Holds on every schedule tried, no more. Threads switch at lines or bytecode instructions of whenever's and zoneinfo's "
           "Python code, not within C calls (which hold the GIL). Concurrent changes of the system timezone and patches are excluded.",
    "C15": "Holds on every interruption tried, no more. Exceptions arise between instructions of Python code, not within C calls.",
    "C19": "Holds on every placement tried, no more. Nested operations start between instructions of whenever's and zoneinfo's Python "
           "code, not within C calls; those that are interrupted in turn start where the interpreter runs signal handlers.",
    "C03": "Holds on every simulated run of the seeds tried, apart from the listed finding about nested patches. Exceptions in the "
           "few instructions between patching and the with block's own try are excluded (they are a limit of Python's with statement).",
    "C10": "Holds on every pair of runs tried, no more; wrong results that do not depend on the cache are for the other checks.",
    "C16": "Holds on every pair of runs tried, no more; results that are wrong in every environment go unnoticed here.",
}
CHECKS = [{
    "property": p, "quick_cmd": f"/opt/venv/bin/python -B check.py {p}", "thorough_cmd": f"/opt/venv/bin/python -B check.py {p}",
    "evidence_file": f"evidence/{p}.json", "technique": T + TECH[p], "level": "exploration",
    "level_note": NOTE.get(p, NOTE[None]),
} for p in sorted(TECH)]
PURE = ("a pure function of its arguments: no concurrency, clock, I/O, randomness or other party takes part, so there is no "
        "schedule or fault for a simulator to vary; deciding it is a matter of input coverage or proof")
NA = {
    "C20": PURE, "C21": PURE + " (text across processes and environments is C13)", "C22": PURE, "C23": PURE, "C24": PURE,
    "C25": PURE + " (rounding of zoned and system times is C09)", "C26": PURE, "C27": PURE,
    "C28": PURE + " (values staying intact under environment changes, threads and interrupts are C04, C14, C15, C19)", "C29": PURE,
    "C30": "the Rust extension cannot be built here (its dependencies are not available offline), so there is only one "
           "implementation to run; and agreement is a question of inputs, not of schedules or faults",
    "C31": "a static fact about a declaration file: nothing is executed, so there is nothing to simulate",
}
out = {
    "version": 1,
    "setup_cmd": "gcc -O1 -shared -fPIC -o /dev/null sim/shim.c -ldl && PYTHONPATH=/repo/pysrc /opt/venv/bin/python -B -c 'import whenever'",
    "checks": CHECKS,
    "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NA.items())],
    "notes": "No hooks in /repo: the seams are libc's clock and file calls (LD_PRELOAD), zoneinfo.reset_tzpath, the TZ variable, "
             "sys.settrace and threading's locks. VERIF_SEED selects the seeds, VERIF_TIER quick or thorough. "
             "check.py <id> --replay <file> replays a violation.",
}
json.dump(out, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
