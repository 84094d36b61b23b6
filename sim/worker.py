"""One worker: executes runs k, k+N, k+2N ... of a check.

Prints one JSON line per report on stdout."""
import json
import os
import subprocess
import sys

from . import core
from .scen import load


def afresh(prop, trace, v, root, i):
    """Does the trace fail the same way in an interpreter of its own?"""
    path = os.path.join(root, f"afresh{i}.json")
    with open(path, "w") as f:
        json.dump({"trace": trace}, f)
    os.makedirs(os.path.join(root, f"afresh{i}"))
    p = subprocess.run(
        [sys.executable, "-B", "-m", "sim.replay", prop, path, os.path.join(root, f"afresh{i}")],
        stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
    )
    if p.returncode != 0:
        raise core.HarnessError(f"a replay failed: {p.stderr[-2000:]}")
    got = json.loads(p.stdout.splitlines()[-1])["v"]
    return got is not None and got["sig"] == v["sig"]


def main():
    cfg = json.loads(sys.argv[1])
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)  # nothing else may write to the report stream
    prop, base, k, n, runs, root = (cfg[x] for x in ("prop", "seed", "k", "n", "runs", "root"))
    scen = load(prop)
    core.prepare()
    runner = core.Runner(root)
    if hasattr(scen, "survey"):
        scen.survey(runner)
    known = set(cfg.get("known", []))
    deadline = core.REAL_MONO() + cfg["time"]
    stats, cover, digests, samples, seen_known = {}, set(), set(), [], {}
    done = nontrivial = 0
    tspan = [None, None]
    logs, unrepeatable = [], []
    stopped = False
    for i in range(k, runs, n):
        if core.REAL_MONO() > deadline:
            stopped = True
            break
        if any(int(x) < i for x in os.listdir(cfg["found"])):
            break  # an earlier run has failed already
        rng = core.make_rng(core.seed_of(base, prop, i))
        trace = scen.gen(rng)
        if isinstance(trace, dict) and rng.random() < 0.3:
            trace["one_tz"] = True
        trace = json.loads(json.dumps(trace))  # exactly what a replay file holds
        res = core.judge(scen, trace, runner)
        done += 1
        for s, c in res["stats"].items():
            stats[s] = stats.get(s, 0) + c
        cover.update(res["cover"])
        if res.get("nontrivial"):
            d = res.get("digest")
            if d not in digests:
                digests.add(d)
        if cfg.get("log"):
            logs.append([i, res.get("digest"), res["v"] and res["v"]["sig"]])
        t = res.get("t") or [None, None]
        for j, f in ((0, min), (1, max)):
            if t[j] is not None:
                tspan[j] = t[j] if tspan[j] is None else f(tspan[j], t[j])
        if len(samples) < 1 and res.get("nontrivial") and res["v"] is None:
            samples.append({"run": i, "trace": trace})
        v = res["v"]
        if v is not None:
            if v["sig"] in known:
                if v["sig"] not in seen_known:
                    seen_known[v["sig"]] = v["msg"]
                continue
            trace = res.get("trace", trace)
            again = core.judge(scen, trace, runner)["v"]
            if again is None or again["sig"] != v["sig"] or not afresh(prop, trace, v, root, i):
                # something the simulator does not control (memory addresses,
                # say); without a replay it is no report
                unrepeatable.append([i, v["msg"][:500]])
                continue
            open(os.path.join(cfg["found"], str(i)), "w").close()
            small, tries = core.shrink(scen, trace, v["sig"], runner, cfg.get("shrink_s", 60))
            v2 = core.judge(scen, small, runner)["v"]
            if v2 is None or v2["sig"] != v["sig"]:
                small, v2 = trace, v
            out.write(json.dumps({"violation": {"run": i, "v": v2, "trace": small, "whole": trace, "orig": len(trace.get("steps", [])),
                                                "tries": tries}}) + "\n")
            out.flush()
            break
    runner.close()
    out.write(json.dumps({
        "done": done, "stats": stats, "cover": sorted(cover), "digests": sorted(x for x in digests if x),
        "samples": samples, "tspan": tspan, "logs": logs, "known": seen_known, "stopped": stopped,
        "forks": runner.n, "unrepeatable": unrepeatable,
    }) + "\n")
    out.flush()


if __name__ == "__main__":
    try:
        main()
    except core.HarnessError as e:
        print(f"HARNESS ERROR: {e}", file=sys.stderr)
        sys.exit(3)
