#!/opt/venv/bin/python
"""check.py <property> [--replay FILE] [--runs N] [--log FILE] [--workers N]

Runs the deterministic simulation that decides one property, on the whenever
sources of /repo's working tree.  See DESIGN.md."""
import argparse
import functools
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
if not os.path.exists(PY):
    PY = sys.executable
REPO = os.environ.get("SIM_REPO", "/repo")
OUT = os.environ.get("SIM_OUT", HERE)  # where evidence/ and replays/ go

# runs per tier; chosen so that quick takes some 20-40 s on 8 cores
RUNS = {
    # property: (quick, thorough)
    "C01": (30000, 2000000), "C02": (30000, 2000000), "C03": (25000, 2000000),
    "C04": (24000, 1000000), "C05": (24000, 1000000), "C06": (24000, 1000000), "C07": (24000, 1000000),
    "C08": (24000, 1000000), "C09": (24000, 1000000), "C17": (24000, 1000000), "C18": (24000, 1000000),
    "C10": (14000, 600000), "C11": (20000, 800000), "C12": (10000, 400000), "C13": (12000, 500000),
    "C14": (7000, 150000), "C15": (9000, 500000), "C16": (14000, 600000), "C19": (10000, 300000),
}
DEFAULT = (20000, 600000)


def sh(args, **kw):
    return subprocess.run(args, check=True, **kw)


def environment(scratch, prop):
    env = {
        "PATH": os.environ.get("PATH", "/usr/bin:/bin"),
        "HOME": os.environ.get("HOME", "/root"),
        "LD_PRELOAD": os.path.join(scratch, "shim.so"),
        "PYTHONPATH": os.path.join(REPO, "pysrc") + ":" + HERE,
        "PYTHONHASHSEED": os.environ.get("SIM_HASHSEED", "1"),
        "PYTHONDONTWRITEBYTECODE": "1",
        "TZ": "UTC0",
        "LC_ALL": "C.UTF-8",
        "SIM_REPO": REPO,
    }
    return env


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--replay")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--time", type=float)
    ap.add_argument("--log")
    ap.add_argument("--workers", type=int, default=int(os.environ.get("SIM_WORKERS", os.cpu_count() or 4)))
    a = ap.parse_args()
    prop = a.property
    t0 = time.monotonic()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    shm = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    scratch = tempfile.mkdtemp(prefix="whensim-", dir=shm)
    try:
        sh(["gcc", "-O1", "-shared", "-fPIC", "-o", os.path.join(scratch, "shim.so"),
            os.path.join(HERE, "sim", "shim.c"), "-ldl"])
        if a.replay:
            return replay(a, prop, scratch)
        return explore(a, prop, seed, tier, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


@functools.cache
def same_addresses():
    """Where the system allows it, every interpreter gets the same memory
    layout, so that addresses are not a source of chance."""
    try:
        ok = subprocess.run(["setarch", "-R", "true"], capture_output=True).returncode == 0
    except OSError:
        ok = False
    return ["setarch", "-R"] if ok else []


def spawn(cfg, env, scratch, k):
    root = os.path.join(scratch, f"w{k}")
    os.makedirs(root)
    return subprocess.Popen(
        [*same_addresses(), PY, "-B", "-m", "sim.worker", json.dumps({**cfg, "k": k, "root": root})],
        stdout=subprocess.PIPE, stderr=open(os.path.join(scratch, f"err{k}"), "w+"), env=env, cwd=HERE, text=True,
    )


def replay_file(prop, path, scratch, name):
    """Judge a replay file in a fresh interpreter; -> violation or None."""
    root = os.path.join(scratch, name)
    os.makedirs(root)
    p = subprocess.run(
        [*same_addresses(), PY, "-B", "-m", "sim.replay", prop, os.path.abspath(path), root],
        stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=environment(scratch, prop), cwd=HERE, text=True,
    )
    if p.returncode != 0:
        raise RuntimeError(f"replay failed: {p.stderr[-2000:]}")
    return json.loads(p.stdout.splitlines()[-1])


def replay(a, prop, scratch):
    v = replay_file(prop, a.replay, scratch, "replay")["v"]
    if v is None:
        print(f"replay of {a.replay}: no violation")
        return 0
    print(v["msg"])
    print(f"VIOLATION property={prop} replay={a.replay}")
    return 1


def known_findings(prop):
    out = {}
    p = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            d = json.loads(line)
            if d["property"] == prop and d["status"] == "known":
                out[d["signature"]] = d["what"]
    return out


def explore(a, prop, seed, tier, scratch, t0):
    q, t = RUNS.get(prop, DEFAULT)
    runs = a.runs or (q if tier == "quick" else t)
    limit = a.time or (300 if tier == "quick" else 700)
    known = known_findings(prop)
    cfg = {"prop": prop, "seed": seed, "n": a.workers, "runs": runs, "time": limit, "known": sorted(known),
           "log": bool(a.log), "found": os.path.join(scratch, "found")}
    os.makedirs(cfg["found"])
    print(f"{prop}: seed {seed}, tier {tier}, {runs} simulated runs on {a.workers} workers", flush=True)
    ws = [spawn(cfg, environment(scratch, prop), scratch, k) for k in range(a.workers)]
    reports, violations, errors = [], [], []
    for k, w in enumerate(ws):
        text = w.stdout.read()
        code = w.wait()
        for line in text.splitlines():
            d = json.loads(line)
            if "violation" in d:
                violations.append(d["violation"])
            else:
                reports.append(d)
        if code != 0:
            errors.append((k, code, open(os.path.join(scratch, f"err{k}")).read()[-3000:]))
    wall = time.monotonic() - t0
    evidence(prop, seed, tier, reports, violations, wall, a.workers, runs)
    if a.log:
        logs = sorted(x for r in reports for x in r["logs"])
        with open(a.log, "w") as f:
            for x in logs:
                f.write(json.dumps(x) + "\n")
    seen = {}
    for r in reports:
        seen.update(r["known"])
    for sig, what in sorted(known.items()):
        # listed findings are announced on every run
        print(f"KNOWN-FINDING: property={prop} {what} [{sig}; {'seen' if sig in seen else 'not met'} in this run]")
    done = sum(r["done"] for r in reports)
    print(f"{prop}: {done} runs in {wall:.1f} s ({done / wall * 3600:.0f} runs/h), "
          f"{len(set().union(*[r['cover'] for r in reports])) if reports else 0} distinct situations")
    odd = [x for r in reports for x in r["unrepeatable"]]
    for i, msg in odd[:3]:
        print(f"NOTE: run {i} failed once and did not fail again: {msg}")
    violations.sort(key=lambda v: v["run"])
    for v in violations:
        os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
        path = os.path.join(OUT, "replays", f"{prop}-{seed}-{v['run']}.json")
        # the minimised trace, else the whole one, has to fail in a fresh process
        for n, trace in enumerate((v["trace"], v["whole"])):
            with open(path, "w") as f:
                json.dump({"property": prop, "seed": seed, "run": v["run"], "violation": v["v"], "trace": trace}, f,
                          indent=1)
            got = replay_file(prop, path, scratch, f"confirm{v['run']}_{n}")["v"]
            if got is not None and got["sig"] == v["v"]["sig"]:
                break
        else:
            print(f"NOTE: the violation of run {v['run']} did not replay: {v['v']} / {got}")
            os.unlink(path)
            continue
        print(f"run {v['run']} (seed {seed}), minimised from {v['orig']} to {len(trace.get('steps', []))} steps:")
        for st in trace.get("steps", []):
            print("   ", json.dumps(st))
        for k, x in trace.items():
            if k in ("threads", "sched"):
                print(f"    {k}: {json.dumps(x)}")
        print(got["msg"])
        print(f"VIOLATION property={prop} replay={os.path.relpath(path, OUT)}")
        return 1
    if errors:
        for k, code, text in errors:
            print(f"ERROR: worker {k} ended with {code}:\n{text}")
        return 2
    if len(reports) != a.workers:
        print("ERROR: a worker did not report")
        return 2
    return 0


def evidence(prop, seed, tier, reports, violations, wall, workers, runs):
    sys.path.insert(0, HERE)
    from sim.scen import meta

    m = meta.META[prop]
    stats = {}
    for r in reports:
        for k, n in r["stats"].items():
            stats[k] = stats.get(k, 0) + n
    cover = set().union(*[set(r["cover"]) for r in reports]) if reports else set()
    digests = set().union(*[set(r["digests"]) for r in reports]) if reports else set()
    done = sum(r["done"] for r in reports)
    lo = [r["tspan"][0] for r in reports if r["tspan"][0] is not None]
    hi = [r["tspan"][1] for r in reports if r["tspan"][1] is not None]
    samples = [s for r in reports for s in r["samples"]][:2]
    cov = {
        "evaluations": done,
        "distinct_nontrivial": len(digests),
        "rule": m["rule"],
        "samples": samples,
        "runs_per_hour": round(done / wall * 3600),
        "seeds": f"run i uses sha256('{seed}/{prop}/i'), i < {runs}",
        "processes_simulated": sum(r["forks"] for r in reports),
        "distinct_situations": len(cover),
        "distinct_situations_measure": m["measure"],
        "faults_and_events_fired": {k: n for k, n in sorted(stats.items()) if k.startswith(("env_", "fault_", "clk_"))},
        "counters": {k: n for k, n in sorted(stats.items()) if not k.startswith(("env_", "fault_", "clk_"))},
        "moments_visited": [min(lo), max(hi)] if lo else None,
        "simulated_time": m.get("time", "the moments visited span moments_visited (UTC seconds); see counters"),
        "real_components": m["real"],
        "stubbed_components": m["stubs"],
        "cut_short": any(r["stopped"] for r in reports),
        "unrepeatable": [x for r in reports for x in r["unrepeatable"]],
    }
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", f"{prop}.json"), "w") as f:
        json.dump({
            "property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
            "assumptions": m["assumptions"], "wall_s": round(wall, 2), "violations": len(violations),
        }, f, indent=1)


if __name__ == "__main__":
    sys.exit(main())
