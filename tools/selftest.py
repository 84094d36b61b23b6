"""Determinism: the same seeds give the same digests with other worker counts,
in another order, under another hash seed, and twice in a row."""
import json
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = sys.argv[1:] or [f"C{i:02}" for i in range(1, 19)]
bad = 0
for p in props:
    logs = []
    for env, workers in (({}, 8), ({}, 3), ({"SIM_HASHSEED": "5"}, 8)):
        with tempfile.NamedTemporaryFile(suffix=".log") as f:
            subprocess.run([sys.executable, "-B", "check.py", p, "--runs", "600", "--workers", str(workers), "--log", f.name],
                           cwd=HERE, env={**os.environ, **env}, check=True, stdout=subprocess.DEVNULL)
            logs.append([json.loads(x) for x in open(f.name)])
    same = [sum(a != b for a, b in zip(logs[0], x)) + abs(len(x) - len(logs[0])) for x in logs[1:]]
    none = sum(x[1] is None for x in logs[0])
    print(p, len(logs[0]), "runs; different:", same, "without digest:", none)
    bad += sum(same)
sys.exit(bool(bad))
