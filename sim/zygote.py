"""A separately started interpreter that runs phases of a simulated execution
in forks, on request (line-delimited JSON on stdin/stdout)."""
import importlib
import json
import os
import shutil
import sys

from . import core


def main():
    root = sys.argv[1]
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    core.prepare()
    n = 0
    for line in sys.stdin:
        req = json.loads(line)
        mod, fn = req["fn"].split(":")
        f = getattr(importlib.import_module(mod), fn)
        n += 1
        d = os.path.join(root, f"r{n}")
        os.makedirs(d, exist_ok=True)
        try:
            res = {"ok": core.fork_run(f, req["arg"], d, cpu=req["cpu"])}
        except core.HarnessError as e:
            res = {"harness": str(e)}
        finally:
            shutil.rmtree(d, ignore_errors=True)
        out.write(json.dumps(res) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
