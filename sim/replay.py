"""Judge one replay file; prints the result as JSON."""
import json
import os
import sys

from . import core
from .scen import load


def main():
    prop, path, root = sys.argv[1:4]
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    with open(path) as f:
        d = json.load(f)
    scen = load(prop)
    core.prepare()
    runner = core.Runner(root)
    res = core.judge(scen, d["trace"], runner)
    runner.close()
    out.write(json.dumps({"v": res["v"], "digest": res.get("digest"), "stats": res["stats"]}) + "\n")
    out.flush()


if __name__ == "__main__":
    main()
