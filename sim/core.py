"""Running one simulated execution in its own forked process, judging it, and
shrinking what fails."""
import gc
import hashlib
import json
import os
import random
import resource
import select
import shutil
import signal
import sys
import time as _time
import traceback

REAL_MONO = _time.monotonic


class HarnessError(Exception):
    pass


def seed_of(base, prop, i):
    h = hashlib.sha256(f"{base}/{prop}/{i}".encode()).digest()
    return int.from_bytes(h[:8], "big")


def through_library(e):
    tb = e.__traceback__
    while tb is not None:
        if "/pysrc/whenever/" in tb.tb_frame.f_code.co_filename:
            return True
        tb = tb.tb_next
    return False


def fork_run(fn, arg, root, cpu=10, wall=120):
    """Run fn(arg, root) in a fork.  Returns its JSON-able result, or a dict
    {"died": "signal N" | "cpu"}; raises HarnessError for faults of our own."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 2))
            try:
                out = {"ok": fn(arg, root)}
            except BaseException as e:
                out = {"harness": traceback.format_exc()}
                if isinstance(e, Exception) and through_library(e):
                    # where nothing may raise, the library did
                    out = {"ok": {"died": f"uncaught:{type(e).__name__}", "text": out["harness"][-1500:]}}
            data = json.dumps(out).encode()
            n = 0
            while n < len(data):
                n += os.write(w, data[n:])
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    buf = []
    end = REAL_MONO() + wall
    timed_out = blocked = False
    last, idle = None, 0
    while True:
        left = end - REAL_MONO()
        if left <= 0:
            timed_out = True
            break
        ready, _, _ = select.select([r], [], [], min(left, 0.5))
        if not ready:
            now = asleep(pid)
            idle = idle + 1 if now is not None and now == last else 0
            last = now
            if idle >= 6:
                blocked = timed_out = True
                break
            continue
        b = os.read(r, 1 << 20)
        if not b:
            break
        buf.append(b)
    os.close(r)
    if timed_out:
        os.kill(pid, signal.SIGKILL)
    _, status = os.waitpid(pid, 0)
    if blocked:
        return {"died": "blocked"}
    if timed_out:
        raise HarnessError(f"a run did not end within {wall} s of wall time")
    if os.WIFSIGNALED(status):
        sig = os.WTERMSIG(status)
        if sig == signal.SIGXCPU:
            return {"died": "cpu"}
        if sig == signal.SIGKILL:
            raise HarnessError("a run was killed from outside")
        return {"died": f"signal {sig}"}
    try:
        out = json.loads(b"".join(buf))
    except ValueError:
        raise HarnessError("a run ended without a result")
    if "harness" in out:
        raise HarnessError(out["harness"])
    return out["ok"]


def asleep(pid):
    """The CPU time used by a process of ours that waits for something that is
    not a process of its own; None if it is running or has children."""
    used = []
    try:
        for t in sorted(os.listdir(f"/proc/{pid}/task")):
            with open(f"/proc/{pid}/task/{t}/stat") as f:
                x = f.read().rsplit(")", 1)[1].split()
            with open(f"/proc/{pid}/task/{t}/children") as f:
                if x[0] != "S" or f.read().strip():
                    return None
            used += [t, x[11], x[12]]
    except OSError:
        return None
    return used


class Runner:
    """Gives scenarios fresh processes.  root: scratch directory."""

    def __init__(self, root):
        self.root = root
        self.n = 0
        self.other = None  # a second interpreter (another hash seed, without assertions)
        self.hash_seed2 = "77"

    def child(self, fn, arg, cpu=10):
        self.n += 1
        root = os.path.join(self.root, f"r{self.n}")
        os.makedirs(root, exist_ok=True)
        try:
            return fork_run(fn, arg, root, cpu=cpu)
        finally:
            shutil.rmtree(root, ignore_errors=True)

    def child2(self, name, arg, cpu=10):
        """Run sim.scen function `name` ("module:function") in a fork of an
        interpreter that was started separately."""
        import subprocess

        if self.other is None:
            env = dict(os.environ, PYTHONHASHSEED=self.hash_seed2)
            self.other = subprocess.Popen(
                [sys.executable, "-B", "-O", "-m", "sim.zygote", self.root + "/other"],
                stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, text=True,
            )
        self.other.stdin.write(json.dumps({"fn": name, "arg": arg, "cpu": cpu}) + "\n")
        self.other.stdin.flush()
        line = self.other.stdout.readline()
        if not line:
            raise HarnessError("the second interpreter ended")
        out = json.loads(line)
        if "harness" in out:
            raise HarnessError(out["harness"])
        return out["ok"]

    def close(self):
        if self.other is not None:
            self.other.stdin.close()
            self.other.wait()
            self.other = None


def prepare():
    """Make this interpreter a pristine zygote."""
    import whenever  # noqa: F401
    import whenever._pywhenever  # noqa: F401

    repo = os.environ.get("SIM_REPO", "/repo")
    f = os.path.realpath(whenever.__file__)
    if not f.startswith(os.path.realpath(repo) + "/"):
        raise HarnessError(f"whenever is not imported from {repo} but {f}")
    if whenever._EXTENSION_LOADED:
        raise HarnessError("a compiled extension is in the way of the Python sources")
    # what the library or the standard library would import lazily
    import _strptime, copy, datetime, importlib.resources, pickle, zoneinfo  # noqa

    try:
        zoneinfo.ZoneInfo("No/Such_Zone")
    except Exception:
        pass
    try:
        import tzdata  # noqa
    except ImportError:
        pass
    zoneinfo.ZoneInfo.clear_cache()
    from . import env, hot

    env.shim()
    files = sorted({m.__file__ for k, m in sys.modules.items() if k.split(".")[0] == "whenever"})
    hot.prepare(files)
    for p in files:
        with open(p) as fh:
            _codes[p] = compile(fh.read(), p, "exec", dont_inherit=True)
    gc.collect()
    gc.disable()
    gc.freeze()


_codes = {}  # file of the library -> compiled


def reimport():
    """The library imported anew, in the environment of this moment."""
    import importlib
    from importlib.machinery import SourceFileLoader

    for k in [k for k in sys.modules if k.split(".")[0] == "whenever"]:
        del sys.modules[k]
    get = SourceFileLoader.get_code
    SourceFileLoader.get_code = lambda self, name: _codes.get(self.path) or get(self, name)
    try:
        return importlib.import_module("whenever")
    finally:
        SourceFileLoader.get_code = get


# ---------------------------------------------------------------- judgement --
def judge(scen, trace, runner, cpu=10):
    """One complete simulated execution (possibly several processes)."""
    res = scen.run(trace, runner, cpu)
    if res.get("died"):
        d = res["died"]
        if d == "cpu":
            sig, what = "hang", "the operation does not return"
        elif d == "blocked":
            sig, what = "blocked", "the operation waits for something that never comes (a lock that was not released?)"
        elif d.startswith("uncaught"):
            sig, what = d, "an operation that cannot fail raised:\n" + res["text"]
        else:
            sig, what = "crash", f"the interpreter died ({d})"
        res = {"v": {"sig": sig, "msg": what, "at": None}, "stats": {}, "cover": [], "trace": res.get("trace", trace)}
    return res


def shrink(scen, trace, sig, runner, budget_s=60, cpu=10):
    """Greedy delta debugging over the trace while the same violation shows."""
    end = REAL_MONO() + budget_s
    tries = 0

    def fails(t):
        nonlocal tries
        tries += 1
        try:
            v = judge(scen, t, runner, cpu).get("v")
        except HarnessError:
            return False
        return v is not None and v["sig"] == sig

    best = trace
    for lst in scen.lists(best):
        n = len(scen.get(best, lst))
        size = max(1, n // 2)
        while size >= 1 and REAL_MONO() < end:
            i = 0
            changed = False
            while i < len(scen.get(best, lst)) and REAL_MONO() < end:
                cur = scen.get(best, lst)
                cand = scen.put(best, lst, cur[:i] + cur[i + size:])
                if fails(cand):
                    best = cand
                    changed = True
                else:
                    i += size
            if size == 1 and not changed:
                break
            size = max(1, size // 2) if size > 1 else (1 if changed else 0)
    # simplify single values
    progress = True
    while progress and REAL_MONO() < end:
        progress = False
        for cand in scen.simpler(best):
            if REAL_MONO() > end:
                break
            if fails(cand):
                best = cand
                progress = True
                break
    best = scen.prune(best)
    return best, tries


def make_rng(seed):
    return random.Random(seed)
