"""The simulated environment of one process: tz database directory, system
timezone, realtime clock and file faults.  Everything lives below a scratch
directory of the run."""
import ctypes
import os
import time
import zoneinfo

from . import tz as TZ

NS = 1_000_000_000
_lib = None


def shim():
    global _lib
    if _lib is None:
        lib = ctypes.CDLL(None)
        for n, res, args in [
            ("sim_clock_enable", None, [ctypes.c_int]),
            ("sim_clock_set", None, [ctypes.c_int64]),
            ("sim_clock_peek", ctypes.c_int64, []),
            ("sim_clock_step", None, [ctypes.c_int64]),
            ("sim_clock_script", None, [ctypes.POINTER(ctypes.c_int64), ctypes.c_int]),
            ("sim_clock_log_n", ctypes.c_int64, []),
            ("sim_clock_log_at", ctypes.c_int64, [ctypes.c_int64]),
            ("sim_fs_prefix", None, [ctypes.c_char_p]),
            ("sim_fs_clear", None, []),
            ("sim_fs_open_fault", None, [ctypes.c_int, ctypes.c_int]),
            ("sim_fs_read_fault", None, [ctypes.c_int, ctypes.c_int]),
            ("sim_fs_short", None, [ctypes.c_int]),
            ("sim_fs_opens", ctypes.c_int64, []),
            ("sim_fs_reads", ctypes.c_int64, []),
            ("sim_fs_fired", ctypes.c_int64, []),
        ]:
            f = getattr(lib, n)
            f.restype, f.argtypes = res, args
        _lib = lib
    return _lib


class Env:
    def __init__(self, trace, root):
        self.trace = trace
        self.root = root
        self.db_dir = os.path.join(root, "db")
        self.sys_dir = os.path.join(root, "sys")
        os.makedirs(self.db_dir, exist_ok=True)
        os.makedirs(self.sys_dir, exist_ok=True)
        self.n = 0
        self.held = []
        self.counts = {}
        for key, zone in trace["db"].items():
            self.put(key, zone)
        zoneinfo.reset_tzpath(to=[self.db_dir])
        self.shim = shim()
        self.shim.sim_fs_clear()
        self.shim.sim_fs_prefix(root.encode())
        self.settz(trace.get("sys0"))
        c = trace.get("clock0", 1_700_000_000 * NS)
        self.shim.sim_clock_set(c)
        self.shim.sim_clock_step(trace.get("clock_step", 0))
        self.shim.sim_clock_enable(1)

    def count(self, what):
        self.counts[what] = self.counts.get(what, 0) + 1

    # -- tz database
    def path(self, key):
        return os.path.join(self.db_dir, key)

    def put(self, key, zone, data=None):
        """Atomic replacement, as package managers do it."""
        p = self.path(key)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        tmp = p + ".tmp~"
        with open(tmp, "wb") as f:
            f.write(TZ.zone_bytes(self.trace["zones"][zone]) if data is None else data)
        os.rename(tmp, p)

    def remove(self, key):
        os.unlink(self.path(key))

    # -- system timezone
    def settz(self, zone):
        if zone is None:
            os.environ["TZ"] = "UTC0"
        else:
            self.n += 1
            p = os.path.join(self.sys_dir, f"{self.n}_{zone}")
            with open(p, "wb") as f:
                f.write(TZ.zone_bytes(self.trace["zones"][zone]))
            if self.trace.get("one_tz"):
                # the file is replaced (as /etc/localtime is) and TZ stays the same;
                # it changes in between only to make the C library look again
                q, p = p, os.path.join(self.sys_dir, "localtime")
                os.rename(q, p)
                os.environ["TZ"] = "UTC0"
                time.tzset()
            os.environ["TZ"] = ":" + p
        self.tz = os.environ["TZ"]
        time.tzset()

    # -- generic environment steps
    def apply(self, step):
        op = step["op"]
        self.count(op)
        if op == "settz":
            self.settz(step["zone"])
        elif op == "clear_cache":
            zoneinfo.ZoneInfo.clear_cache()
        elif op == "clear_key":
            zoneinfo.ZoneInfo.clear_cache(only_keys=[step["key"]])
        elif op == "evict":
            # push everything out of the strong LRU of the cache
            for i in range(9):
                k = f"Sim/filler{i}"
                if not os.path.exists(self.path(k)):
                    self.put(k, None, TZ.build_tzif({"init": 60 * i, "trans": [], "footer": f"<STD>-0:{i:02}"})[0])
                zoneinfo.ZoneInfo(k)
        elif op == "hold":
            self.held.append(zoneinfo.ZoneInfo(step["key"]))
        elif op == "gc":
            import gc

            gc.collect()
        elif op == "clock":
            if "set" in step:
                self.shim.sim_clock_set(step["set"])
            if "adv" in step:
                self.shim.sim_clock_set(self.shim.sim_clock_peek() + step["adv"])
        else:
            raise AssertionError(op)
