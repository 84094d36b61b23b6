"""Writes sim/golden.jsonl: pickles made by the pinned release (run once, with
PYTHONPATH pointing at the pinned commit's sources) and what is visible of the
pickled values."""
import base64
import json
import os
import pickle
import random
import sys
import zoneinfo

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import whenever as W  # noqa
from sim import calls, tz  # noqa
from sim.gen import gen_t, gen_ns  # noqa
from sim.scen.durable import obs  # noqa

zoneinfo.reset_tzpath(to=[os.path.join(tz.HERE, "zones")])
rng = random.Random(20260101)
out = []


def put(v, key=None):
    o = obs(v)
    d = {"obs": o, "pickle": base64.b64encode(pickle.dumps(v, protocol=rng.randrange(0, 6))).decode()}
    if key:
        d["key"] = key
    out.append(d)


for t in calls.TYPES:
    n = 0
    while n < 25:
        steps = []
        g = calls.CallGen(rng, steps, types=[t])
        slot = g.make(t)
        try:
            slots = {}
            for st in steps:
                slots[st["to"]] = calls.perform(W, st, slots)
            put(slots[slot])
            n += 1
        except Exception as e:
            print(t, e)
for i in range(120):
    key = rng.choice(tz.REAL)
    zm = tz.zone_model({"real": key})
    t = gen_t(rng, zm)
    put(W.ZonedDateTime.from_timestamp_nanos(t * 10**9 + gen_ns(rng), tz=key), key)
    os.environ["TZ"] = ":" + os.path.join(tz.HERE, "zones", key)
    import time

    time.tzset()
    if i % 3 == 0:
        put(W.SystemDateTime.from_timestamp_nanos(t * 10**9 + gen_ns(rng)))
with open(os.path.join(tz.HERE, "golden.jsonl"), "w") as f:
    for d in out:
        f.write(json.dumps(d) + "\n")
print(len(out), W.__file__)
