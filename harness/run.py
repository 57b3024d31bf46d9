"""run.py PROP --src DIR --out FILE [--tier T] [--seed N] [--replay FILE] [--budget S]"""
import argparse
import json
import os
import sys
import time
import traceback

ap = argparse.ArgumentParser()
ap.add_argument("prop")
ap.add_argument("--src")
ap.add_argument("--out")
ap.add_argument("--tier", default="quick")
ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--replay")
ap.add_argument("--budget", type=float, default=0)
a = ap.parse_args()
if a.src:
    sys.path.insert(0, a.src)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault("OMP_NUM_THREADS", "4")
import numpy as np  # noqa: E402
import geotiepoints  # noqa: E402
if a.src:
    assert geotiepoints.__file__.startswith(os.path.realpath(a.src) + os.sep) or geotiepoints.__file__.startswith(a.src), geotiepoints.__file__
import props  # noqa: E402
from common import Violation  # noqa: E402


def one(kind, params):
    try:
        getattr(props, "run_" + kind)(params)
    except Violation as e:
        return str(e)
    except Exception as e:  # the real code raised on an input it has to handle
        tb = traceback.extract_tb(e.__traceback__)
        where = [t for t in tb if "geotiepoints" in t.filename or "harness" in t.filename][-1:]
        return "raised %s: %s at %s" % (type(e).__name__, str(e)[:300], where)
    return None


if a.replay:
    case = json.load(open(a.replay))["case"]
    m = one(case["kind"], case["params"])
    print("VIOLATED: " + m if m else "held")
    sys.exit(1 if m else 0)

rng = np.random.default_rng([a.seed, int(a.prop[1:])])
t0 = time.time()
res = {"cases": 0, "kinds": {}, "samples": [], "failures": [], "truncated": False}
seen = set()
for kind, params in getattr(props, "gen_" + a.prop)(rng, a.tier):
    if a.budget and time.time() - t0 > a.budget:
        res["truncated"] = True
        break
    if os.environ.get("VERIF_ANNOUNCE"):
        sys.stderr.write("CASE " + json.dumps({"kind": kind, "params": params}) + "\n")
        sys.stderr.flush()
    m = one(kind, params)
    res["cases"] += 1
    res["kinds"][kind] = res["kinds"].get(kind, 0) + 1
    seen.add(json.dumps([kind, params], sort_keys=True))
    if len(res["samples"]) < 3 or (kind not in {s["kind"] for s in res["samples"]} and len(res["samples"]) < 8):
        res["samples"].append({"kind": kind, "params": params})
    if m:
        res["failures"].append({"case": {"kind": kind, "params": params}, "message": m})
        if len(res["failures"]) >= 5:
            break
res["distinct"] = len(seen)
res["wall_s"] = time.time() - t0
json.dump(res, open(a.out, "w")) if a.out else print(json.dumps(res, indent=1)[:6000])
