"""Discharges the contracts of a property in parallel.

Every (contract, configuration) is one job.  Internal contracts are used optimistically at calls; when one of them fails,
or a call does not meet its precondition, the callers are verified again with that function inlined instead, so that the
verdict never rests on an unproved contract.
"""
import multiprocessing as mp
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
for p in (HERE, os.path.join(os.path.dirname(HERE), "contracts")):
    if p not in sys.path:
        sys.path.insert(0, p)

import core  # noqa: E402
import contract as ct  # noqa: E402
import cyparse  # noqa: E402
import exec as X  # noqa: E402
import npmodel  # noqa: E402

MODS = {}


class Task:
    """A group of contracts verified together: `internal` are lemmas, `api` state the property, `given` are established elsewhere."""

    def __init__(self, name, internal, api, kinds, budget=120, given=(), api_kinds=None):
        self.api_kinds = tuple(api_kinds or kinds)
        self.given = list(given)
        self.name, self.internal, self.api, self.kinds, self.budget = name, list(internal), list(api), tuple(kinds), budget


def _job(args):
    task, key, cfg_i, available, budget = args
    c = BYKEY[task][key]
    cfg = c.configs[cfg_i]
    c2 = object.__new__(c.__class__)
    c2.__dict__.update(c.__dict__)
    c2.__dict__.pop("configs", None)
    c2.__class__ = type(c.__class__.__name__, (c.__class__,), {"configs": [cfg]})
    verified = {(d.mod, d.qual): d for d in GIVEN[task]}
    for k in available:
        d = BYKEY[task][k]
        verified[(d.mod, d.qual)] = d
    q0, t0 = core.STATS.queries, core.STATS.time
    sys.setrecursionlimit(20000)
    r = ct.verify(c2, lambda: X.Exec(MODS, npmodel.make_libs()), verified, kinds=KINDS[task][key], budget_s=budget)
    return {"key": key, "cfg": cfg_i, "config": cfg, "error": r.error, "time": r.time, "used": sorted(r.used), "inlined": sorted(r.inlined),
            "assumed": sorted(str(a) for a in r.assumed), "queries": core.STATS.queries - q0, "solver": core.STATS.time - t0,
            "obligations": [(o.kind, o.func, o.line, o.config, o.status, str(o.info)[:1500], o.time, o.text) for o in r.obligations]}


BYKEY, KINDS, GIVEN = {}, {}, {}


def run(tasks, workers=None, deadline=None):
    """{task name: {"api": [job results], "internal": [...], "excluded": [...]}}"""
    MODS.update(cyparse.package(os.environ.get("VERIF_REPO", "/repo")))
    pending, out = [], {}
    for t in tasks:
        BYKEY[t.name] = {"%s:%s" % (type(c).__name__, c.name): c for c in t.internal + t.api}
        KINDS[t.name] = {"%s:%s" % (type(c).__name__, c.name): k for cs, k in ((t.internal, t.kinds), (t.api, t.api_kinds)) for c in cs}
        GIVEN[t.name] = t.given
        t.excluded = set()
        t.res = {}
    ctx = mp.get_context("fork")
    workers = workers or min(8, os.cpu_count() or 1)

    def keys(t, which):
        return ["%s:%s" % (type(c).__name__, c.name) for c in which]

    def todo(t, ks):
        avail = tuple(k for k in keys(t, t.internal) if k not in t.excluded)
        return [(t.name, k, i, avail, t.budget) for k in ks for i in range(len(BYKEY[t.name][k].configs))]

    work = []
    for t in tasks:
        work += todo(t, keys(t, t.internal) + keys(t, t.api))
    with ctx.Pool(workers, maxtasksperchild=12) as pool:
        for rnd in range(6):
            # callers first: they take longest
            handles = [(w, pool.apply_async(_job, (w,))) for w in reversed(work)]
            work = []
            done = []
            for w, h in handles:
                left = max(1.0, (deadline - time.time()) if deadline else 900)
                try:
                    done.append(h.get(min(left, w[4] + 60)))
                except mp.TimeoutError:
                    done.append({"key": w[1], "cfg": w[2], "config": {}, "error": "time limit", "time": w[4], "used": [], "inlined": [], "assumed": [],
                                 "queries": 0, "solver": 0.0, "obligations": []})
                except Exception as e:  # noqa: BLE001  (a job that died)
                    done.append({"key": w[1], "cfg": w[2], "config": {}, "error": "engine: %s: %s" % (type(e).__name__, str(e)[:200]), "time": 0.0, "used": [],
                                 "inlined": [], "assumed": [], "queries": 0, "solver": 0.0, "obligations": []})
                done[-1]["task"] = w[0]
            by = {t.name: t for t in tasks}
            for r in done:
                by[r["task"]].res[(r["key"], r["cfg"])] = r
            for t in tasks:
                bad = set()
                inner = set(keys(t, t.internal))
                for (k, i), r in t.res.items():
                    if k in inner and k not in t.excluded and (r["error"] or any(o[4] != "proved" for o in r["obligations"])):
                        bad.add(k)
                # preconditions that a caller does not meet: the contract does not describe that call
                for (k, i), r in t.res.items():
                    for o in r["obligations"]:
                        if o[0] == "pre" and o[4] != "proved":
                            q = o[7].split("precondition of ")[-1].split(":")[0]
                            bad |= {x for x in inner if BYKEY[t.name][x].qual == q and x not in t.excluded and x != k}
                bad -= t.excluded
                if not bad:
                    continue
                t.excluded |= bad
                names = {(BYKEY[t.name][b].mod, BYKEY[t.name][b].qual) for b in bad}
                again = {k for (k, i), r in t.res.items() if any(tuple(u) in names for u in r["used"])}
                again |= {k for (k, i), r in t.res.items() if r["error"] and k not in t.excluded}
                work += todo(t, [k for k in again if k not in t.excluded])
            if not work or (deadline and time.time() > deadline - 5):
                break
        pool.terminate()
    for t in tasks:
        inner = set(keys(t, t.internal))
        out[t.name] = {"api": [r for (k, i), r in sorted(t.res.items()) if k not in inner],
                       "internal": [r for (k, i), r in sorted(t.res.items()) if k in inner], "excluded": sorted(t.excluded)}
    return out
