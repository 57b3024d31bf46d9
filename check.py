"""check.py Cxx: decide one property on the current /repo working tree.

1. every obligation of the property's contracts is generated from the current source and discharged (pyvc + z3);
2. the real code is built and its conformance to the same specification is checked on generated inputs (bounded);
3. an obligation that fails is replayed: the conformance run searches longer for a concrete failing input.

Exit 0: held.  Exit 1 with a VIOLATION line: broken.
"""
import json
import os
import signal
import subprocess
import sys
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
for p in ("lib", "pyvc", "contracts"):
    sys.path.insert(0, os.path.join(HERE, p))
PROP = sys.argv[1]
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
PY = "/opt/venv/bin/python"
ASAN = "/usr/lib/gcc/x86_64-linux-gnu/13/libasan.so"
T0 = time.time()
LIMIT = 780 if TIER == "quick" else 3000


def left():
    return LIMIT - (time.time() - T0)


def known_findings():
    out = []
    try:
        with open(os.path.join(HERE, "known_findings.json")) as f:
            for k in json.load(f)["findings"]:
                if k["property"] == PROP:
                    out.append(k)
    except OSError:
        pass
    return out


def harness(src, out, seed, budget, tier=None, asan=False, timeout=None):
    """Bounded conformance run; returns its result, or a result with a failure when the code crashes the process."""
    env = dict(os.environ, OMP_NUM_THREADS="4", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
    if asan:
        env.update(LD_PRELOAD=ASAN, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1", VERIF_ANNOUNCE="1", VERIF_ASAN="1")
    env["VERIF_ANNOUNCE"] = "1"
    if os.path.exists(out):
        os.remove(out)
    cmd = [PY, os.path.join(HERE, "harness/run.py"), PROP, "--src", src, "--out", out, "--tier", tier or TIER, "--seed", str(seed), "--budget", str(budget)]
    p = subprocess.Popen(cmd, cwd=os.path.dirname(src), env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
    hung = False
    try:
        so, se = p.communicate(timeout=timeout or max(60, budget * 3 + 60))
    except subprocess.TimeoutExpired:
        hung = True
        os.killpg(p.pid, signal.SIGKILL)
        so, se = p.communicate()
    last = [ln[5:] for ln in se.splitlines() if ln.startswith("CASE ")]
    if os.path.exists(out) and p.returncode == 0:
        with open(out) as f:
            return json.load(f)
    case = json.loads(last[-1]) if last else None
    rest = "\n".join(ln for ln in se.splitlines() if not ln.startswith("CASE "))
    if case is None and not hung and p.returncode > 0:
        return {"broken": "the harness did not start (exit %s): %s" % (p.returncode, rest[-1500:]), "failures": []}
    if hung:
        msg = "no answer within the time limit"
    elif "AddressSanitizer" in rest:
        k = rest.index("AddressSanitizer")
        msg = rest[k:k + 600]
    else:
        msg = "the process ended with status %s: %s" % (p.returncode, rest[-600:])
    return {"cases": len(last), "kinds": {}, "samples": [], "truncated": True, "distinct": len(set(last)), "wall_s": 0,
            "failures": [{"case": case, "message": msg, "crash": True}]}


def main():
    import build as B
    from registry import GENERIC, PROPS
    spec = PROPS[PROP]
    res = {}

    def bounded():
        try:
            top, src, err = B.build()
            res["top"], res["src"] = top, src
            if err:
                res["build"] = err
                return
            res["h"] = harness(src, os.path.join(top, "out.json"), SEED, 60 if TIER == "quick" else 900)
            if spec.asan:
                top2, src2, err2 = B.build(asan=True)
                res["top2"] = top2
                if err2:
                    res["asan_build"] = err2
                else:
                    res["ha"] = harness(src2, os.path.join(top2, "out.json"), SEED + 1, 60 if TIER == "quick" else 900, asan=True)
        except Exception:  # noqa: BLE001
            res["broken"] = traceback.format_exc()

    th = threading.Thread(target=bounded)
    proof = {}
    lean = None
    if spec.lean:
        try:
            lean = subprocess.Popen(["lean", os.path.join(HERE, "lemmas", spec.lean)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=os.path.join(HERE, "lemmas"))
        except OSError as e:
            res["lean"] = "not run: %s" % e
    try:
        proof = prove(spec, th)
        th.join()
        if lean:
            try:
                so, _ = lean.communicate(timeout=120)
                res["lean"] = "accepted" if lean.returncode == 0 and "sorry" not in so else "not accepted: " + so[-500:]
            except subprocess.TimeoutExpired:
                lean.kill()
                res["lean"] = "not finished"
        return decide(spec, proof, res, GENERIC, B)
    finally:
        if th.is_alive():
            th.join(1)
        for k in ("top", "top2"):
            if k in res:
                B.cleanup(res[k])


def prove(spec, th):
    """Runs the verifier in a child process (before any thread exists in it)."""
    if not spec.tasks:
        th.start()
        return {}
    p = subprocess.Popen([sys.executable, os.path.join(HERE, "pyvc/prove_main.py"), PROP, str(int(min(left() - 150, 420 if TIER == "quick" else 1500)))],
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
    th.start()
    try:
        so, se = p.communicate(timeout=max(30, left() - 100))
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return {"failed": "the verifier did not end within its time limit"}
    try:
        return json.loads(so.strip().splitlines()[-1])
    except (ValueError, IndexError):
        return {"failed": "the verifier ended with status %s: %s" % (p.returncode, se[-1500:])}


def replay_file(case, message, extra=None):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    n = 0
    while os.path.exists(os.path.join(d, "%s-%d.json" % (PROP, n))):
        n += 1
    path = os.path.join(d, "%s-%d.json" % (PROP, n))
    with open(path, "w") as f:
        json.dump({"property": PROP, "case": case, "message": message, "how": "%s harness/run.py %s --src <built tree> --replay %s" % (PY, PROP, path),
                   **(extra or {})}, f, indent=1)
    return path


def decide(spec, proof, res, generic, B):
    findings = known_findings()
    lines = []
    tasks = proof.get("tasks", {})
    obl, failed, errors = [], [], []
    functions, inlined, used, assumed = set(), set(), set(), set()
    solver = queries = 0
    for name, t in tasks.items():
        for lvl in ("internal", "api"):
            for r in t[lvl]:
                if lvl == "internal" and r["key"] in t["excluded"]:
                    continue
                solver += r["solver"]
                queries += r["queries"]
                inlined |= {"%s.%s" % tuple(x) for x in r["inlined"]}
                used |= {"%s.%s" % tuple(x) for x in r["used"]}
                assumed |= set(r["assumed"])
                functions.add(r["key"].split(":")[1])
                obl += r["obligations"]
                if lvl == "api":
                    if r["error"]:
                        errors.append({"contract": r["key"], "config": r["config"], "error": r["error"]})
                    failed += [(r["key"], o) for o in r["obligations"] if o[4] != "proved"]
    if proof.get("failed"):
        errors.append({"contract": "-", "error": proof["failed"]})
    real_failed = [(k, o) for k, o in failed if o[0] != "pre"]
    refuted = [(k, o) for k, o in real_failed if o[4] == "refuted"]
    h = res.get("h") or {"failures": [], "cases": 0, "distinct": 0, "samples": [], "kinds": {}}
    fails = [dict(f, asan=False) for f in h["failures"]] + [dict(f, asan=True) for f in (res.get("ha") or {}).get("failures", [])]
    extra_runs = 0
    if not fails and (failed or errors) and spec.tasks and not res.get("build") and not res.get("broken"):
        # an obligation is open: search for a concrete failing input
        end = time.time() + min(left() - 60, 90 if refuted else 45)
        s = SEED + 100
        while time.time() < end and not fails:
            r = harness(res["src"], os.path.join(res["top"], "out.json"), s, max(5, end - time.time()))
            extra_runs += r.get("cases", 0)
            fails = [dict(f, asan=False) for f in r["failures"]]
            s += 1
            if r.get("broken"):
                break
    # ------------------------------------------------------------ verdict
    violation = None
    for f in fails:
        if any(k.get("case") == f.get("case") or (k.get("message") and k["message"] in f["message"]) for k in findings):
            continue
        violation = "VIOLATION property=%s replay=%s" % (PROP, replay_file(f["case"], f["message"], {"asan": f["asan"], "obligations": [list(o) for _, o in real_failed][:5]}))
        lines.append("  failing input: %s" % json.dumps(f["case"])[:400])
        lines.append("  " + f["message"][:600])
        break
    build_err = res.get("build")
    if violation is None and build_err:
        violation = "VIOLATION property=%s replay=%s no-failing-input-found" % (PROP, replay_file(None, "the tree does not build: " + build_err[-2000:]))
        lines.append("  the tree does not build")
    if violation is None and h.get("broken"):
        violation = "VIOLATION property=%s replay=%s no-failing-input-found" % (PROP, replay_file(None, h["broken"]))
        lines.append("  " + h["broken"][:600])
    if violation is None and refuted:
        k, o = refuted[0]
        path = replay_file(None, "obligation refuted", {"obligation": {"contract": k, "kind": o[0], "function": o[1], "line": o[2], "configuration": o[3],
                                                                         "text": o[7], "counterexample": o[5]}, "all": [list(x) for _, x in refuted][:20]})
        violation = "VIOLATION property=%s replay=%s no-failing-input-found" % (PROP, path)
        lines.append("  obligation refuted: %s in %s line %s [%s]: %s" % (o[0], o[1], o[2], o[3], o[7]))
    proved = len([o for o in obl if o[4] == "proved"])
    complete = bool(tasks) and not failed and not errors and proved > 0
    if spec.tasks and not complete and violation is None:
        lines.append("  not every obligation is discharged (%d open, %s); the verdict rests on the bounded conformance run" % (
            len(failed), "; ".join(sorted({e["error"][:160] for e in errors})) or "no error"))
    for k in findings:
        lines.append("KNOWN-FINDING: property=%s %s" % (PROP, k["what"]))
    backs = {}
    for o in obl:
        if o[4] == "proved":
            b = o[5] if o[5] in ("smt", "normal form", "constant", "cases", "congruence", "unreachable", "mixed radix") else "other"
            backs[b] = backs.get(b, 0) + 1
    level = "proof" if spec.tasks and spec.level == "proof" and complete else "exploration"
    cov = {"evaluations": h.get("cases", 0) + extra_runs + (res.get("ha") or {}).get("cases", 0), "distinct_nontrivial": h.get("distinct", 0),
           "rule": "bounded conformance run of the real code: cases drawn by seed (shapes, configurations, data styles); every case runs the code and compares with the specification",
           "samples": h.get("samples", [])[:6], "case_kinds": h.get("kinds", {}),
           "obligations": len(obl), "discharged": proved, "discharged_by": backs, "solver_queries": queries, "solver_time_s": round(solver, 2),
           "checker_cmd": "python3-vt /verif/check.py %s" % PROP,
           "trusted_base": generic + spec.trusted if spec.tasks else ["the oracle of the bounded conformance run (harness/common.py, harness/props.py)"],
           "functions_under_contract": sorted(functions), "functions_inlined_into_a_contract": sorted(inlined), "contracts_used_at_calls": sorted(used),
           "bounded_part": spec.note or "conformance run only (no contract decides this property)" if not spec.tasks else spec.note,
           "open_obligations": [{"contract": k, "kind": o[0], "function": o[1], "line": o[2], "configuration": o[3], "status": o[4], "text": o[7]} for k, o in failed][:40],
           "lean": {"file": "lemmas/" + spec.lean, "result": res.get("lean")} if spec.lean else None,
           "errors": errors[:20], "asan_cases": (res.get("ha") or {}).get("cases", 0)}
    ev = {"property": PROP, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": level, "coverage": cov,
          "assumptions": (generic + spec.trusted + sorted(assumed)) if spec.tasks else [], "wall_s": round(time.time() - T0, 2), "violations": 1 if violation else 0}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", PROP + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d obligations, %d discharged (%s), %d conformance cases, %.1f s" % (PROP, len(obl), proved, "complete" if complete else "incomplete", cov["evaluations"], time.time() - T0))
    for ln in lines:
        print(ln)
    if violation:
        print(violation)
        return 1
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:  # noqa: BLE001
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
