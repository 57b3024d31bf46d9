"""Writes MANIFEST.json from contracts/registry.py (run by hand after a change of what is claimed)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
for p in ("pyvc", "contracts"):
    sys.path.insert(0, os.path.join(HERE, p))
import registry

checks = []
for pid in sorted(registry.PROPS):
    p = registry.PROPS[pid]
    if p.tasks:
        tech = "contracts on the real functions, discharged deductively (pyvc + z3) from the current source" + ("; " + p.tech if p.tech else "")
        note = ("Every obligation generated from the current source must be discharged; failing obligations are replayed on the built code. " + p.note
                + " Trusted: the verifier pyvc and z3; floats as reals; models of numpy/libc functions" + ("; " + "; ".join(p.trusted) if p.trusted else "") + ".")
    else:
        tech = "bounded runtime conformance of the real functions to their specification (no deductive contract within reach)"
        note = "Bounded: generated inputs only. " + p.note
    checks.append({"property": pid, "quick_cmd": "python3-vt check.py %s" % pid, "thorough_cmd": "VERIF_TIER=thorough python3-vt check.py %s" % pid,
                   "evidence_file": "evidence/%s.json" % pid, "technique": tech, "level": p.level if p.tasks else "exploration", "level_note": note.strip()})
json.dump({"version": 1, "setup_cmd": "python3-vt -c \"import z3\" && /opt/venv/bin/python -c \"import numpy, scipy, dask, xarray\"", "checks": checks, "not_applicable": [],
           "notes": "No hooks in /repo. Known findings and fixes: known_findings.json."}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
