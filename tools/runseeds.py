#!/usr/bin/env python3
"""Run the check of each planted bug's property on a scratch copy of /repo with the bug: tools/runseeds.py [ID...]"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

S = "/verif/seeded"
ids = sys.argv[1:] or sorted(os.listdir(S))
for i in ids:
    meta = json.load(open(os.path.join(S, i, "meta.json")))
    top = tempfile.mkdtemp(prefix="seedrun-")
    try:
        work = os.path.join(top, "repo")
        shutil.copytree("/repo", work, symlinks=True)
        subprocess.run(["git", "apply", os.path.join(S, i, "patch.diff")], cwd=work, check=True)
        t = time.time()
        p = subprocess.run(["python3-vt", "/verif/check.py", meta["property"], "--tier", "quick"], cwd="/verif", text=True,
                           env=dict(os.environ, VERIF_REPO=work, VERIF_SEED="1", VERIF_EVIDENCE=top), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        lines = [x for x in p.stdout.splitlines() if x.startswith(("VIOLATION", "KNOWN"))]
        print("%-28s rc %d %5.1fs %s" % (i, p.returncode, time.time() - t, "; ".join(lines)[:230]), flush=True)
    finally:
        shutil.rmtree(top, ignore_errors=True)
