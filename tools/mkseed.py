#!/usr/bin/env python3
"""Create and confirm a planted bug: python3 tools/mkseed.py SPEC.py...

A spec file defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)...] and DEMO (python source).
The change is made in a scratch copy of /repo, built, tested, and the demonstration is run with and without it.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

PY = "/opt/venv/bin/python"
OUT = "/verif/seeded"
DEMO_SH = '#!/bin/bash\n# run in the root of the repository, after the build\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
HEAD = "import os, sys\nsys.path.insert(0, os.getcwd())\nimport numpy as np\n"


def run(cmd, cwd, timeout=900):
    env = dict(os.environ, CC="gcc", PYTHONDONTWRITEBYTECODE="1")
    env.pop("PYTHONPATH", None)
    p = subprocess.run(cmd, cwd=cwd, env=env, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout


def one(path, base):
    spec = {}
    exec(open(path).read(), spec)
    top = tempfile.mkdtemp(prefix="seed-")
    try:
        work = os.path.join(top, "repo")
        shutil.copytree(base, work, symlinks=True)
        for f, old, new in spec["EDITS"]:
            p = os.path.join(work, f)
            s = open(p).read()
            n = s.count(old)
            if n != 1:
                return "edit of %s matches %d times: %r" % (f, n, old)
            open(p, "w").write(s.replace(old, new))
        d = os.path.join(top, "d")
        os.makedirs(d)
        open(os.path.join(d, "demo.py"), "w").write(HEAD + spec["DEMO"].lstrip("\n"))
        open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        rc, diff = run(["git", "diff", "--", "geotiepoints"], work)
        if any(f.endswith((".pyx", ".pxd")) for f, _, _ in spec["EDITS"]):
            rc, out = run([PY, "setup.py", "-q", "build_ext", "--inplace"], work)
            if rc:
                return "build failed\n" + out[-2000:]
        rc, out = run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "geotiepoints/tests"], work)
        if " failed" in out or "50 passed" not in out:
            return "tests fail\n" + out[-1500:]
        rc0, out0 = run(["bash", os.path.join(d, "demo.sh")], base, 300)
        rc1, out1 = run(["bash", os.path.join(d, "demo.sh")], work, 300)
        if rc0 != 0 or rc1 == 0:
            return "demo: clean rc %d, patched rc %d\n%s\n%s" % (rc0, rc1, out0[-1500:], out1[-1500:])
        dest = os.path.join(OUT, spec["ID"])
        shutil.rmtree(dest, ignore_errors=True)
        shutil.copytree(d, dest)
        open(os.path.join(dest, "patch.diff"), "w").write(diff)
        with open(os.path.join(dest, "meta.json"), "w") as f:
            json.dump({"property": spec["PROPERTY"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]}, f, indent=1)
            f.write("\n")
        return None
    finally:
        shutil.rmtree(top, ignore_errors=True)


def main():
    from concurrent.futures import ThreadPoolExecutor
    top = tempfile.mkdtemp(prefix="seedbase-")
    try:
        base = os.path.join(top, "repo")
        shutil.copytree("/repo", base, symlinks=True)
        with ThreadPoolExecutor(6) as ex:
            for path, err in zip(sys.argv[1:], ex.map(lambda p: one(p, base), sys.argv[1:])):
                print(os.path.basename(path), "ok" if err is None else "FAILED: " + err, flush=True)
    finally:
        shutil.rmtree(top, ignore_errors=True)


main()
