"""Make the current /repo working tree importable without touching it.

Copies the package into a scratch directory, reuses an extension module of /repo only when
the recorded hashes prove that it was compiled from the present sources, and compiles the rest.
"""
import glob
import hashlib
import json
import os
import shutil
import subprocess
import tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
COMMON = ["setup.py", "setup.cfg", "pyproject.toml", "README.md", "versioneer.py"]


def _sha(path):
    with open(path, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


def _stamp():
    try:
        with open(os.path.join(REPO, "build/vp-stamp.json")) as f:
            return json.load(f)
    except (OSError, ValueError):
        return None


def fresh_modules():
    """Stems of the extension modules in /repo that provably match the sources."""
    stamp = _stamp()
    if not stamp:
        return set()
    common = {p: _sha(os.path.join(REPO, p)) for p in COMMON if os.path.isfile(os.path.join(REPO, p))}
    for ext in ("pxd", "pxi", "h"):
        for p in glob.glob(os.path.join(REPO, "geotiepoints/**/*." + ext), recursive=True):
            common[os.path.relpath(p, REPO)] = _sha(p)
    if common != stamp.get("common"):
        return set()
    fresh = set()
    for p in glob.glob(os.path.join(REPO, "geotiepoints/*.pyx")):
        rel = os.path.relpath(p, REPO)
        if stamp.get("pyx", {}).get(rel) != _sha(p):
            continue
        stem = rel[:-4]
        sos = glob.glob(os.path.join(REPO, stem + ".*.so"))
        if len(sos) == 1 and stamp.get("so", {}).get(os.path.relpath(sos[0], REPO)) == _sha(sos[0]):
            fresh.add(stem)
    return fresh


def build(asan=False):
    """Return (scratch dir to put first on sys.path, error text or None)."""
    top = tempfile.mkdtemp(prefix="verif-build-")
    src = os.path.join(top, "src")
    os.makedirs(src)
    for p in COMMON:
        if os.path.isfile(os.path.join(REPO, p)):
            shutil.copy2(os.path.join(REPO, p), src)
    shutil.copytree(os.path.join(REPO, "geotiepoints"), os.path.join(src, "geotiepoints"),
                    ignore=shutil.ignore_patterns("*.so", "*.c", "*.cpp", "__pycache__", "testdata"))
    td = os.path.join(REPO, "testdata")
    fresh = set() if asan else fresh_modules()
    for stem in fresh:
        for so in glob.glob(os.path.join(REPO, stem + ".*.so")):
            shutil.copy2(so, os.path.join(src, "geotiepoints"))
    stems = {os.path.relpath(p, REPO)[:-4] for p in glob.glob(os.path.join(REPO, "geotiepoints/*.pyx"))}
    todo = sorted(stems - fresh)
    err = None
    if todo:
        env = dict(os.environ, CC="gcc", PYTHONDONTWRITEBYTECODE="1")
        if asan:
            env["CFLAGS"] = "-fsanitize=address -fno-omit-frame-pointer -g -O1"
            env["LDFLAGS"] = "-fsanitize=address"
        script = os.path.join(os.path.dirname(os.path.abspath(__file__)), "build_one.py")
        procs = [(s, subprocess.Popen([PY, script, s, "1" if asan else "0"], cwd=src, env=env,
                                      stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)) for s in todo]
        for s, p in procs:
            out = p.communicate()[0]
            if p.returncode != 0:
                err = (err or "") + "build of %s failed:\n%s" % (s, out[-3000:])
    return top, src, err


def cleanup(top):
    if top and os.path.basename(top).startswith("verif-build-"):
        shutil.rmtree(top, ignore_errors=True)
