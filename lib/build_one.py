"""Compile one extension in the current directory: build_one.py STEM ASAN."""
import runpy
import sys

stem, asan = sys.argv[1], sys.argv[2] == "1"
ns = runpy.run_path("setup.py", run_name="verif_setup")
exts = [e for e in ns["EXTENSIONS"] if e.sources == [stem + ".pyx"]]
if not exts:
    raise SystemExit("no extension for " + stem)
if asan:
    for e in exts:
        e.extra_compile_args = [a for a in e.extra_compile_args if not a.startswith("-O")]
from setuptools import setup  # noqa: E402
sys.argv = ["setup.py", "build_ext", "--inplace", "--build-temp", "build/" + stem.replace("/", "_")]
setup(name="geotiepoints-verif", version="0", packages=["geotiepoints"], ext_modules=exts,
      cmdclass={"build_ext": ns["build_ext"]})
