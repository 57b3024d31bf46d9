"""Which contracts decide which property."""
import basic
import borders
import finite
import frames
import geo
import grids
import helpers
import interp
import lazy
import modis
import multilinear
import safety
import scans
import simple_modis
import splitting
import vii

SAFE = ("bounds", "init", "overflow", "race", "contiguous", "shape", "dtype", "raises", "pre", "index", "type")
POST = ("index", "post", "frame", "raises", "shape", "dtype", "pre", "type")

FRAME = ("frame",)
DEFINED = POST + ("domain", "div0", "lemma")

GENERIC = ["C floats and numpy floats are treated as real numbers (rounding, overflow to infinity and NaN are outside the proof; the bounded conformance runs use real floats)",
           "pyvc (the contract verifier in /verif/pyvc: Cython/Python front end, symbolic executor, memory model, normal-form equality prover) and z3",
           "the models of the numpy and libc functions the code calls (pyvc/npmodel.py)",
           "the Cython compiler, C compiler and CPython execute the source as its semantics say; array extents are below 2**31"]


class Prop:
    def __init__(self, tasks=(), trusted=(), asan=False, note="", level="proof", tech="", lean=None):
        self.lean = lean
        self.level, self.tech = level, tech
        self.tasks, self.trusted, self.asan, self.note = list(tasks), list(trusted), asan, note


def _p(name, internal, api, kinds=POST, budget=120, given=(), api_kinds=None):
    return dict(name=name, internal=internal, api=api, kinds=kinds, budget=budget, given=given, api_kinds=api_kinds)


PROPS = {
    "C01": Prop([_p("modis", modis.INTERNAL, modis.API)]),
    "C02": Prop([_p("modis", scans.MODIS_INTERNAL, scans.MODIS), _p("simple", scans.SIMPLE_INTERNAL, scans.SIMPLE)]),
    "C03": Prop([_p("modis", modis.INTERNAL, safety.PUBLIC, SAFE), _p("simple", simple_modis.INTERNAL, safety.SIMPLE, SAFE),
                 _p("multilinear", safety.KERNELS, safety.DISPATCH, SAFE)], asan=True),
    "C04": Prop([_p("conversions", geo.INTERNAL, geo.FUNCTIONS + geo.TRIPS, POST + ("lemma",)), _p("domain", [], geo.DOMAIN, ("domain",))], trusted=geo.TRUSTED, lean="Trig.lean"),
    "C05": Prop([_p("simple", simple_modis.INTERNAL, simple_modis.API)]),
    "C08": Prop([_p("borders", borders.INTERNAL, borders.API, budget=240)]),
    "C10": Prop([_p("helpers", helpers.INTERNAL, helpers.API, POST + ("lemma",), budget=380)], trusted=geo.TRUSTED, lean="Trig.lean"),
    "C11": Prop([_p("splitting", splitting.INTERNAL, splitting.API, POST + ("lemma",), given=splitting.ONE)],
                trusted=["the MODIS 1km helpers on one process treat each scan alone (proved by C10's check)"]),
    "C14": Prop([_p("vii", vii.INTERNAL, vii.API[:1], POST + ("domain",)), _p("rejects", [], vii.API[1:])]),
    "C15": Prop([_p("vii-geo", vii.INTERNAL, vii.GEO)]),
    "C06": Prop([_p("multilinear", multilinear.GRID_INTERNAL, multilinear.API + multilinear.EVAL_API)]),
    "C09": Prop([_p("interpolator", interp.INTERNAL, interp.CLASS + interp.GEOCLASS, POST + ("lemma",))], trusted=geo.TRUSTED, lean="Trig.lean"),
    "C12": Prop([_p("lazy", lazy.INTERNAL, lazy.API, POST + ("lemma",))]),
    "C13": Prop([_p("grids", grids.INTERNAL, grids.API, POST + ("lemma",))], trusted=geo.TRUSTED, lean="Trig.lean"),
    "C16": Prop([_p("modis", scans.MODIS_INTERNAL, frames.MODIS, POST, api_kinds=FRAME), _p("simple", scans.SIMPLE_INTERNAL, frames.SIMPLE, POST, api_kinds=FRAME),
                 _p("multilinear", multilinear.GRID_INTERNAL, frames.MULTILINEAR, POST, api_kinds=FRAME), _p("vii", vii.INTERNAL, frames.VII, POST, api_kinds=FRAME),
                 _p("conversions", geo.INTERNAL, frames.CONVERSIONS, POST, api_kinds=FRAME), _p("interpolator", interp.INTERNAL, frames.CLASSES, POST, api_kinds=FRAME),
                 _p("grids", grids.INTERNAL, frames.GRIDS, POST, api_kinds=FRAME), _p("lazy", lazy.INTERNAL, frames.LAZY, POST, api_kinds=FRAME)]),
    "C18": Prop([_p("basic", basic.INTERNAL, basic.API)]),
    "C17": Prop([_p("modis", modis.INTERNAL, finite.API + finite.COEFFICIENTS, POST + ("div0",), api_kinds=DEFINED), _p("conversions", [], finite.CONVERSIONS, ("domain", "div0")),
                 _p("simple", simple_modis.INTERNAL, finite.SIMPLE, POST + ("div0",), api_kinds=DEFINED), _p("vii", vii.INTERNAL, vii.API[:1], POST + ("div0", "domain")),
                 _p("vii-geo", vii.INTERNAL, finite.VII, POST, api_kinds=POST + ("lemma",)),
                 _p("scans", scans.MODIS_INTERNAL, scans.MODIS[:5]), _p("simple-scans", scans.SIMPLE_INTERNAL, scans.SIMPLE[:2])],
                trusted=finite.TRUSTED, lean="Trig.lean"),
    "C07": Prop([_p("grid", multilinear.GRID_INTERNAL, multilinear.GRID_API)]),
}
for k in range(1, 19):
    PROPS.setdefault("C%02d" % k, Prop())
