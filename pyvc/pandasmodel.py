"""Assumed contracts of pandas: a frame is a labelled table, and linear interpolation of missing rows."""
import z3

import core
import splinemodel as sp
from core import RL, add, band, bnot, cmp, decide, eq, fresh, ite, sub, sym
from cyparse import Unsupported
from exec import Builtin, DType, Exc, LibModule, LibObj
from mem import View

NAN = z3.Real("nan_value")
TEXT = ("pandas: DataFrame(data, index) holds the rows of data under unique labels; reindex on 0, 1, ..., N-1 puts the row labelled k at position k and leaves the others missing; "
        "Series.interpolate (linear) keeps the values that are there and puts missing ones between two of them on the straight line over the positions, each column alone")


class Column(LibObj):
    """length values, present at nodes(r), 0 <= r < n (None: everywhere), each values(st, r)."""

    def __init__(self, length, nodes, n, values, dtype):
        self.length_, self.nodes, self.n, self.values, self.dtype = length, nodes, n, values, dtype

    def hasattr(self, name):
        return name in ("interpolate", "to_numpy", "values", "shape", "index", "dtype")

    def getattr(self, ex, st, name, node):
        if name == "interpolate":
            return Builtin("Series.interpolate", lambda e, s, a, k, n: interpolate(e, s, [self] + list(a), k, n))
        if name in ("to_numpy", "values") and self.nodes is None:
            v = ex.fnarray(st, [self.length_], self.dtype, lambda e, s, p: self.values(s, p[0]), "series")
            return v if name == "values" else Builtin("Series.to_numpy", lambda e, s, a, k, n: v)
        raise Unsupported("Series.%s" % name)

    def length(self, ex, st):
        return self.length_


def interpolate(ex, st, args, kw, node):
    c = args[0]
    names = ["method", "axis", "limit"]
    kw = dict(zip(names, args[1:]), **kw)
    if not isinstance(c, Column) or set(kw) - {"method", "axis", "limit", "limit_direction", "limit_area", "inplace"} or kw.get("inplace") or kw.get("axis", 0) not in (0, "index"):
        raise Unsupported("Series.interpolate options")
    method, limit = kw.get("method", "linear"), kw.get("limit")
    backward = kw.get("limit_direction") not in (None, "forward")
    if c.nodes is None:
        return c
    ex.assumed.add(TEXT)
    nodes = lambda s, r: c.nodes(s, r)  # noqa: E731
    tag = "series_%s_%s_%s" % (method, kw.get("limit_direction"), kw.get("limit_area"))
    order = 1 if method in ("linear", "index", "values") else 0

    def value(s, i):
        if limit is None:
            return sp.spline1(ex, s, nodes, c.n, c.values, i, order, tag, False)
        if backward or not core.is_int(limit):
            raise Unsupported("limit with a direction")
        # only the first `limit` of a run of missing values are filled
        for q in sp.hints(ex, "node", s, c.n):
            if decide(sp.inside(q, 0, sub(c.n, 1)), s.pc) is True and decide(eq(nodes(s, q), i), s.pc) is True:
                return c.values(s, q)
        for q in sp.hints(ex, "cell", s, c.n):
            if decide(sp.inside(q, 0, sub(c.n, 2)), s.pc) is True and decide(band(cmp("<=", nodes(s, q), i), cmp("<=", i, nodes(s, add(q, 1)))), s.pc) is True:
                filled = core.bor(cmp("<=", sub(i, nodes(s, q)), limit), eq(i, nodes(s, add(q, 1))))
                return ite(filled, sp.hat(ex, s, nodes, c.values, sp.real(i), q), NAN)
        return sp.functional(tag + "_limited", [nodes, c.values], [c.n, c.n], s, [c.n, core.Z(limit), core.Z(i)])
    return Column(c.length_, None, None, value, "f4" if c.dtype == "f4" else "f8")


class Frame(LibObj):
    """`rows` rows of `cols` values, present at rows nodes(r), 0 <= r < n (None: everywhere); labels: the index."""

    def __init__(self, rows, cols, nodes, n, values, dtype, labels=None):
        self.rows, self.cols, self.nodes, self.n, self.values, self.dtype, self.labels = rows, cols, nodes, n, values, dtype, labels

    def hasattr(self, name):
        return name in ("reindex", "apply", "interpolate", "to_numpy", "values", "shape", "T", "transpose", "index", "columns", "ndim", "iloc", "loc")

    def getattr(self, ex, st, name, node):
        if name == "shape":
            return (self.rows, self.cols)
        if name == "ndim":
            return 2
        if name in ("to_numpy", "values"):
            v = self.to_array(ex, st)
            return v if name == "values" else Builtin("DataFrame.to_numpy", self._plain(v))
        if name == "T":
            return self.transposed(ex, st)
        f = {"reindex": self.reindex, "apply": self.apply, "interpolate": self.interpolate, "transpose": lambda e, s, a, k, n: self.transposed(e, s)}.get(name)
        if f is None:
            raise Unsupported("DataFrame.%s" % name)
        return Builtin("DataFrame." + name, lambda e, s, a, k, n: f(e, s, a, k, n))

    @staticmethod
    def _plain(v):
        def g(ex, st, args, kw, node):
            if args or kw:
                raise Unsupported("to_numpy options")
            return v
        return g

    def transposed(self, ex, st):
        if self.nodes is not None:
            raise Unsupported("transposed frame with missing rows")
        return Frame(self.cols, self.rows, None, None, lambda s, i, j: self.values(s, j, i), self.dtype)

    def length(self, ex, st):
        return self.rows

    def to_array(self, ex, st):
        if self.nodes is not None:
            raise Unsupported("contents of a frame with missing rows")
        return ex.fnarray(st, [self.rows, self.cols], self.dtype, lambda e, s, p: self.values(s, p[0], p[1]), "frame")

    def reindex(self, ex, st, args, kw, node):
        kw = dict(kw)
        new = args[0] if args else kw.pop("index", None)
        if kw or len(args) > 1 or new is None or self.nodes is not None or self.labels is None:
            raise Unsupported("reindex options")
        new = sp.vector(ex, new, st, "index")
        k = fresh("k")
        s2 = st.copy()
        s2.pc += [cmp("<=", 0, k), cmp("<", k, new.shape[0])]
        if not core.decide_false(s2.pc) and core.prove(eq(ex.read(new, [k], s2, node, check=False), k), s2.pc).status != "proved":
            raise Unsupported("reindex on other labels than 0, 1, 2, ...")
        lab = self.labels
        if sp.increasing(ex, lab, st, node) is not True:
            ex.maybe_raise(fresh("unknown_order", core.B), Exc(ex.exc("ValueError"), ()), st, node)
            raise Unsupported("reindex of labels that do not increase")
        s2 = st.copy()
        s2.pc += [cmp("<=", 0, k), cmp("<", k, self.rows)]
        at = ex.read(lab, [k], s2, node, check=False)
        if not core.decide_false(s2.pc) and core.prove(band(cmp("<=", 0, at), cmp("<", at, new.shape[0])), s2.pc).status != "proved":
            raise Unsupported("labels outside the new index")
        ex.assumed.add(TEXT)
        rd = sp.reader(ex, lab, node)
        return Frame(new.shape[0], self.cols, rd, self.rows, self.values, self.dtype if self.dtype in ("f4", "f8", "FT") else "f8", new)

    def column(self, j):
        return Column(self.rows, self.nodes, self.n, lambda s, r: self.values(s, r, j), self.dtype)

    def apply(self, ex, st, args, kw, node):
        kw = dict(kw)
        if kw.pop("axis", 0) not in (0, "index") or len(args) != 1 or set(kw) & {"raw", "result_type", "args", "by_row", "engine", "engine_kwargs"}:
            raise Unsupported("DataFrame.apply options")
        f = args[0]
        s2 = st.copy()
        j = fresh("column")
        s2.pc += [cmp("<=", 0, j), cmp("<", j, self.cols)]
        probe = ex.call(f, [self.column(j)], kw, s2, node)
        if not isinstance(probe, Column) or probe.nodes is not None:
            raise Unsupported("DataFrame.apply of a function of unknown results")
        return Frame(probe.length_, self.cols, None, None, lambda s, i, j: ex.call(f, [self.column(j)], kw, s, node).values(s, i), probe.dtype, self.labels)

    def interpolate(self, ex, st, args, kw, node):
        axis = kw.get("axis", 0)
        if axis in (1, "columns"):
            raise Unsupported("interpolation along the columns")
        return self.apply(ex, st, [Builtin("interpolate", lambda e, s, a, k, n: interpolate(e, s, a, {x: y for x, y in kw.items() if x != "axis"}, n))], {}, node)


def data_frame(ex, st, args, kw, node):
    names = ["data", "index"]
    a = dict(zip(names, args))
    if len(args) > 2 or set(kw) - set(names) or "data" not in dict(a, **kw):
        raise Unsupported("DataFrame options")
    a.update(kw)
    v = a["data"]
    if isinstance(v, Frame):
        raise Unsupported("DataFrame of a DataFrame")
    v = ex.freeze(v if isinstance(v, View) else ex.to_array(v, st), st)
    if v.ndim != 2:
        raise Unsupported("DataFrame of %d dimensions" % v.ndim)
    lab = a.get("index")
    if lab is None:
        lab = ex.freeze(ex.libs["numpy"].table["arange"].fn(ex, st, [v.shape[0]], {}, node), st)
    lab = sp.vector(ex, lab, st, "index")
    ex.maybe_raise(bnot(eq(lab.shape[0], v.shape[0])), Exc(ex.exc("ValueError"), ()), st, node)
    ex.assumed.add(TEXT)
    return Frame(v.shape[0], v.shape[1], None, None, lambda s, i, j: ex.read(v, [i, j], s, node, check=False), v.dtype, lab)


class _Series(LibObj):
    """The class Series."""

    def hasattr(self, name):
        return name == "interpolate"

    def getattr(self, ex, st, name, node):
        if name == "interpolate":
            return Builtin("Series.interpolate", interpolate)
        raise Unsupported("Series.%s" % name)


def libs():
    return {"pandas": LibModule("pandas", {"DataFrame": Builtin("DataFrame", data_frame), "Series": _Series()})}
