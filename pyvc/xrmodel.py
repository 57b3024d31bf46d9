"""Assumed contracts of xarray: labelled arrays without alignment, and linear interpolation along an evenly spaced coordinate."""
from fractions import Fraction

import ast

import z3

import core
from core import Z, add, band, bnot, cmp, eq, fresh, is_num, ite, mul, sub, sym
from cyparse import Unsupported
from exec import Builtin, DictObj, DType, Exc, LibModule, LibObj, ListObj, PyRaise
from mem import View, idiv
from scimodel import clampi


def digits(x, i, n, st):
    """x with the index i, 0 <= i < n = N * B, written q * B + r where x uses i div B."""
    if not sym(x):
        return x, st
    x = core.norm(Z(x))
    for e in core.subterms(x).values():
        if e.decl().kind() == z3.Z3_OP_IDIV and e.arg(0).eq(i):
            b = e.arg(1)
            s = st.copy()
            s.pc.append(cmp(">", b, 0))
            m = idiv(n, b, s.pc)
            if core.decide(cmp(">", b, 0), st.pc) is not True or core.prove(eq(n, mul(m, b)), st.pc).status != "proved":
                continue
            for k in core.subterms(Z(m)).values():       # a quotient that is exact
                if k.decl().kind() == z3.Z3_OP_IDIV:
                    k2 = idiv(core.norm(k.arg(0)), k.arg(1), s.pc)
                    m = core.norm(z3.substitute(Z(m), (k, Z(k2))))
            q, r = fresh("q"), fresh("r")
            s.pc = [p for p in st.pc if not (sym(p) and any(y.eq(i) for y in core.subterms(p).values()))]
            s.pc += [cmp("<=", 0, q), cmp("<", q, m), cmp("<=", 0, r), cmp("<", r, b)]
            return core.norm(z3.substitute(x, (e, q), (i, Z(add(mul(q, b), r))))), s
    return x, st


class DataArray(LibObj):
    """data, dimension names and (per dimension) a coordinate array; attributes and names are not modelled."""

    def __init__(self, data, dims, coords=None):
        self.data, self.dims, self.coords = data, tuple(dims), dict(coords or {})

    # ------------------------------------------------------------ attributes
    def hasattr(self, name):
        return name in ("data", "dims", "shape", "ndim", "dtype", "values", "coords", "size", "assign_coords", "interp", "drop_vars", "chunks", "compute")

    def getattr(self, ex, st, name, node):
        if name == "dims":
            return self.dims
        if name in ("shape", "ndim", "dtype", "size"):
            if isinstance(self.data, LibObj):
                return self.data.getattr(ex, st, name, node)
            return ex.array_attr(self.data, name, st, node)
        if name in ("data", "values"):
            return self.data
        f = {"assign_coords": self.assign_coords, "interp": self.interp, "drop_vars": self.drop_vars}.get(name)
        if f is None:
            if name in ("max", "min"):
                from npmodel import reduce_extreme
                return Builtin(name, lambda ex2, s2, a, k, n: reduce_extreme(name)(ex2, s2, [self.data] + list(a), k, n))
            raise Unsupported("DataArray.%s" % name)
        return Builtin("DataArray." + name, lambda ex2, s2, a, k, n: f(ex2, s2, a, k, n))

    def assign_coords(self, ex, st, args, kw, node):
        d = self._dict(ex, st, args, kw)
        co = dict(self.coords)
        for k, v in d.items():
            if k not in self.dims:
                raise Unsupported("coordinate that is not a dimension")
            v = ex.freeze(ex.to_array(v, st), st)
            if v.ndim != 1:
                raise Unsupported("coordinate of several dimensions")
            n = ex.getattr(self, "shape", st, node)[self.dims.index(k)]
            ex.maybe_raise(bnot(eq(v.shape[0], n)), Exc(ex.exc("ValueError")), st, node)
            co[k] = v
        return DataArray(self.data, self.dims, co)

    @staticmethod
    def _dict(ex, st, args, kw):
        d = dict(kw)
        for a in args[:1]:
            if not isinstance(a, DictObj):
                raise Unsupported("coordinate mapping")
            d.update(st.heap[a.id])
        return d

    def drop_vars(self, ex, st, args, kw, node):
        names = args[0]
        names = [names] if isinstance(names, str) else list(ex.items(names, st))
        co = dict(self.coords)
        for n in names:
            if n not in co:
                raise PyRaise(Exc(ex.exc("ValueError")), st)
            del co[n]
        return DataArray(self.data, self.dims, co)

    def interp(self, ex, st, args, kw, node):
        kw = dict(kw)
        linear = kw.pop("method", "linear") == "linear"
        kw.pop("assume_sorted", None)
        plain = not kw.pop("kwargs", None)
        d = self._dict(ex, st, args, kw)
        r = self
        for dim, grid in d.items():
            if dim not in self.dims or dim not in self.coords or not isinstance(r.data, View):
                raise Unsupported("interp along %s" % dim)
            ax = self.dims.index(dim)
            grid = ex.freeze(ex.to_array(grid, st), st)
            src, co = ex.freeze(r.data, st), r.coords[dim]
            new = self.along(ex, st, src, ax, co, grid, linear and plain, node)
            coords = dict(r.coords)
            coords[dim] = grid
            r = DataArray(new, self.dims, coords)
        return r

    def along(self, ex, st, src, ax, co, grid, known, node):
        ex.assumed.add("xarray.DataArray.interp is linear interpolation between the two neighbouring coordinates inside the range of the coordinate, NaN outside")
        n = src.shape[ax]
        # the coordinate must be evenly spaced: c0 + k * step
        k = fresh("x")
        s2 = st.copy()
        s2.pc += [cmp("<=", 0, k), cmp("<", k, n)]
        c = ex.read(co, [k], s2, node, check=False)
        c0 = ex.read(co, [0], s2, node, check=False)
        step = sub(ex.read(co, [1], s2, node, check=False), c0)
        step = core.norm(Z(step))
        if z3.is_int_value(step):
            step = step.as_long()
        if not (core.is_int(step)) or core.prove(eq(c, add(c0, mul(step, k))), s2.pc).status != "proved":
            raise Unsupported("interp along an uneven coordinate")
        ex.oblige("domain", cmp(">", step, 0), st, node, "the coordinate along which interp works increases")
        ex.oblige("domain", cmp(">=", n, 2), st, node, "interp works along at least two coordinates")
        i = fresh("x")
        s3 = st.copy()
        s3.pc += [cmp("<=", 0, i), cmp("<", i, grid.shape[0])]
        x = ex.read(grid, [i], s3, node, check=False)
        if not core.is_int(x):
            raise Unsupported("interp at real positions")
        last = ex.read(co, [sub(n, 1)], s3, node, check=False)
        x, s3 = digits(x, i, grid.shape[0], s3)
        ex.oblige("domain", band(cmp("<=", c0, x), cmp("<=", x, last)), s3, node, "interp is evaluated inside the range of its coordinate (NaN outside)")
        shape = list(src.shape)
        shape[ax] = grid.shape[0]

        def base(e, s, p):
            if not known:
                return fresh("unknown_interp", core.RL)
            x = e.read(grid, [p[ax]], s, node, check=False)
            u = sub(x, c0)
            q = core.norm(Z(clampi(idiv(u, step, s.pc), 0, sub(n, 2))))
            t = core.div(sub(Z(u, True) if sym(u) else Fraction(u), mul(Z(q, True), Z(step, True) if sym(step) else Fraction(step))), Z(step, True) if sym(step) else Fraction(step))
            lo, hi = list(p), list(p)
            lo[ax], hi[ax] = q, add(q, 1)
            a, b = e.read(src, lo, s, node, check=False), e.read(src, hi, s, node, check=False)
            return core.let(add(mul(sub(Fraction(1), t), a), mul(t, b)))
        return ex.fnarray(st, shape, src.dtype, base, "interp")

    # ------------------------------------------------------------ arithmetic
    def lift(self, ex, st, args, f):
        dims = None
        vs = []
        for a in args:
            if isinstance(a, DataArray):
                if a.coords or not isinstance(a.data, View):
                    raise Unsupported("arithmetic on coordinates")
                if dims is not None and a.dims != dims:
                    raise Unsupported("arithmetic on different dimensions")
                dims = a.dims
                vs.append(a.data)
            elif is_num(a):
                vs.append(a)
            else:
                raise Unsupported("arithmetic of DataArray and %s" % type(a).__name__)
        # arrays without coordinates must have equal shapes
        ds = [v for v in vs if isinstance(v, View)]
        for v in ds[1:]:
            for x, y in zip(v.shape, ds[0].shape):
                ex.maybe_raise(bnot(eq(x, y)), Exc(ex.exc("ValueError")), st, None)
        r = f(vs)
        return DataArray(r, dims) if isinstance(r, View) else r

    def ufunc(self, ex, st, name, args, node):
        return self.lift(ex, st, args, lambda vs: ex.call(ex.libs["numpy"].table[name], vs, {}, st, node))

    def binop(self, ex, st, op, a, b, node):
        return self.lift(ex, st, [a, b], lambda vs: ex.binop(op, vs[0], vs[1], st, node, None))

    def compare(self, ex, st, op, a, b, node):
        return self.lift(ex, st, [a, b], lambda vs: ex.array_map(lambda s2, x, y: cmp(op, x, y), vs, "bool", st, node) if any(isinstance(v, View) for v in vs) else cmp(op, *vs))

    def unary(self, ex, st, op, node):
        if not isinstance(op, ast.USub):
            raise Unsupported("unary operator on DataArray")
        return self.lift(ex, st, [self], lambda vs: ex.call(ex.libs["numpy"].table["negative"], vs, {}, st, node))

    def to_array(self, ex, st):
        if not isinstance(self.data, View):
            raise Unsupported("DataArray of a lazy array")
        return self.data

    to_numpy = to_array


def x_where(ex, st, args, kw, node):
    if not any(isinstance(a, DataArray) for a in args):
        return ex.call(ex.libs["numpy"].table["where"], args, kw, st, node)
    d = [a for a in args if isinstance(a, DataArray)][0]
    return d.lift(ex, st, args, lambda vs: ex.call(ex.libs["numpy"].table["where"], vs, {}, st, node))


def x_dataarray(ex, st, args, kw, node):
    dims = args[2] if len(args) > 2 else kw.get("dims")
    if len(args) == 2 and args[1] is not None or kw.get("coords") is not None or dims is None:
        raise Unsupported("DataArray with coordinates")
    v = args[0]
    if isinstance(v, DataArray):
        v = v.data
    if not isinstance(v, LibObj):
        v = ex.to_array(v, st)
    return DataArray(v, ex.items(dims, st))


def libs():
    x = {"DataArray": Builtin("DataArray", x_dataarray), "where": Builtin("xarray.where", x_where)}
    return {"xarray": LibModule("xarray", x)}
