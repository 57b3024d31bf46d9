"""Assumed contracts of scipy.interpolate: interpolating splines and regular grids, as functionals of nodes and values.

What is assumed (and nothing more):
  * an interpolating spline (s=0) through (nodes, values) takes values[q] at nodes[q];
  * of order 1 it is linear between neighbouring nodes (and clamped to the node range by RectBivariateSpline);
  * RectBivariateSpline on a grid is the tensor product: the spline along x of the splines along y of the rows;
  * apart from that the result is an unknown function of (order, nodes, values, position): equal arguments, equal results;
  * RegularGridInterpolator: linear - linear in the cell, continued outside when extrapolating; nearest - the nearest node.
Which node or cell a position falls on is given by untrusted hints of the contract (ex.hints) and verified here.
"""
from fractions import Fraction

import z3

import core
from core import I, RL, Z, add, band, bor, cmp, decide, div, eq, fresh, ite, mul, sub, sym
from cyparse import Unsupported
from exec import Builtin, DType, Exc, LibModule, LibObj, _same
from mem import View

POS = z3.Int("functional_position")
_names = {}


def real(x):
    return Z(x, True) if sym(x) else Fraction(x)


def functional(tag, fns, ranges, st, params):
    """An unknown function of whole sequences (given by their element functions) and of parameters: a function symbol named by
    the structure of the elements, applied to their position-free parts."""
    bodies = []
    for fn, n in zip(fns, ranges):
        s2 = st.copy()
        s2.pc += [cmp("<=", 0, POS), cmp("<", POS, n)]
        v = fn(s2, POS)
        bodies.append(core.norm(core.unfold_all(core.norm(Z(real(v))))))
    args, sk = [], []
    memo = {}

    def has_pos(x):
        k = x.get_id()
        if k not in memo:
            memo[k] = (x.eq(POS) or any(has_pos(c) for c in x.children()), x)
        return memo[k][0]

    shapes = {}

    def shape(x):
        """structure up to the names of the variables (orders the terms of sums and products)"""
        k = x.get_id()
        if k not in shapes:
            if z3.is_int_value(x) or z3.is_rational_value(x):
                shapes[k] = (str(x), x)
            elif x.num_args() == 0:
                shapes[k] = (x.decl().name().split("!")[0], x)
            else:
                cs = [shape(c) for c in x.children()]
                if x.decl().kind() in COMMUTATIVE:
                    cs.sort()
                shapes[k] = ("%s(%s)" % (x.decl().name(), ",".join(cs)), x)
        return shapes[k][0]

    def skeleton(x):
        """x with its maximal position-free subterms abstracted: (structure, term over placeholders)"""
        if not has_pos(x):
            if z3.is_int_value(x) or z3.is_rational_value(x) or z3.is_true(x) or z3.is_false(x):
                return ("c", str(x)), x
            for n, a in enumerate(args):
                if a.eq(x):
                    break
            else:
                args.append(x)
                n = len(args) - 1
            return ("p", n), z3.Const("functional_arg%d%s" % (n, str(x.sort())[0]), x.sort())
        if x.eq(POS):
            return ("pos",), x
        cs = [skeleton(c) for c in (sorted(x.children(), key=shape) if x.decl().kind() in COMMUTATIVE else x.children())]
        return (x.decl().name(), str(x.decl().kind())) + tuple(c[0] for c in cs), x.decl()(*[c[1] for c in cs])
    terms = []
    for b in bodies:
        k, t = skeleton(b)
        sk.append(k)
        terms.append(t)
    ps = [Z(p) for p in params]
    allargs = args + ps
    key = (tag, tuple(sk), tuple(str(a.sort()) for a in allargs))
    if key not in _names:
        _names[key] = "unknown_functional%d" % len(_names)
        FUNCTIONALS[_names[key]] = (tag, terms, [z3.Const("functional_arg%d%s" % (n, str(x.sort())[0]), x.sort()) for n, x in enumerate(args)])
    f = core.uf(_names[key], *([a.sort() for a in allargs] + [RL]))
    return f(*allargs) if allargs else f()


FUNCTIONALS = {}
COMMUTATIVE = (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_AND, z3.Z3_OP_OR)


def expand(ex, st, e):
    """Evaluate the unknown functionals in e again, with the hints that are there now."""
    if not sym(e):
        return e
    e = core.norm(core.unfold_all(core.norm(e)))
    memo = {}

    def go(x):
        k = x.get_id()
        if k in memo:
            return memo[k][0]
        name = x.decl().name() if z3.is_app(x) else ""
        r = x
        if name in FUNCTIONALS:
            tag, terms, holes = FUNCTIONALS[name]
            ch = x.children()
            vals, ps = ch[:len(holes)], ch[len(holes):]
            base = [(h, v) for h, v in zip(holes, vals)]

            def fn(t):
                return lambda s, q: expand_in(ex, s, core.substitute(t, base + [(POS, Z(q))]))
            nodes, values = [fn(t) for t in terms]
            n, v = ps[0], ps[-1]
            if tag.startswith("grid_"):
                r = grid1(ex, st, nodes, n, values, v, tag[5:])
            else:
                o = ps[1]
                clamp = tag.endswith("clamped")
                r = spline1(ex, st, nodes, n, values, v, o.as_long() if z3.is_int_value(o) else o, tag[:-7] if clamp else tag, clamp)
            r = Z(real(r))
        elif x.num_args():
            cs = [go(c) for c in x.children()]
            if any(not a.eq(b) for a, b in zip(cs, x.children())):
                r = x.decl()(*cs)
        memo[k] = (r, x)
        return r
    return core.norm(go(e))


def expand_in(ex, st, e):
    return expand(ex, st, e)


def hints(ex, kind, st, n):
    out = []
    for h in getattr(ex, "hints", {}).get(kind, []):
        q = h(st) if callable(h) else h
        for x in (q if isinstance(q, (list, tuple)) else [q]):
            out.append(x)
    return out


def inside(q, lo, hi):
    return band(cmp("<=", lo, q), cmp("<=", q, hi))


def hat(ex, st, nodes, values, v, q):
    a, b = real(nodes(st, q)), real(nodes(st, add(q, 1)))
    va, vb = real(values(st, q)), real(values(st, add(q, 1)))
    return core.let(add(va, mul(div(sub(v, a), sub(b, a)), sub(vb, va))))


def spline1(ex, st, nodes, n, values, v, k, tag, clamp):
    """The interpolating spline of order k through (nodes(q), values(q)), 0 <= q < n, at v."""
    v = real(v)
    for q in hints(ex, "node", st, n):
        if decide(inside(q, 0, sub(n, 1)), st.pc) is True and decide(eq(real(nodes(st, q)), v), st.pc) is True:
            return values(st, q)
    if not sym(k) and k == 1:
        for q in hints(ex, "cell", st, n):
            if decide(inside(q, 0, sub(n, 2)), st.pc) is not True:
                continue
            if decide(cmp("<=", real(nodes(st, q)), v), st.pc) is True and decide(cmp("<=", v, real(nodes(st, add(q, 1)))), st.pc) is True:
                return hat(ex, st, nodes, values, v, q)
    return functional(tag + ("clamped" if clamp else ""), [nodes, values], [n, n], st, [n, Z(k), v])


def increasing(ex, v, st, node):
    """Are the elements of a vector strictly increasing?"""
    k = fresh("k")
    s2 = st.copy()
    s2.pc += [cmp("<=", 0, k), cmp("<", add(k, 1), v.shape[0])]
    if core.decide_false(s2.pc):
        return True
    return decide(cmp("<", ex.read(v, [k], s2, node, check=False), ex.read(v, [add(k, 1)], s2, node, check=False)), s2.pc)


def vector(ex, x, st, what):
    v = x if isinstance(x, View) else ex.to_array(x, st)
    if not isinstance(v, View) or v.ndim != 1:
        raise Unsupported("%s is not a vector" % what)
    return ex.freeze(v, st)


def must_increase(ex, v, st, node, what):
    r = increasing(ex, v, st, node)
    if r is not True:
        ex.maybe_raise(True if r is False else fresh("unknown_order", core.B), Exc(ex.exc("ValueError"), (what,)), st, node)


def reader(ex, fr, node=None):
    return lambda st, *p: ex.read(fr, list(p), st, node, check=False)


class Bivariate(LibObj):
    def __init__(self, x, y, z, kx, ky):
        self.x, self.y, self.z, self.kx, self.ky = x, y, z, kx, ky

    def hasattr(self, name):
        return name in ("ev", "__call__", "get_coeffs", "get_knots", "get_residual", "partial_derivative", "integral", "tck", "fp", "degrees")

    def getattr(self, ex, st, name, node):
        if name == "ev":
            return Builtin("ev", lambda e, s, a, k, n: self.call(e, s, a, dict(k, grid=False), n))
        if name == "__call__":
            return Builtin("__call__", lambda e, s, a, k, n: self.call(e, s, a, k, n))
        raise Unsupported("RectBivariateSpline.%s" % name)

    def call(self, ex, st, args, kw, node):
        names = ["x", "y", "dx", "dy", "grid"]
        a = dict(zip(names, args))
        a.update(kw)
        dx, dy, grid = a.get("dx", 0), a.get("dy", 0), a.get("grid", True)
        if sym(dx) or sym(dy) or sym(grid):
            raise Unsupported("RectBivariateSpline options")
        tag = "spline" if not (dx or dy) else "spline_derivative_%s_%s" % (dx, dy)
        nx, ny = self.z.shape
        X, Y, ZZ = reader(ex, self.x), reader(ex, self.y), reader(ex, self.z)

        def value(s, u, v):
            row = lambda s2, r: spline1(ex, s2, Y, ny, lambda s3, c: ZZ(s3, r, c), v, self.ky, tag, True)  # noqa: E731
            return spline1(ex, s, X, nx, row, u, self.kx, tag, True)
        if tag != "spline":
            value = lambda s, u, v: fresh("unknown_derivative", RL)  # noqa: E731
        if grid:
            u, v = vector(ex, a["x"], st, "x"), vector(ex, a["y"], st, "y")
            # evaluation on a grid wants nondecreasing positions
            for w, what in ((u, "x"), (v, "y")):
                if not nondecreasing(ex, w, st, node):
                    ex.maybe_raise(fresh("unknown_order", core.B), Exc(ex.exc("ValueError"), ()), st, node)
            ru, rv = reader(ex, u), reader(ex, v)
            return ex.fnarray(st, [u.shape[0], v.shape[0]], "f8", lambda e, s, p: value(s, ru(s, p[0]), rv(s, p[1])), "spline")
        u, v = [w if isinstance(w, View) else ex.to_array(w, st) for w in (a["x"], a["y"])]
        if u.ndim != v.ndim or not all(_same(p, q) or decide(eq(p, q), st.pc) is True for p, q in zip(u.shape, v.shape)):
            raise Unsupported("broadcast positions")
        fu, fv = ex.freeze(u, st), ex.freeze(v, st)
        return ex.fnarray(st, list(u.shape), "f8", lambda e, s, p: value(s, e.read(fu, list(p), s, node, check=False), e.read(fv, list(p), s, node, check=False)), "spline")


def nondecreasing(ex, v, st, node):
    k = fresh("k")
    s2 = st.copy()
    s2.pc += [cmp("<=", 0, k), cmp("<", add(k, 1), v.shape[0])]
    if core.decide_false(s2.pc):
        return True
    return decide(cmp("<=", ex.read(v, [k], s2, node, check=False), ex.read(v, [add(k, 1)], s2, node, check=False)), s2.pc) is True


def bivariate(ex, st, args, kw, node):
    names = ["x", "y", "z", "bbox", "kx", "ky", "s", "maxit"]
    if len(args) > len(names) or set(kw) - set(names):
        ex.maybe_raise(True, Exc(ex.exc("TypeError"), ()), st, node)
    a = dict(zip(names, args))
    a.update(kw)
    if "bbox" in a and not (isinstance(a["bbox"], tuple) and all(b is None for b in a["bbox"])):
        raise Unsupported("RectBivariateSpline bbox")
    s, kx, ky = a.get("s", 0), a.get("kx", 3), a.get("ky", 3)
    if not core.is_num(s) or not core.is_int(kx) or not core.is_int(ky):
        raise Unsupported("RectBivariateSpline options")
    x, y = vector(ex, a["x"], st, "x"), vector(ex, a["y"], st, "y")
    z = a["z"] if isinstance(a["z"], View) else ex.to_array(a["z"], st)
    if z.ndim != 2:
        raise Unsupported("RectBivariateSpline values")
    z = ex.freeze(z, st)
    ex.assumed.add("scipy.interpolate.RectBivariateSpline (s=0): tensor product of interpolating splines of the given orders, clamped to the node range; takes the values at the "
                   "nodes, is linear between nodes for order 1, and is otherwise an unspecified function of order, nodes, values and position; raises ValueError on shapes or orders that do not fit")
    must_increase(ex, x, st, node, "x must be strictly increasing")
    must_increase(ex, y, st, node, "y must be strictly increasing")
    bad = bor(cmp("!=", x.shape[0], z.shape[0]), cmp("!=", y.shape[0], z.shape[1]))
    ex.maybe_raise(bad, Exc(ex.exc("ValueError"), ()), st, node)
    ex.maybe_raise(bor(cmp("<=", x.shape[0], kx), cmp("<=", y.shape[0], ky), cmp("<", kx, 1), cmp("<", ky, 1), cmp(">", kx, 5), cmp(">", ky, 5)), Exc(ex.exc("Exception"), ()), st, node)
    r = Bivariate(x, y, z, kx, ky)
    if sym(s) or s != 0:
        r.call = lambda *a: (_ for _ in ()).throw(Unsupported("smoothing spline"))
    return r


class Tck(LibObj):
    def __init__(self, x, y, k):
        self.x, self.y, self.k = x, y, k

    def hasattr(self, name):
        return False

    def getattr(self, ex, st, name, node):
        raise Unsupported("tck.%s" % name)


def splrep(ex, st, args, kw, node):
    names = ["x", "y", "w", "xb", "xe", "k", "task", "s", "t", "full_output", "per", "quiet"]
    a = dict(zip(names, args))
    a.update(kw)
    if set(a) - {"x", "y", "k", "s"} or a.get("s", None) is None and "w" in a:
        raise Unsupported("splrep options")
    s = a.get("s", 0)
    if sym(s) or s not in (None, 0):
        raise Unsupported("smoothing spline")
    k = a.get("k", 3)
    x, y = vector(ex, a["x"], st, "x"), vector(ex, a["y"], st, "y")
    ex.assumed.add("scipy.interpolate.splrep/splev (s=0): interpolating spline of the given order; takes the values at the nodes, is linear between nodes for order 1, and is "
                   "otherwise an unspecified function of order, nodes, values and position")
    must_increase(ex, x, st, node, "x must be increasing")
    ex.maybe_raise(cmp("!=", x.shape[0], y.shape[0]), Exc(ex.exc("TypeError"), ()), st, node)
    ex.maybe_raise(bor(cmp("<=", x.shape[0], k), cmp("<", k, 1), cmp(">", k, 5)), Exc(ex.exc("TypeError"), ()), st, node)
    return Tck(x, y, k)


def splev(ex, st, args, kw, node):
    names = ["x", "tck", "der", "ext"]
    a = dict(zip(names, args))
    a.update(kw)
    t = a["tck"]
    if not isinstance(t, Tck) or sym(a.get("der", 0)) or a.get("der", 0) != 0 or a.get("ext", 0) != 0:
        raise Unsupported("splev options")
    X, Y = reader(ex, t.x), reader(ex, t.y)
    v = vector(ex, a["x"], st, "positions")
    rv = reader(ex, v)
    return ex.fnarray(st, list(v.shape), "f8", lambda e, s, p: spline1(e, s, X, t.x.shape[0], Y, rv(s, p[0]), t.k, "splrep", False), "splev")


# ------------------------------------------------------------------ RegularGridInterpolator
class RegularGrid(LibObj):
    def __init__(self, points, values, method, bounds_error, fill):
        self.points, self.values, self.method, self.bounds_error, self.fill = points, values, method, bounds_error, fill

    def hasattr(self, name):
        return name in ("method", "bounds_error", "fill_value", "values", "grid", "__call__")

    def getattr(self, ex, st, name, node):
        if name == "__call__":
            return Builtin("__call__", lambda e, s, a, k, n: self.call(e, s, a, k, n))
        if name in ("method", "bounds_error"):
            return getattr(self, name)
        if name == "fill_value":
            return self.fill
        if name == "values":
            return self.values
        if name == "grid":
            return tuple(self.points)
        raise Unsupported("RegularGridInterpolator.%s" % name)

    def call(self, ex, st, args, kw, node):
        names = ["xi", "method", "nu"]
        a = dict(zip(names, args))
        a.update(kw)
        if set(a) - set(names):
            ex.maybe_raise(True, Exc(ex.exc("TypeError"), ()), st, node)
        method = a.get("method")
        method = self.method if method is None else method
        if not isinstance(method, str) or a.get("nu") is not None:
            raise Unsupported("RegularGridInterpolator options")
        if method not in METHODS:
            ex.maybe_raise(True, Exc(ex.exc("ValueError"), ()), st, node)
        its = a["xi"]
        if isinstance(its, View):
            raise Unsupported("array of positions")
        its = [x if isinstance(x, View) else ex.to_array(x, st) for x in ex.items(its, st)]
        if len(its) != len(self.points):
            ex.maybe_raise(True, Exc(ex.exc("ValueError"), ()), st, node)
        shape = its[0].shape
        for x in its[1:]:
            if x.ndim != len(shape) or not all(_same(p, q) or decide(eq(p, q), st.pc) is True for p, q in zip(x.shape, shape)):
                raise Unsupported("broadcast positions")
        fr = [ex.freeze(x, st) for x in its]
        grids = [reader(ex, p) for p in self.points]
        ns = [p.shape[0] for p in self.points]
        V = reader(ex, self.values)
        ends = [(real(g(st, 0)), real(g(st, sub(n, 1)))) for g, n in zip(grids, ns)]

        def out_of(s, p):
            r = []
            for x, (lo, hi) in zip(fr, ends):
                u = real(ex.read(x, list(p), s, node, check=False))
                r += [cmp("<", u, lo), cmp(">", u, hi)]
            return bor(*r)
        if self.bounds_error:
            p = [fresh("p") for _ in shape]
            s2 = st.copy()
            for k, n in zip(p, shape):
                s2.pc += [cmp("<=", 0, k), cmp("<", k, n)]
            if not core.decide_false(s2.pc):
                d = decide(out_of(s2, p), s2.pc)
                if d is not False:
                    ex.maybe_raise(fresh("unknown_out_of_bounds", core.B), Exc(ex.exc("ValueError"), ()), st, node)

        def at(e, s, p):
            us = [real(e.read(x, list(p), s, node, check=False)) for x in fr]
            if not self.bounds_error and self.fill is not None:
                o = decide(out_of(s, p), s.pc)
                if o is not False:
                    f = real(self.fill) if core.is_num(self.fill) else fresh("unknown_nan", RL)
                    return f if o is True else ite(out_of(s, p), f, value(s, us, method))
            return value(s, us, method)

        def value(s, us, method):
            def along(d, s, idx):
                if d == len(us):
                    return V(s, *idx)
                return grid1(ex, s, grids[d], ns[d], lambda s2, q: along(d + 1, s2, idx + [q]), us[d], method)
            return along(0, s, [])
        dt = self.values.dtype if self.values.dtype in ("FT", "f4", "f8") else "f8"
        return ex.fnarray(st, list(shape), dt, at, "regular_grid")


METHODS = ("linear", "nearest", "slinear", "cubic", "quintic", "pchip")


def grid1(ex, st, nodes, n, values, v, method):
    """One dimension of the tensor product: at a node, in a cell (linear, continued outside the first and last), or the nearest node."""
    qs = hints(ex, "node", st, n)
    for q in qs:
        if decide(inside(q, 0, sub(n, 1)), st.pc) is True and decide(eq(real(nodes(st, q)), v), st.pc) is True:
            return values(st, q)
    if method in ("linear", "slinear"):
        for q in hints(ex, "cell", st, n):
            if decide(inside(q, 0, sub(n, 2)), st.pc) is not True:
                continue
            lo = bor(eq(q, 0), cmp("<=", real(nodes(st, q)), v))
            hi = bor(eq(q, sub(n, 2)), cmp("<=", v, real(nodes(st, add(q, 1)))))
            if method == "slinear":
                lo, hi = cmp("<=", real(nodes(st, q)), v), cmp("<=", v, real(nodes(st, add(q, 1))))
            if decide(lo, st.pc) is True and decide(hi, st.pc) is True:
                return hat(ex, st, nodes, values, v, q)
    if method == "nearest":
        for q in hints(ex, "nearest", st, n) + qs:
            if decide(inside(q, 0, sub(n, 1)), st.pc) is not True:
                continue
            ok = True
            for side in (-1, 1):
                end = eq(q, 0) if side < 0 else eq(q, sub(n, 1))
                if decide(end, st.pc) is True:
                    continue
                s2 = st.copy()
                s2.pc.append(core.bnot(end))
                other = real(nodes(s2, add(q, side)))
                mid = mul(Fraction(2), v)
                s = add(other, real(nodes(s2, q)))
                ok = decide(cmp(">", mid, s) if side < 0 else cmp("<", mid, s), s2.pc) is True and ok
            if ok:
                return values(st, q)
    return functional("grid_" + method, [nodes, values], [n, n], st, [n, v])


def regular(ex, st, args, kw, node):
    names = ["points", "values", "method", "bounds_error", "fill_value"]
    a = dict(zip(names, args))
    a.update(kw)
    if set(a) - set(names) - {"solver", "solver_args"} or len(args) > len(names):
        ex.maybe_raise(True, Exc(ex.exc("TypeError"), ()), st, node)
    if "solver" in a or "solver_args" in a:
        raise Unsupported("RegularGridInterpolator options")
    ex.assumed.add("scipy.interpolate.RegularGridInterpolator: tensor product; linear - linear in the cell of the position (continued from the outermost cells when extrapolating); nearest - the "
                   "nearest node; every method takes the values at the nodes; positions outside raise ValueError unless bounds_error is False; the result has the dtype of floating values")
    pts = [vector(ex, p, st, "points") for p in ex.items(a["points"], st)]
    v = a["values"] if isinstance(a["values"], View) else ex.to_array(a["values"], st)
    method, be, fill = a.get("method", "linear"), a.get("bounds_error", True), a.get("fill_value", "nan")
    if not isinstance(method, str) or sym(be):
        raise Unsupported("RegularGridInterpolator options")
    if method not in METHODS or len(pts) > v.ndim:
        ex.maybe_raise(True, Exc(ex.exc("ValueError"), ()), st, node)
    if len(pts) != v.ndim:
        raise Unsupported("RegularGridInterpolator values")
    for p, n in zip(pts, v.shape):
        must_increase(ex, p, st, node, "points must be strictly ascending")
        ex.maybe_raise(cmp("!=", p.shape[0], n), Exc(ex.exc("ValueError"), ()), st, node)
        k = {"linear": 1, "nearest": 0, "slinear": 1, "cubic": 3, "quintic": 5, "pchip": 3}[method]
        if k > 1:
            ex.maybe_raise(cmp("<=", n, k), Exc(ex.exc("ValueError"), ()), st, node)
    return RegularGrid(pts, ex.freeze(v, st), method, be is not False and be is not None and be != 0, fill)


def libs():
    b = lambda n, f: Builtin(n, f)  # noqa: E731
    cls = {"RectBivariateSpline": b("RectBivariateSpline", bivariate), "splrep": b("splrep", splrep), "splev": b("splev", splev),
           "RegularGridInterpolator": b("RegularGridInterpolator", regular)}
    return {"scipy.interpolate": LibModule("scipy.interpolate", cls)}
