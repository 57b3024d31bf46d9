"""Assumed contracts of the language runtime and of numpy / libc.math, as far as the package uses them."""
import ast
from fractions import Fraction

import z3

import core
from core import (I, RL, B, PI, Z, add, band, bnot, bor, cmp, decide, div, eq, fresh, frac, is_bool, is_int, is_num, is_real, ite, mul, neg, sub, sym, uf)
from cyparse import Unsupported
from exec import (Builtin, DictObj, DType, Exc, ExcClass, FLOATDT, FuncVal, Inst, ClassVal, LibModule, LibObj, ListObj, PyRaise, PySlice, RangeVal, SymSeq,
                  promote, trunc, _same)
from mem import UNINIT, View, idiv

SIN, COS, ASIN, ACOS, SQRT = (uf(n, RL, RL) for n in ("sin", "cos", "asin", "acos", "sqrt"))
ATAN2 = uf("atan2", RL, RL, RL)


@core.fact("sin")
def _f(x):
    return [x <= 1, x >= -1]


@core.fact("cos")
def _f(x):
    return [x <= 1, x >= -1]


@core.fact("sqrt")
def _f(x):
    return [z3.Implies(x.arg(0) >= 0, z3.And(x >= 0, x * x == x.arg(0)))]


def R(x):
    return Z(x, True)


def sin(x):
    return SIN(core.norm(R(x)))


def cos(x):
    return COS(core.norm(R(x)))


def asin(x):
    return ASIN(core.norm(R(x)))


def acos(x):
    return ACOS(core.norm(R(x)))


def sqrt(x):
    return SQRT(core.norm(R(x)))


def atan2(y, x):
    return ATAN2(core.norm(R(y)), core.norm(R(x)))


def deg2rad(x):
    return mul(R(x), div(PI, Fraction(180)))


def rad2deg(x):
    return mul(R(x), div(Fraction(180), PI))


def sign(x):
    z = Fraction(0) if is_real(x) else 0
    o = Fraction(1) if is_real(x) else 1
    return ite(cmp(">", x, 0), o, ite(cmp("<", x, 0), -o, z))


def absval(x):
    return ite(cmp(">=", x, 0), x, neg(x))


def dom_unit(ex, st, x, node, name):
    ex.oblige("domain", band(cmp(">=", x, -1), cmp("<=", x, 1)), st, node, "argument of %s lies in [-1, 1]" % name)


def dom_sqrt(ex, st, x, node, name):
    ex.oblige("domain", cmp(">=", x, 0), st, node, "argument of sqrt is not negative")


UNARY = {
    "sin": (sin, None), "cos": (cos, None), "asin": (asin, dom_unit), "acos": (acos, dom_unit), "arcsin": (asin, dom_unit), "arccos": (acos, dom_unit),
    "sqrt": (sqrt, dom_sqrt), "deg2rad": (deg2rad, None), "rad2deg": (rad2deg, None), "radians": (deg2rad, None), "degrees": (rad2deg, None),
    "fabs": (lambda x: absval(R(x)), None),
}
KEEP = {"sign": sign, "abs": absval, "absolute": absval, "negative": neg}


def libufunc(args):
    for a in args:
        if isinstance(a, LibObj) and hasattr(a, "ufunc"):
            return a
    return None


def with_out(f):
    """A ufunc: the result may be stored in a given array."""
    def g(ex, st, args, kw, node):
        kw = dict(kw)
        out = kw.pop("out", None)
        if isinstance(out, tuple) and len(out) == 1:
            out = out[0]
        if kw:
            raise Unsupported("ufunc options %s" % ", ".join(kw))
        if out is None:
            return f(ex, st, args, kw, node)
        if not isinstance(out, View) or any(isinstance(a, LibObj) for a in args):
            raise Unsupported("ufunc output")
        r = f(ex, st, [ex.freeze(a, st) if isinstance(a, View) else a for a in args], kw, node)
        if isinstance(r, View):
            if r.ndim != out.ndim:
                raise Unsupported("ufunc output")
            ex.maybe_raise(bnot(band(*[eq(a, b) for a, b in zip(r.shape, out.shape)])), Exc(EXC["ValueError"]), st, node)
        ex.assign_array(out, r, st, node)
        return out
    return g


def unary(name):
    f, dom = UNARY[name]

    def g(ex, st, args, kw, node):
        x, = args
        o = libufunc(args)
        if o is not None:
            return o.ufunc(ex, st, name, args, node)
        if isinstance(x, (tuple, ListObj, SymSeq)):
            x = ex.to_array(x, st)
        if isinstance(x, View):
            dt = x.dtype if x.dtype in FLOATDT else "f8"
            ob = (lambda s2, v: dom(ex, s2, v, node, name)) if dom else None
            return ex.array_map(lambda s2, v: f(v), [x], dt, st, node, ob)
        if not is_num(x):
            raise Unsupported("%s of %s" % (name, type(x).__name__))
        if dom:
            dom(ex, st, x, node, name)
        return f(x)
    return Builtin(name, with_out(g))


def keep(name):
    f = KEEP[name]

    def g(ex, st, args, kw, node):
        x, = args
        o = libufunc(args)
        if o is not None:
            return o.ufunc(ex, st, name, args, node)
        if isinstance(x, (tuple, ListObj, SymSeq)):
            x = ex.to_array(x, st)
        if isinstance(x, View):
            return ex.array_map(lambda s2, v: f(v), [x], x.dtype, st, node)
        if not is_num(x):
            raise Unsupported("%s of %s" % (name, type(x).__name__))
        return f(x)
    return Builtin(name, with_out(g))


def binary(name, f, dt=None):
    def g(ex, st, args, kw, node):
        o = libufunc(args)
        if o is not None:
            return o.ufunc(ex, st, name, args, node)
        a, b = [ex.to_array(x, st) if isinstance(x, (tuple, ListObj, SymSeq)) else x for x in args]
        if isinstance(a, View) or isinstance(b, View):
            d = dt or ex.result_dtype([a, b])
            if name == "arctan2" and d not in FLOATDT:
                d = "f8"
            return ex.array_map(lambda s2, x, y: f(x, y), [a, b], d, st, node)
        return f(a, b)
    return Builtin(name, with_out(g))


def np_compare(name, op):
    return binary(name, lambda x, y: cmp(op, x, y), "bool")


def np_logical(name, f):
    return binary(name, lambda x, y: f(x if is_bool(x) else cmp("!=", x, 0), y if is_bool(y) else cmp("!=", y, 0)), "bool")


# ------------------------------------------------------------------ builtins
EXC = {}
for _n, _b in [("BaseException", None), ("Exception", "BaseException"), ("ValueError", "Exception"), ("TypeError", "Exception"), ("LookupError", "Exception"),
               ("IndexError", "LookupError"), ("KeyError", "LookupError"), ("AttributeError", "Exception"), ("RuntimeError", "Exception"),
               ("NotImplementedError", "RuntimeError"), ("NameError", "Exception"), ("AssertionError", "Exception"), ("ImportError", "Exception"),
               ("ArithmeticError", "Exception"), ("ZeroDivisionError", "ArithmeticError"), ("OverflowError", "ArithmeticError"), ("StopIteration", "Exception"),
               ("UserWarning", "Exception"), ("DeprecationWarning", "Exception")]:
    EXC[_n] = ExcClass(_n, (EXC[_b],) if _b else ())


def b_range(ex, st, args, kw, node, prange=False):
    args = list(args)
    for a in args:
        if not is_num(a):
            raise Unsupported("range of %s" % type(a).__name__)
        if is_real(a):
            raise PyRaise(Exc(EXC["TypeError"]), st)
    if len(args) == 1:
        return RangeVal(0, args[0], 1, prange)
    step = args[2] if len(args) == 3 else 1
    if decide(eq(step, 0), st.pc) is not False:
        ex.maybe_raise(eq(step, 0), Exc(EXC["ValueError"]), st, node)
    if sym(step) and decide(cmp(">", step, 0), st.pc) is not True:
        raise Unsupported("range step of unknown sign")
    return RangeVal(args[0], args[1], step, prange)


def b_prange(ex, st, args, kw, node):
    return b_range(ex, st, args, {}, node, prange=True)


def b_len(ex, st, args, kw, node):
    v = args[0]
    if isinstance(v, View):
        if not v.ndim:
            raise PyRaise(Exc(EXC["TypeError"]), st)
        return v.shape[0]
    if isinstance(v, (tuple, str)):
        return len(v)
    if isinstance(v, (ListObj, DictObj)):
        return len(st.heap[v.id])
    if isinstance(v, SymSeq):
        return v.length
    if isinstance(v, RangeVal):
        n = ex.range_count(v, st)
        return n if decide(cmp(">=", n, 0), st.pc) is True else ite(cmp(">=", n, 0), n, 0)
    if isinstance(v, LibObj) and hasattr(v, "length"):
        return v.length(ex, st)
    if is_num(v) or v is None:
        raise PyRaise(Exc(EXC["TypeError"]), st)
    raise Unsupported("len of %s" % type(v).__name__)


def minmax(op):
    def g(ex, st, args, kw, node):
        if kw:
            raise Unsupported("min/max with keywords")
        xs = args if len(args) > 1 else ex.items(args[0], st)
        if not xs:
            raise PyRaise(Exc(EXC["ValueError"]), st)
        r = xs[0]
        for x in xs[1:]:
            if not is_num(r) or not is_num(x):
                raise Unsupported("min/max of objects")
            r = ite(cmp(op, x, r), x, r)
        return r
    return g


def b_abs(ex, st, args, kw, node):
    return keep("abs").fn(ex, st, args, kw, node)


def b_sum(ex, st, args, kw, node):
    v = args[0]
    if isinstance(v, SymSeq):
        if getattr(v, "sum", None) is not None:
            return v.sum
        if sym(v.length):
            raise Unsupported("sum of a symbolic sequence")
    r = args[1] if len(args) > 1 else 0
    for x in ex.items(v, st):
        r = ex.binop(ast.Add(), r, x, st, node, None)
    return r


def b_all(ex, st, args, kw, node):
    v = args[0]
    if isinstance(v, SymSeq) and sym(v.length):
        k = fresh("q")
        s2 = st.copy()
        s2.pc += [cmp("<=", 0, k), cmp("<", k, v.length)]
        t = ex.truth(v.fn(k), s2, node)
        if decide(t, s2.pc) is True:
            return True
        b = fresh("all", B)
        body = t if sym(t) else z3.BoolVal(bool(t))
        core.add_def(b, b == z3.ForAll([k], z3.Implies(z3.And(k >= 0, Z(k) < Z(v.length)), body)))
        b_all.defs[b.decl().name()] = (k, v.length, body)
        return b
    return band(*[ex.truth(x, st, node) for x in ex.items(v, st)])


b_all.defs = {}


def b_any(ex, st, args, kw, node):
    v = args[0]
    if isinstance(v, SymSeq) and sym(v.length):
        neg_ = SymSeq(v.length, lambda k: bnot(ex.truth(v.fn(k), st, node)))
        return bnot(b_all(ex, st, [neg_], {}, node))
    return bor(*[ex.truth(x, st, node) for x in ex.items(v, st)])


def b_tuple(ex, st, args, kw, node):
    if not args:
        return ()
    if isinstance(args[0], SymSeq) and sym(args[0].length):
        return args[0]
    return tuple(ex.items(args[0], st))


def b_list(ex, st, args, kw, node):
    if not args:
        return ex.mklist([], st)
    if isinstance(args[0], SymSeq) and sym(args[0].length):
        return args[0]
    if isinstance(args[0], RangeVal):
        r = args[0]
        n = ex.range_count(r, st)
        if sym(n) or n > 200:
            return SymSeq(n, lambda k: add(r.lo, mul(r.step, k)))
    return ex.mklist(ex.items(args[0], st), st)


def as_seq(ex, v, st):
    """(length, fn) of anything indexable."""
    if isinstance(v, SymSeq):
        return v.length, v.fn
    if isinstance(v, RangeVal):
        return ex.range_count(v, st), lambda k: add(v.lo, mul(v.step, k))
    if isinstance(v, View):
        fr = ex.freeze(v, st)
        return v.shape[0], lambda k: ex.subscript(fr, k, st, None)
    its = ex.items(v, st)
    return len(its), lambda k: its[k]


def b_zip(ex, st, args, kw, node):
    if kw:
        raise Unsupported("zip with keywords")
    if any(isinstance(a, (SymSeq, RangeVal, View)) for a in args):
        parts = [as_seq(ex, a, st) for a in args]
        n = parts[0][0]
        if all(_same(p[0], n) or decide(eq(p[0], n), st.pc) is True for p in parts):
            if sym(n) or n > 64:
                return SymSeq(n, lambda k: tuple(p[1](k) for p in parts))
    its = [ex.items(a, st) for a in args]
    return tuple(tuple(x) for x in zip(*its))


def b_enumerate(ex, st, args, kw, node):
    start = args[1] if len(args) > 1 else kw.get("start", 0)
    v = args[0]
    if isinstance(v, (SymSeq, RangeVal, View)):
        n, f = as_seq(ex, v, st)
        if sym(n) or n > 64:
            return SymSeq(n, lambda k: (add(start, k), f(k)))
    return tuple((add(start, k), x) for k, x in enumerate(ex.items(v, st)))


def b_map(ex, st, args, kw, node):
    its = [ex.items(a, st) for a in args[1:]]
    return tuple(ex.call(args[0], list(xs), {}, st, node) for xs in zip(*its))


def b_isinstance(ex, st, args, kw, node):
    v, c = args
    if isinstance(c, tuple):
        return bor(*[b_isinstance(ex, st, [v, x], kw, node) for x in c])
    n = c.name if isinstance(c, (Builtin, LibModule, ExcClass)) else (c if isinstance(c, str) else None)
    if isinstance(c, ClassVal):
        return isinstance(v, Inst) and c in v.cls.mro()
    if isinstance(c, ExcClass):
        return isinstance(v, Exc) and v.cls.isa(c)
    table = {"tuple": lambda: isinstance(v, tuple), "list": lambda: isinstance(v, (ListObj, SymSeq)), "dict": lambda: isinstance(v, DictObj),
             "str": lambda: isinstance(v, str), "int": lambda: is_int(v) or is_bool(v), "float": lambda: is_real(v), "bool": lambda: is_bool(v),
             "slice": lambda: isinstance(v, PySlice), "range": lambda: isinstance(v, RangeVal), "ndarray": lambda: isinstance(v, View)}
    if n in table:
        return table[n]()
    if isinstance(v, LibObj) and hasattr(v, "isa"):
        return v.isa(n)
    if isinstance(c, Builtin):
        return isinstance(v, LibObj) and getattr(v, "pytype", None) == n
    raise Unsupported("isinstance of %s" % (n,))


def b_int(ex, st, args, kw, node):
    v = args[0] if args else 0
    if isinstance(v, View) and not v.ndim:
        v = ex.read(v, [], st, node)
    if not is_num(v):
        raise Unsupported("int()")
    if is_bool(v):
        return ite(v, 1, 0)
    return trunc(v) if is_real(v) else v


def b_float(ex, st, args, kw, node):
    v = args[0] if args else 0
    if isinstance(v, View) and not v.ndim:
        v = ex.read(v, [], st, node)
    if not is_num(v):
        raise Unsupported("float()")
    return Z(v, True) if sym(v) else Fraction(frac(v))


def b_bool(ex, st, args, kw, node):
    return ex.truth(args[0], st, node)


def b_slice(ex, st, args, kw, node):
    if len(args) == 1:
        return PySlice(None, args[0])
    return PySlice(*args)


def b_getattr(ex, st, args, kw, node):
    if len(args) == 3 and not ex.hasattr(args[0], args[1], st):
        return args[2]
    return ex.getattr(args[0], args[1], st, node)


def b_reversed(ex, st, args, kw, node):
    return tuple(reversed(ex.items(args[0], st)))


def b_iter(ex, st, args, kw, node):
    return args[0]


def b_str(ex, st, args, kw, node):
    return args[0] if args and isinstance(args[0], str) else "<str>"


def b_type(ex, st, args, kw, node):
    v = args[0]
    if isinstance(v, Inst):
        return v.cls
    raise Unsupported("type()")


def nop(ex, st, args, kw, node):
    return None


BUILTINS = dict(EXC)
for _n, _f in [("range", b_range), ("xrange", b_range), ("len", b_len), ("min", minmax("<")), ("max", minmax(">")), ("abs", b_abs), ("sum", b_sum), ("all", b_all),
               ("any", b_any), ("tuple", b_tuple), ("list", b_list), ("zip", b_zip), ("enumerate", b_enumerate), ("map", b_map), ("isinstance", b_isinstance),
               ("int", b_int), ("float", b_float), ("bool", b_bool), ("slice", b_slice), ("getattr", b_getattr), ("reversed", b_reversed), ("iter", b_iter),
               ("str", b_str), ("print", nop), ("type", b_type), ("repr", b_str)]:
    BUILTINS[_n] = Builtin(_n, _f)
BUILTINS["object"] = Builtin("object", None)
BUILTINS["__debug__"] = True


def m_append(ex, st, args, kw, node):
    o, v = args
    st.heap[o.id] = st.heap[o.id] + [v]


def m_extend(ex, st, args, kw, node):
    o, v = args
    st.heap[o.id] = st.heap[o.id] + list(ex.items(v, st))


def m_insert(ex, st, args, kw, node):
    o, k, v = args
    if sym(k):
        raise Unsupported("list.insert")
    l = list(st.heap[o.id])
    l.insert(k, v)
    st.heap[o.id] = l


def m_pop(ex, st, args, kw, node):
    o = args[0]
    l = list(st.heap[o.id])
    k = args[1] if len(args) > 1 else -1
    if sym(k) or not l:
        raise Unsupported("list.pop")
    v = l.pop(k)
    st.heap[o.id] = l
    return v


def m_copy(ex, st, args, kw, node):
    o = args[0]
    if isinstance(o, ListObj):
        return ex.mklist(st.heap[o.id], st)
    n = DictObj()
    st.heap[n.id] = dict(st.heap[o.id])
    return n


def m_get(ex, st, args, kw, node):
    o, k = args[0], ex.key(args[1])
    return st.heap[o.id].get(k, args[2] if len(args) > 2 else kw.get("default"))


def m_items(ex, st, args, kw, node):
    return tuple((k, v) for k, v in st.heap[args[0].id].items())


def m_keys(ex, st, args, kw, node):
    return tuple(st.heap[args[0].id])


def m_values(ex, st, args, kw, node):
    return tuple(st.heap[args[0].id].values())


def m_update(ex, st, args, kw, node):
    d = dict(st.heap[args[0].id])
    if len(args) > 1:
        d.update(st.heap[args[1].id])
    d.update(kw)
    st.heap[args[0].id] = d


def m_dpop(ex, st, args, kw, node):
    d = dict(st.heap[args[0].id])
    k = ex.key(args[1])
    if k not in d:
        if len(args) > 2:
            return args[2]
        raise PyRaise(Exc(EXC["KeyError"]), st)
    v = d.pop(k)
    st.heap[args[0].id] = d
    return v


def m_str(ex, st, args, kw, node):
    return "<str>"


METHODS = {("ListObj", "append"): m_append, ("ListObj", "extend"): m_extend, ("ListObj", "insert"): m_insert, ("ListObj", "pop"): m_pop,
           ("ListObj", "copy"): m_copy, ("DictObj", "get"): m_get, ("DictObj", "items"): m_items, ("DictObj", "keys"): m_keys, ("DictObj", "values"): m_values,
           ("DictObj", "copy"): m_copy, ("DictObj", "update"): m_update, ("DictObj", "pop"): m_dpop,
           ("str", "format"): m_str, ("str", "join"): m_str, ("str", "lower"): lambda ex, st, a, k, n: a[0].lower()}


# ------------------------------------------------------------------ numpy
def dtype_of(ex, st, v, default="f8"):
    if v is None:
        return default
    if isinstance(v, DType):
        return v.tag
    if isinstance(v, str):
        t = {"float32": "f4", "float64": "f8", "long": "i8", "int64": "i8", "int32": "i4", "int": "i8", "float": "f8", "f4": "f4", "f8": "f8",
             "d": "f8", "f": "f4", "l": "i8", "bool": "bool", "double": "f8", "single": "f4"}.get(v)
        if t:
            return t
    if isinstance(v, Builtin) and v.name in ("int", "float", "bool"):
        return {"int": "i8", "float": "f8", "bool": "bool"}[v.name]
    raise Unsupported("dtype")


def shape_of(ex, st, v):
    if is_num(v):
        if is_real(v):
            raise PyRaise(Exc(EXC["TypeError"]), st)
        return [v]
    return list(ex.items(v, st))


def check_extents(ex, st, shape, node):
    for n in shape:
        if sym(n) and decide(cmp(">=", n, 0), st.pc) is not True:
            ex.maybe_raise(cmp("<", n, 0), Exc(EXC["ValueError"]), st, node)
        elif not sym(n) and n < 0:
            raise PyRaise(Exc(EXC["ValueError"]), st)


def np_empty(ex, st, args, kw, node):
    shape = shape_of(ex, st, args[0] if args else kw["shape"])
    dt = dtype_of(ex, st, args[1] if len(args) > 1 else kw.get("dtype"))
    check_extents(ex, st, shape, node)
    return ex.new_array(st, shape, dt, UNINIT, "empty@%d" % getattr(node, "lineno", 0))


def np_full(value):
    def g(ex, st, args, kw, node):
        shape = shape_of(ex, st, args[0])
        rest = list(args[1:])
        v = value if value is not None else rest.pop(0)
        dt = dtype_of(ex, st, rest[0] if rest else kw.get("dtype"), "f8" if value is not None else ("f8" if is_real(v) else "i8"))
        check_extents(ex, st, shape, node)
        v = Fraction(v) if not sym(v) and dt in FLOATDT else v
        return ex.fnarray(st, shape, dt, lambda e, s, p: v)
    return g


def like(fn):
    def g(ex, st, args, kw, node):
        a = args[0]
        if not isinstance(a, View):
            raise Unsupported("*_like")
        kw = dict(kw)
        kw.setdefault("dtype", DType(a.dtype))
        return fn(ex, st, [tuple(a.shape)] + list(args[1:]), kw, node)
    return g


def np_arange(ex, st, args, kw, node):
    args = list(args)
    dt = kw.get("dtype")
    if len(args) == 4:
        dt = args.pop()
    for a in args:
        if not is_num(a):
            if isinstance(a, View) and not a.ndim:
                args[args.index(a)] = ex.read(a, [], st, node)
            else:
                raise Unsupported("arange argument")
    lo, hi, step = 0, None, 1
    if len(args) == 1:
        hi = args[0]
    elif len(args) == 2:
        lo, hi = args
    else:
        lo, hi, step = args
    fl = any(is_real(x) for x in (lo, hi, step))
    tag = dtype_of(ex, st, dt, "f8" if fl else "i8")
    if fl:
        if sym(step) or step <= 0:
            raise Unsupported("arange step")
        q = div(sub(hi, lo), step)
        n = trunc_ceil(ex, q, st)
    else:
        if sym(step) and decide(cmp(">", step, 0), st.pc) is not True:
            ex.maybe_raise(eq(step, 0), Exc(EXC["ZeroDivisionError"]), st, node)
            raise Unsupported("arange step of unknown sign")
        if not sym(step) and step <= 0:
            raise Unsupported("arange step")
        n = idiv(add(sub(hi, lo), sub(step, 1)), step, st.pc)
        if sym(n):
            n = core.norm(n)
            n = n.as_long() if z3.is_int_value(n) else n
    if not sym(n):
        n = max(n, 0)
    elif decide(cmp(">=", n, 0), st.pc) is not True:
        n = ite(cmp(">=", n, 0), n, 0)
    isf = tag in FLOATDT

    def base(e, s, p):
        v = add(lo, mul(step, p[0]))
        return (Z(v, True) if sym(v) else Fraction(frac(v))) if isf else v
    return ex.fnarray(st, [n], tag, base, "arange")


def trunc_ceil(ex, q, st):
    if not sym(q):
        q = Fraction(q)
        return -((-q.numerator) // q.denominator)
    f = ex.floor_real(neg(q), st)
    f = core.norm(f)
    p = core.poly(f)
    return neg(core.unpoly(p, I))


def np_asarray(contig=False, copy=None):
    def g(ex, st, args, kw, node):
        v = args[0]
        dt = args[1] if len(args) > 1 else kw.get("dtype")
        if isinstance(v, LibObj):
            if hasattr(v, "to_numpy"):
                v = v.to_numpy(ex, st)
            elif hasattr(v, "to_array"):
                v = v.to_array(ex, st)
        src = v
        v = ex.to_array(v, st)
        tag = dtype_of(ex, st, dt, v.dtype)
        docopy = kw.get("copy", copy)
        if tag != v.dtype:
            return astype(ex, st, v, tag)
        if docopy:
            return copy_array(ex, st, v)
        if contig and v.buf.contig is not True or (contig and not v.whole()):
            # either the array itself or a contiguous copy
            return ex.may_view(copy_array(ex, st, v), v)
        return View(v.buf, v.axes, v.shape, v.layers, "nd")
    return g


def copy_array(ex, st, v):
    fr = ex.freeze(v, st)
    return ex.fnarray(st, v.shape, v.dtype, lambda e, s, p: e.read(fr, list(p), s, None, check=False), "copy")


def astype(ex, st, v, tag):
    fr = ex.freeze(v, st)
    if tag in FLOATDT:
        def base(e, s, p):
            x = e.read(fr, list(p), s, None, check=False)
            if is_bool(x):
                return ite(x, Fraction(1), Fraction(0))
            return Z(x, True) if sym(x) else Fraction(frac(x))
    elif tag == "bool":
        def base(e, s, p):
            x = e.read(fr, list(p), s, None, check=False)
            return x if is_bool(x) else cmp("!=", x, 0)
    else:
        def base(e, s, p):
            x = e.read(fr, list(p), s, None, check=False)
            return trunc(x) if is_real(x) else (ite(x, 1, 0) if is_bool(x) else x)
    return ex.fnarray(st, v.shape, tag, base, "astype")


def m_astype(ex, st, args, kw, node):
    v = args[0]
    tag = dtype_of(ex, st, args[1] if len(args) > 1 else kw.get("dtype"))
    if tag == v.dtype:
        return copy_array(ex, st, v) if kw.get("copy", True) else v
    return astype(ex, st, v, tag)


def norm_axis(a, nd):
    return a + nd if a < 0 else a


def np_concatenate(ex, st, args, kw, node):
    arrs = args[0]
    axis = args[1] if len(args) > 1 else kw.get("axis", 0)
    if isinstance(arrs, SymSeq) and (sym(arrs.length) or arrs.length > 64):
        return concat_uniform(ex, st, arrs, axis, node)
    its = [ex.to_array(x, st) if not isinstance(x, View) else x for x in ex.items(arrs, st)]
    if not its:
        raise PyRaise(Exc(EXC["ValueError"]), st)
    nd = its[0].ndim
    axis = norm_axis(axis, nd)
    fr = [ex.freeze(x, st) for x in its]
    for x in its[1:]:
        if x.ndim != nd:
            raise PyRaise(Exc(EXC["ValueError"]), st)
        for d in range(nd):
            if d != axis and decide(eq(x.shape[d], its[0].shape[d]), st.pc) is not True:
                ex.maybe_raise(bnot(eq(x.shape[d], its[0].shape[d])), Exc(EXC["ValueError"]), st, node)
    offs = [0]
    for x in its:
        offs.append(add(offs[-1], x.shape[axis]))
    shape = list(its[0].shape)
    shape[axis] = offs[-1]
    dt = promote([x.dtype for x in its])

    def base(e, s, p):
        k = p[axis]

        def part(n):
            q = list(p)
            q[axis] = sub(k, offs[n])
            return e.read(fr[n], q, s2s[n], node, check=False)
        s2s = [s] * len(fr)
        conds = [cmp("<", k, offs[n + 1]) for n in range(len(fr))]
        r = None
        picks = []
        pc = list(s.pc)
        for n in range(len(fr)):
            d = decide(conds[n], pc) if n < len(fr) - 1 else True
            if d is False:
                continue
            s2 = s.copy()
            s2.pc = pc + [conds[n]] if sym(conds[n]) else list(pc)
            q = list(p)
            q[axis] = sub(k, offs[n])
            picks.append((conds[n], e.read(fr[n], q, s2, node, check=False)))
            if d is True:
                break
            pc = pc + [bnot(conds[n])]
        r = picks[-1][1]
        for c, v in reversed(picks[:-1]):
            r = ite(c, v, r)
        return r
    return ex.fnarray(st, shape, dt, base, "concat")


def running_sum(ex, n, length):
    """The function P with P(0) = 0 and P(k + 1) = P(k) + length(k): one symbol for sizes that are proved equal."""
    known = ex.__dict__.setdefault("sums", [])
    k = z3.Int("summed!000000")
    pc = [cmp("<=", 0, k), cmp("<", k, n)]
    for m, f, P in known:
        if core.prove(eq(m, n), []).status == "proved" and core.prove(eq(f(k), length(k)), pc).status == "proved":
            return P
    if core.prove(cmp(">=", length(k), 0), pc).status != "proved":
        raise Unsupported("sizes that may be negative")
    P = core.uf("sum%d" % next(core._fresh), core.I, core.I)
    register_sum(ex, n, length, P)
    return P


def register_sum(ex, n, length, P):
    """P is the running sum of sizes that are not negative."""
    ex.__dict__.setdefault("sums", []).append((n, length, P))

    def pair(x, y):
        out = []
        for x, y in ((x, y), (y, x)):
            a, b = x.arg(0), y.arg(0)
            ok = z3.And(0 <= a, a < b, b <= Z(n))
            nx = Z(add(x, length(a)))
            out += [z3.Implies(ok, nx <= y), z3.Implies(z3.And(ok, b == a + 1), y == nx)]
        return out
    core.PAIRS.append((P.name(), P.name(), pair))
    core._facts_for[P.name()] = lambda x: [z3.Implies(x.arg(0) == 0, x == 0), z3.Implies(x.arg(0) >= 0, x >= 0), z3.Implies(x.arg(0) == 1, x == Z(length(0)))]
    core.CONSTRAINED.add(P.name())


def concat_varying(ex, st, seq, axis, node):
    """Concatenation of symbolically many arrays of any extent along the axis."""
    n = seq.length
    k = fresh("n")
    s2 = st.copy()
    s2.pc += [cmp("<=", 0, k), cmp("<", k, n)]
    probe = seq.fn(k)
    size = lambda k: seq.fn(k).shape[axis]  # noqa: E731
    P = running_sum(ex, n, size)
    shape = list(probe.shape)
    for d in range(probe.ndim):
        if d == axis:
            continue
        x = core.norm(Z(shape[d]))
        if k.get_id() in core.subterms(x):
            raise Unsupported("concatenation of arrays of varying shape")
        shape[d] = x.as_long() if z3.is_int_value(x) else x
    shape[axis] = P(Z(n))

    def base(e, s, p):
        for kk, q in getattr(e, "hints", {}).get("piece", ()):
            ok = band(cmp("<=", 0, kk), cmp("<", kk, n), eq(p[axis], add(P(Z(kk)), q)), cmp("<=", 0, q), cmp("<", q, size(kk)))
            if core.prove(ok, s.pc).status == "proved":
                break
        else:
            kk = core.uf(P.name() + "_piece", core.I, core.I)(Z(p[axis]))
            q = sub(p[axis], P(kk))
            core._facts_for[kk.decl().name()] = lambda x: [z3.Implies(z3.And(0 <= x.arg(0), x.arg(0) < P(Z(n))),
                                                                     z3.And(0 <= x, x < Z(n), P(x) <= x.arg(0), x.arg(0) < P(x + 1)))]
        idx = list(p)
        idx[axis] = q
        a = seq.fn(kk)
        if a.buf.id not in s.mem and a.layers is None:
            a = View(a.buf, a.axes, a.shape, (), a.kind)
        return e.read(a, idx, s, node, check=False)
    return ex.fnarray(st, shape, probe.dtype, base, "concat")


def concat_uniform(ex, st, seq, axis, node):
    """Concatenation of symbolically many arrays of one extent along the axis; the last one may be shorter."""
    k = fresh("n")
    s2 = st.copy()
    s2.pc += [cmp("<=", 0, k), cmp("<", k, sub(seq.length, 1))]
    ex.maybe_raise(cmp("<=", seq.length, 0), Exc(EXC["ValueError"]), st, node)
    last_k = sub(seq.length, 1)
    last = seq.fn(last_k)
    if core.decide_false(s2.pc):
        return last                        # there is one array at most
    probe = seq.fn(k)
    if not isinstance(probe, View):
        raise Unsupported("concatenation of a symbolic sequence")
    axis = norm_axis(axis, probe.ndim)

    def single(x):
        if not sym(x):
            return x
        x = core.norm(x)
        x = x.as_long() if z3.is_int_value(x) else x
        if not sym(x) or k.get_id() not in core.subterms(x):
            return x
        y = core.norm(core.substitute(x, [(k, z3.IntVal(0))]))
        if core.prove(eq(x, y), s2.pc).status != "proved":
            return None
        return y
    sh = [single(x) for x in probe.shape]
    if sh[axis] is None and all(x is not None for d, x in enumerate(sh) if d != axis):
        return concat_varying(ex, st, seq, axis, node)
    if None in sh:
        raise Unsupported("concatenation of arrays of varying shape")
    n = sh[axis]
    for d in range(probe.ndim):
        if d != axis and core.prove(eq(sh[d], last.shape[d]), st.pc).status != "proved":
            raise Unsupported("concatenation of arrays of varying shape")
    short = last.shape[axis]
    s3 = st.copy()
    s3.pc.append(cmp(">", seq.length, 1))
    same = core.prove(eq(short, n), st.pc).status == "proved" or core.decide_false(s3.pc)
    if not same and core.prove(cmp("<=", short, n), s3.pc).status != "proved":
        raise Unsupported("concatenation of arrays of varying shape")
    if decide(cmp(">=", n, 0 if same else 1), s2.pc) is not True:
        raise Unsupported("concatenation of arrays of unknown extent")
    shape = list(sh)
    shape[axis] = mul(n, seq.length) if same else add(mul(n, sub(seq.length, 1)), short)
    if sym(shape[axis]):
        shape[axis] = core.norm(shape[axis])

    def base(e, s, p):
        q = idiv(p[axis], n, s.pc) if sym(n) or n > 0 else 0
        a = seq.fn(q)
        idx = list(p)
        idx[axis] = sub(p[axis], mul(n, q))
        if a.buf.id not in s.mem and a.layers is None:
            a = View(a.buf, a.axes, a.shape, (), a.kind)
        return e.read(a, idx, s, node, check=False)
    return ex.fnarray(st, shape, probe.dtype, base, "concat")


def np_vsplit(axis0):
    """Pieces between the split positions (assumed increasing, inside the array)."""
    def g(ex, st, args, kw, node):
        v = args[0]
        axis = axis0 if axis0 is not None else (args[2] if len(args) > 2 else kw.get("axis", 0))
        if is_num(args[1]):
            raise Unsupported("split into equal parts")
        n, f = as_seq(ex, args[1], st)
        axis = norm_axis(axis, v.ndim)
        total = v.shape[axis]
        if sym(n) and decide(cmp(">=", n, 0), st.pc) is not True:
            n = ite(cmp(">=", n, 0), n, 0)
        k = fresh("piece")
        s2 = st.copy()
        s2.pc += [cmp("<=", 0, k), cmp("<", k, n)]
        if not core.decide_false(s2.pc):
            if core.prove(band(cmp("<=", 0, f(k)), cmp("<=", f(k), total)), s2.pc).status != "proved":
                raise Unsupported("split positions outside the array")
            s2.pc.append(cmp("<", k, sub(n, 1)))
            if not core.decide_false(s2.pc) and core.prove(cmp("<=", f(k), f(add(k, 1))), s2.pc).status != "proved":
                raise Unsupported("split positions that do not increase")
        ex.assumed.add("numpy.vsplit returns the pieces between increasing positions inside the array")
        fr = ex.freeze(v, st)

        def piece(k):
            lo = ite(cmp("<=", k, 0), 0, f(sub(k, 1)))
            hi = ite(cmp(">=", k, n), total, f(k))
            shape = list(v.shape)
            lo, hi = [core.norm(x) if sym(x) else x for x in (lo, hi)]
            shape[axis] = sub(hi, lo)

            def at(e, s, p):
                p = list(p)
                p[axis] = add(lo, p[axis])
                return e.read(fr, p, s, node, check=False)
            return ex.may_view(ex.fnarray(st, shape, v.dtype, at, "piece"), v)
        m = add(n, 1)
        return SymSeq(m, piece) if sym(m) else ex.mklist([piece(k) for k in range(m)], st)
    return g


def at_least_2d(ex, st, x):
    x = x if isinstance(x, View) else ex.to_array(x, st)
    if x.ndim >= 2:
        return x
    return expand(ex, st, x, 0) if x.ndim == 1 else expand(ex, st, expand(ex, st, x, 0), 0)


def expand(ex, st, v, axis):
    key = [PySlice(None, None)] * v.ndim
    key.insert(axis, None)
    return ex.array_index(v, tuple(key), st, None)


def np_vstack(ex, st, args, kw, node):
    if isinstance(args[0], SymSeq) and sym(args[0].length):
        return concat_uniform(ex, st, args[0], 0, node)
    its = tuple(at_least_2d(ex, st, x) for x in ex.items(args[0], st))
    return np_concatenate(ex, st, [its], {"axis": 0}, node)


def np_hstack(ex, st, args, kw, node):
    its = tuple(x if isinstance(x, View) else ex.to_array(x, st) for x in ex.items(args[0], st))
    return np_concatenate(ex, st, [its], {"axis": 0 if its[0].ndim == 1 else 1}, node)


def np_expand_dims(ex, st, args, kw, node):
    axis = args[1] if len(args) > 1 else kw["axis"]
    v = args[0] if isinstance(args[0], View) else ex.to_array(args[0], st)
    return expand(ex, st, v, axis + v.ndim + 1 if axis < 0 else axis)


def np_stack(ex, st, args, kw, node):
    its = [x if isinstance(x, View) else ex.to_array(x, st) for x in ex.items(args[0], st)]
    axis = args[1] if len(args) > 1 else kw.get("axis", 0)
    axis = axis + its[0].ndim + 1 if axis < 0 else axis
    return np_concatenate(ex, st, [tuple(expand(ex, st, x, axis) for x in its)], {"axis": axis}, node)


def np_where(ex, st, args, kw, node):
    if len(args) != 3:
        raise Unsupported("where with one argument")
    o = libufunc(args)
    if o is not None:
        return o.ufunc(ex, st, "where", args, node)
    c, a, b = [ex.to_array(x, st) if isinstance(x, (tuple, ListObj)) else x for x in args]
    if not any(isinstance(x, View) for x in (c, a, b)):
        return ite(ex.truth(c, st, node), a, b)
    dt = promote([x.dtype for x in (a, b) if isinstance(x, View)]) if any(isinstance(x, View) for x in (a, b)) else "f8"
    return ex.array_map(lambda s2, x, y, z: ite(x if is_bool(x) else cmp("!=", x, 0), y, z), [c, a, b], dt, st, node)


def np_linspace(ex, st, args, kw, node):
    a, b = [ex.read(x, [], st, node) if isinstance(x, View) else x for x in args[:2]]
    n = args[2] if len(args) > 2 else kw.get("num", 50)
    if kw.get("endpoint", True) is not True or kw.get("retstep"):
        raise Unsupported("linspace options")
    if isinstance(n, View):
        n = ex.read(n, [], st, node)
    ex.maybe_raise(cmp("<", n, 0), Exc(EXC["ValueError"]), st, node)
    d = decide(cmp(">=", n, 2), st.pc)

    def base(e, s, p):
        step = div(sub(R(b), R(a)), R(sub(n, 1)))
        v = add(R(a), mul(R(p[0]), step))
        return v if d is True else ite(cmp(">=", n, 2), v, R(a))
    return ex.fnarray(st, [n], dtype_of(ex, st, kw.get("dtype")), base, "linspace")


def np_meshgrid(ex, st, args, kw, node):
    ij = kw.get("indexing", "xy") == "ij"
    arrs = [x if isinstance(x, View) else ex.to_array(x, st) for x in args]
    fr = [ex.freeze(a, st) for a in arrs]
    nd = len(arrs)
    order = list(range(nd))
    if not ij and nd > 1:
        order[0], order[1] = 1, 0
    shape = [arrs[k].shape[0] for k in order]
    pos = {k: order.index(k) for k in range(nd)}
    out = []
    for k in range(nd):
        out.append(ex.fnarray(st, shape, arrs[k].dtype, (lambda e, s, p, k=k: e.read(fr[k], [p[pos[k]]], s, node, check=False)), "meshgrid"))
    return ex.mklist(out, st)


def prod(xs):
    r = 1
    for x in xs:
        r = mul(r, x)
    return r


def unravel(k, shape, pc):
    """Mixed radix digits of k, first axis slowest."""
    out = []
    for d in range(len(shape)):
        w = prod(shape[d + 1:])
        q = idiv(k, w, pc)
        out.append(q)
        k = sub(k, mul(w, q))
    return out


def m_flatten(ex, st, args, kw, node):
    v = args[0]
    fr = ex.freeze(v, st)
    n = prod(v.shape)

    def base(e, s, p):
        return e.read(fr, unravel(p[0], v.shape, s.pc), s, node, check=False)
    return ex.fnarray(st, [n], v.dtype, base, "flatten")


def m_ravel(ex, st, args, kw, node):
    return ex.may_view(m_flatten(ex, st, args, kw, node), args[0])


def m_reshape(ex, st, args, kw, node):
    v = args[0]
    shape = list(args[1:]) if len(args) != 2 or is_num(args[1]) else list(ex.items(args[1], st))
    if any(not sym(x) and x == -1 for x in shape):
        rest = prod([x for x in shape if sym(x) or x != -1])
        tot = prod(v.shape)
        if not sym(tot) and not sym(rest):
            q = tot // rest
        else:
            p = core.poly(Z(tot)) if sym(tot) else core.poly(z3.IntVal(tot))
            q = idiv(tot, rest, st.pc)
        ex.maybe_raise(bnot(eq(mul(q, rest), tot)), Exc(EXC["ValueError"]), st, node)
        shape = [q if not sym(x) and x == -1 else x for x in shape]
    else:
        ex.maybe_raise(bnot(eq(prod(shape), prod(v.shape))), Exc(EXC["ValueError"]), st, node)
    fr = ex.freeze(v, st)

    def base(e, s, p):
        k = 0
        for d, x in enumerate(p):
            k = add(mul(k, shape[d]), x)
        return e.read(fr, unravel(k, v.shape, s.pc), s, node, check=False)
    return ex.may_view(ex.fnarray(st, shape, v.dtype, base, "reshape"), v)


def np_atleast_2d(ex, st, args, kw, node):
    return at_least_2d(ex, st, args[0])


def m_squeeze(ex, st, args, kw, node):
    v = args[0]
    if len(args) > 1 or kw:
        raise Unsupported("squeeze axis")
    key = []
    for n in v.shape:
        d = decide(eq(n, 1), st.pc)
        if d is None:
            raise Unsupported("squeeze of an axis of unknown extent")
        key.append(0 if d else PySlice(None, None))
    if not any(k == 0 for k in key):
        return v
    r = ex.array_index(v, tuple(key), st, node)
    if not isinstance(r, View):
        val = r
        return ex.fnarray(st, [], v.dtype, lambda e, s, p: val)
    return r


def m_copy_arr(ex, st, args, kw, node):
    return copy_array(ex, st, args[0])


def m_transpose(ex, st, args, kw, node):
    v = args[0]
    order = list(range(v.ndim))[::-1]
    if len(args) > 1:
        order = list(args[1:]) if is_num(args[1]) else list(ex.items(args[1], st))
    return ex.permute(v, order)


def m_item(ex, st, args, kw, node):
    v = args[0]
    return ex.read(v, [0] * v.ndim, st, node)


def m_tolist(ex, st, args, kw, node):
    v = args[0]
    if v.ndim != 1:
        raise Unsupported("tolist")
    n, f = as_seq(ex, v, st)
    return SymSeq(n, f) if sym(n) else ex.mklist([f(k) for k in range(n)], st)


def m_fill(ex, st, args, kw, node):
    ex.assign_array(args[0], args[1], st, node)


def reduce_extreme(name):
    """Maximum / minimum of an array: an upper (lower) bound that is attained."""
    def g(ex, st, args, kw, node):
        v = args[0]
        if isinstance(v, LibObj) and hasattr(v, "ufunc"):
            return v.ufunc(ex, st, name, args, node)
        if kw or len(args) > 1:
            raise Unsupported("%s with axis" % name)
        if isinstance(v, (tuple, ListObj)):
            return minmax(">" if name == "max" else "<")(ex, st, [v], {}, node)
        return extreme(ex, st, v, name)
    return g


def extreme(ex, st, v, name):
    fr = ex.freeze(v, st)
    # equal arrays have one extreme: the value is a function of the contents
    ks = [z3.Int("extreme%d" % d) for d in range(v.ndim)]
    s2 = st.copy()
    for k, n in zip(ks, v.shape):
        s2.pc += [cmp("<=", 0, k), cmp("<", k, n)]
    val = ex.read(fr, ks, s2, None, check=False)
    val = core.norm(core.unfold_all(Z(val)))
    shape = [core.norm(Z(n)) for n in v.shape]
    cache = ex.__dict__.setdefault("extreme_cache", {})
    key = (name, val.get_id(), tuple(n.get_id() for n in shape))
    if key in cache:
        return cache[key][0]
    ex.extremes = getattr(ex, "extremes", [])
    m = fresh(name, RL if v.buf.sort == RL else I)
    arg = [fresh("arg") for _ in v.shape]
    core.add_def(m, *([z3.And(k >= 0, k < Z(n)) for k, n in zip(arg, v.shape)] + [m == core.substitute(val, list(zip(ks, arg)))]))
    cache[key] = (m, val, shape)
    ex.extremes.append((m, name, fr))
    return m


def m_any_all(name):
    def g(ex, st, args, kw, node):
        v = args[0]
        if isinstance(v, LibObj) and hasattr(v, "ufunc"):
            return v.ufunc(ex, st, name, args, node)
        if v.ndim != 1:
            n, f = prod(v.shape), None
            v = m_flatten(ex, st, [v], {}, node)
        n, f = as_seq(ex, v, st)
        seq = SymSeq(n, f)
        return (b_all if name == "all" else b_any)(ex, st, [seq], {}, node)
    return g


def np_array_equal(ex, st, args, kw, node):
    a, b = [ex.freeze(x if isinstance(x, View) else ex.to_array(x, st), st) for x in args]
    # a function of the contents
    memo = ex.__dict__.setdefault("array_equal", [])

    def same(u, v):
        return u.buf is v.buf and u.axes == v.axes and len(u.layers) == len(v.layers) and all(x is y for x, y in zip(u.layers, v.layers)) and len(u.shape) == len(v.shape) and all(
            _same(x, y) for x, y in zip(u.shape, v.shape))
    for x, y, r in memo:
        if same(a, x) and same(b, y) or same(a, y) and same(b, x):
            return r
    r = array_equal(ex, st, a, b, node)
    if sym(r):
        memo.append((a, b, r))
    return r


def array_equal(ex, st, a, b, node):
    if a.ndim != b.ndim:
        return False
    if all(_same(x, y) or decide(eq(x, y), st.pc) is True for x, y in zip(a.shape, b.shape)):
        fa, fb = ex.freeze(a, st), ex.freeze(b, st)
        ks = [fresh("q") for _ in a.shape]
        s2 = st.copy()
        for k, n in zip(ks, a.shape):
            s2.pc += [cmp("<=", 0, k), cmp("<", k, n)]
        e = eq(ex.read(fa, ks, s2, node, check=False), ex.read(fb, ks, s2, node, check=False))
        if decide(e, s2.pc) is True:
            return True
        if a.ndim == 1 and any(getattr(x.buf, "fn", None) is not None and x.whole() and not ex.layers_of(x, st) for x in (a, b)):
            r = fresh("unknown_array_equal", B)
            element_facts(ex, st, r, a, b)
            return r
        if a.ndim == 1:
            def f(k):
                s3 = st.copy()
                s3.pc += [cmp("<=", 0, k), cmp("<", k, a.shape[0])]
                return eq(ex.read(fa, [k], s3, node, check=False), ex.read(fb, [k], s3, node, check=False))
            return b_all(ex, st, [SymSeq(a.shape[0], f)], {}, node)
        raise Unsupported("array_equal")
    d = [decide(eq(x, y), st.pc) for x, y in zip(a.shape, b.shape)]
    if any(x is False for x in d):
        return False
    # extents may differ: undetermined result
    r = fresh("unknown_array_equal", B)
    core.add_def(r, z3.Implies(r, z3.And(*[Z(x) == Z(y) for x, y in zip(a.shape, b.shape)])))
    if a.ndim == 1:
        element_facts(ex, st, r, a, b)
    return r


def element_facts(ex, st, r, a, b):
    """If r, then a[k] == b[k]: instantiated for every element of a (or b) that a condition talks about."""
    for x, y in ((a, b), (b, a)):
        f = getattr(x.buf, "fn", None)
        if f is None or not x.whole() or ex.layers_of(x, st):
            continue
        fy = ex.freeze(y, st)
        old, s0, seen = core._facts_for.get(f.name()), st.copy(), {}

        def facts(app, old=old, fy=fy, n=x.shape[0], s0=s0, seen=seen):
            out = list(old(app)) if old else []
            k = app.arg(0)
            if k.get_id() not in seen:
                s2 = s0.copy()
                s2.pc += [r, cmp("<=", 0, k), cmp("<", k, n)]
                seen[k.get_id()] = (z3.Implies(z3.And(r, k >= 0, k < Z(n)), app == Z(ex.quiet(lambda: ex.read(fy, [k], s2, None, check=False)))), k)
            return out + [seen[k.get_id()][0]]
        core._facts_for[f.name()] = facts
        core._fact_memo.clear()
        core._symfacts.clear()


def np_result_type(ex, st, args, kw, node):
    ts = []
    for a in args:
        if isinstance(a, View):
            ts.append(a.dtype)
        else:
            ts.append(dtype_of(ex, st, a))
    return DType(promote(ts))


def np_ndindex(ex, st, args, kw, node):
    shape = list(args) if not (len(args) == 1 and not is_num(args[0])) else list(ex.items(args[0], st))
    if all(not sym(n) for n in shape) and prod(shape) <= 64:
        import itertools
        return tuple(itertools.product(*[range(n) for n in shape]))
    pc = list(st.pc)
    return SymSeq(prod(shape), lambda k: tuple(unravel(k, shape, pc + [cmp("<=", 0, k), cmp("<", k, prod(shape))])), "ndindex")


def np_dtype(ex, st, args, kw, node):
    return DType(dtype_of(ex, st, args[0]))


def np_searchsorted(ex, st, args, kw, node):
    """Insertion positions in a sorted array: assumed contract (left: a[p-1] < v <= a[p]; right: a[p-1] <= v < a[p])."""
    a, v = [x if isinstance(x, View) else ex.to_array(x, st) for x in args[:2]]
    side = args[2] if len(args) > 2 else kw.get("side", "left")
    fa, fv = ex.freeze(a, st), ex.freeze(v, st)
    known = {}

    def base(e, s, p):
        x = e.read(fv, list(p), s, node, check=False)
        n = a.shape[0]
        id_ = Z(x).get_id()
        if id_ in known:
            return known[id_][0]
        r = fresh("pos")
        s1 = s.copy()
        s1.pc += [cmp(">=", r, 1), cmp("<=", r, n)]
        s2 = s.copy()
        s2.pc += [cmp(">=", r, 0), cmp("<", r, n)]
        below = e.read(fa, [sub(r, 1)], s1, node, check=False)
        above = e.read(fa, [r], s2, node, check=False)
        lt, le = ("<", "<=") if side == "left" else ("<=", "<")
        known[id_] = (r, x)
        core.add_def(r, r >= 0, r <= Z(n),
                     z3.Implies(r >= 1, Z(cmp(lt, below, x))), z3.Implies(r < Z(n), Z(cmp(le, x, above))))
        return r
    return ex.fnarray(st, v.shape, "i8", base, "searchsorted")


def selected(ex, mask, st):
    """(first, count) of the true elements of a mask that is true in one interval.

    The intervals to try come from the contract (ex.hints["interval"](k)); the one used is proved for every element."""
    n = mask.shape[0]
    t = core.z3.Int("selected!000000")
    s2 = st.copy()
    s2.pc += [cmp("<=", 0, t), cmp("<", t, n)]
    m = ex.read(ex.freeze(mask, st), [t], s2, None, check=False)
    if not sym(m):
        return (0, n) if m else (0, 0)
    m = core.Z(m)
    cands = [0] + [x for x in core.subterms(m).values() if core.is_int(x) and sym(x) and t.get_id() not in core.subterms(x) and not z3.is_int_value(x)]
    for k in cands:
        for f in getattr(ex, "hints", {}).get("interval", ()):
            iv = f(ex, st, k)
            if iv is None:
                continue
            lo, hi = iv
            if core.prove(m == core.Z(band(cmp("<=", lo, t), cmp("<", t, hi))), s2.pc).status == "proved" and \
                    core.prove(band(cmp("<=", 0, lo), cmp("<=", lo, hi), cmp("<=", hi, n)), st.pc).status == "proved":
                return lo, sub(hi, lo)
    raise Unsupported("boolean mask selection")


def np_flatnonzero(ex, st, args, kw, node):
    v = args[0] if isinstance(args[0], View) else ex.to_array(args[0], st)
    if v.ndim != 1 or v.dtype != "bool":
        raise Unsupported("nonzero elements of a %d-dimensional array" % v.ndim)
    lo, n = selected(ex, v, st)
    return ex.fnarray(st, [n], "i8", lambda e, s, p: add(lo, p[0]), "nonzero")


def np_nonzero(ex, st, args, kw, node):
    return (np_flatnonzero(ex, st, args, kw, node),)


def np_argwhere(ex, st, args, kw, node):
    return expand(ex, st, np_flatnonzero(ex, st, args, kw, node), 1)


def fancy(ex, v, keys, st, node, lvalue):
    """Selection with one integer array (gather); boolean masks are left to the callers' contracts."""
    if lvalue:
        raise Unsupported("fancy assignment")
    ks = [k if not isinstance(k, ListObj) else ex.to_array(k, st) for k in keys]
    arrs = [k for k in ks if isinstance(k, View)]
    if len(arrs) != 1 or any(k is None or k is Ellipsis for k in ks):
        raise Unsupported("fancy indexing")
    sel = arrs[0]
    if sel.dtype == "bool":
        ax = [n for n, k in enumerate(ks) if isinstance(k, View)][0]
        if sel.ndim != 1:
            raise Unsupported("boolean mask selection")
        if decide(eq(sel.shape[0], v.shape[ax]), st.pc) is not True:
            raise Unsupported("boolean mask of another length")
        lo, n = selected(ex, sel, st)
        ks[ax] = sel = ex.fnarray(st, [n], "i8", lambda e, s, p: add(lo, p[0]), "selected")
    if sel.ndim != 1:
        raise Unsupported("fancy indexing")
    ks += [PySlice(None, None)] * (v.ndim - len(ks))
    ax = [n for n, k in enumerate(ks) if isinstance(k, View)][0]
    if any(is_num(k) for k in ks):
        raise Unsupported("fancy indexing")
    fr, fs = ex.freeze(v, st), ex.freeze(sel, st)
    rest = [k if n != ax else PySlice(None, None) for n, k in enumerate(ks)]
    cut = ex.array_index(fr, tuple(rest), st, node)
    k = fresh("g")
    s2 = st.copy()
    s2.pc += [cmp("<=", 0, k), cmp("<", k, sel.shape[0])]
    i = ex.read(fs, [k], s2, node, check=False)
    ok = band(cmp("<=", neg(v.shape[ax]), i), cmp("<", i, v.shape[ax]))
    if decide(ok, s2.pc) is not True:
        raise Unsupported("gather index range")
    wrap = decide(cmp(">=", i, 0), s2.pc) is not True
    shape = list(cut.shape)
    shape[ax] = sel.shape[0]

    def base(e, s, p):
        q = list(p)
        i = e.read(fs, [p[ax]], s, node, check=False)
        q[ax] = ite(cmp(">=", i, 0), i, add(i, v.shape[ax])) if wrap else i
        return e.read(cut, q, s, node, check=False)
    return ex.fnarray(st, shape, v.dtype, base, "gather")


NUMPY = {}


def isnan(ex, x):
    """Reals are never NaN; where only the frame matters an element of an input array may be one."""
    if not is_real(x):
        return False
    x = Z(x, True)
    free = ex.kinds is not None and "post" not in ex.kinds and z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().arity() and "#" in x.decl().name()
    return core.uf("isnan" if free else "unknown_isnan", RL, B)(x)


def np_isnan(ex, st, args, kw, node):
    x, = args
    if isinstance(x, View):
        return ex.array_map(lambda s2, v: isnan(ex, v), [x], "bool", st, node)
    if not is_num(x):
        raise Unsupported("isnan of %s" % type(x).__name__)
    return isnan(ex, x)


def np_isfinite(ex, st, args, kw, node):
    x, = args
    if isinstance(x, View):
        return ex.array_map(lambda s2, v: bnot(isnan(ex, v)), [x], "bool", st, node)
    if not is_num(x):
        raise Unsupported("isfinite of %s" % type(x).__name__)
    return bnot(isnan(ex, x))


def np_nan_to_num(ex, st, args, kw, node):
    x = ex.to_array(args[0], st)
    nan = kw.get("nan", Fraction(0))
    if kw.get("posinf") is not None or kw.get("neginf") is not None or not is_num(nan):
        raise Unsupported("nan_to_num options")
    r = ex.array_map(lambda s2, v: ite(isnan(ex, v), nan, v), [ex.freeze(x, st)], x.dtype, st, node)
    if kw.get("copy", True):
        return r
    ex.assign_array(x, r, st, node)
    return x


def keywords(fn):
    """Names of the keyword arguments that a model looks at."""
    import inspect
    import re
    try:
        src = inspect.getsource(fn)
    except (OSError, TypeError):
        return None
    return set(re.findall(r"kw(?:\.get\(|\[|\.pop\()\"(\w+)\"", src)) | set(re.findall(r"\"(\w+)\" in kw", src))


def _np(name, fn):
    known = keywords(fn) if fn is not None else set()

    def g(ex, st, args, kw, node):
        extra = set(kw) - (known or set())
        if extra and not getattr(fn, "__name__", "").startswith("<lambda"):
            raise Unsupported("numpy.%s with %s" % (name, ", ".join(sorted(extra))))
        return fn(ex, st, args, kw, node)
    NUMPY[name] = Builtin(name, g)


for _n in UNARY:
    NUMPY[_n] = unary(_n)
for _n in KEEP:
    NUMPY[_n] = keep(_n)
NUMPY["arctan2"] = binary("arctan2", lambda y, x: atan2(y, x))
for _n, _o in [("less", "<"), ("greater", ">"), ("less_equal", "<="), ("greater_equal", ">="), ("equal", "=="), ("not_equal", "!=")]:
    NUMPY[_n] = np_compare(_n, _o)
NUMPY["logical_and"] = np_logical("logical_and", band)
NUMPY["logical_or"] = np_logical("logical_or", bor)
NUMPY["minimum"] = binary("minimum", lambda x, y: ite(cmp("<", y, x), y, x))
NUMPY["maximum"] = binary("maximum", lambda x, y: ite(cmp(">", y, x), y, x))
NUMPY["multiply"] = binary("multiply", mul)
NUMPY["add"] = binary("add", add)
NUMPY["subtract"] = binary("subtract", sub)
for _n, _f in [("empty", np_empty), ("zeros", np_full(0)), ("ones", np_full(1)), ("full", np_full(None)), ("arange", np_arange),
               ("asarray", np_asarray()), ("array", np_asarray(copy=True)), ("ascontiguousarray", np_asarray(contig=True)), ("asanyarray", np_asarray()),
               ("empty_like", like(np_empty)), ("zeros_like", like(np_full(0))), ("ones_like", like(np_full(1))),
               ("concatenate", np_concatenate), ("vstack", np_vstack), ("hstack", np_hstack), ("stack", np_stack), ("expand_dims", np_expand_dims),
               ("where", np_where), ("linspace", np_linspace), ("meshgrid", np_meshgrid), ("atleast_2d", np_atleast_2d), ("ravel", m_ravel),
               ("max", reduce_extreme("max")), ("min", reduce_extreme("min")), ("amax", reduce_extreme("max")), ("amin", reduce_extreme("min")),
               ("all", m_any_all("all")), ("any", m_any_all("any")), ("array_equal", np_array_equal), ("result_type", np_result_type), ("ndindex", np_ndindex),
               ("dtype", np_dtype), ("searchsorted", np_searchsorted), ("argwhere", np_argwhere), ("flatnonzero", np_flatnonzero), ("nonzero", np_nonzero), ("import_array", nop), ("copy", m_copy_arr), ("transpose", m_transpose),
               ("squeeze", m_squeeze), ("vsplit", np_vsplit(0)), ("split", np_vsplit(None)), ("array_split", np_vsplit(None)), ("reshape", m_reshape), ("prod", lambda ex, st, a, k, n: prod(ex.items(a[0], st)))]:
    _np(_n, _f)
for _n, _f in [("isnan", np_isnan), ("isfinite", np_isfinite), ("nan_to_num", np_nan_to_num)]:
    _np(_n, _f)
NUMPY["nan"] = core.z3.Real("unknown_nan")
NUMPY["newaxis"] = None
NUMPY["pi"] = PI
NUMPY["ndarray"] = Builtin("ndarray", None)
for _n, _t in [("float32", "f4"), ("single", "f4"), ("float64", "f8"), ("double", "f8"), ("int64", "i8"), ("int32", "i4"), ("bool_", "bool"), ("intp", "i8"), ("long", "i8")]:
    NUMPY[_n] = DType(_t)

ARRAY_METHODS = {"astype": m_astype, "copy": m_copy_arr, "flatten": m_flatten, "ravel": m_ravel, "reshape": m_reshape, "squeeze": m_squeeze,
                 "transpose": m_transpose, "item": m_item, "tolist": m_tolist, "fill": m_fill, "max": reduce_extreme("max"), "min": reduce_extreme("min"),
                 "all": m_any_all("all"), "any": m_any_all("any")}


# ------------------------------------------------------------------ libraries
def make_libs():
    b = LibModule("builtins", dict(BUILTINS))
    b.methods = dict(METHODS)
    n = LibModule("numpy", dict(NUMPY))
    n.methods = dict(ARRAY_METHODS)
    n.fancy = fancy
    m = LibModule("libc.math", {k: unary(k) for k in ("sin", "cos", "asin", "acos", "sqrt", "fabs")})
    m.table["atan2"] = binary("atan2", lambda y, x: atan2(y, x))
    m.table["M_PI"] = PI
    cy = LibModule("cython", {"floating": DType("FT"), "float": DType("f4"), "double": DType("f8")})
    par = LibModule("cython.parallel", {"prange": Builtin("prange", b_prange), "parallel": Builtin("parallel", nop)})
    ft = LibModule("functools", {"wraps": Builtin("wraps", lambda ex, st, a, k, nd: Builtin("wrapper", lambda ex2, s2, a2, k2, n2: a2[0])),
                                 "partial": Builtin("partial", f_partial)})
    warn = LibModule("warnings", {"warn": Builtin("warn", nop)})
    abc = LibModule("abc", {"ABC": Builtin("ABC", None), "abstractmethod": Builtin("abstractmethod", lambda ex, st, a, k, nd: a[0])})
    libs = {"builtins": b, "numpy": n, "libc.math": m, "cython": cy, "cython.parallel": par, "functools": ft, "warnings": warn, "abc": abc,
            "math": LibModule("math", {k: unary(k) for k in ("sin", "cos", "asin", "acos", "sqrt", "fabs", "radians", "degrees")})}
    import poolmodel
    import splinemodel
    libs.update(splinemodel.libs())
    import scimodel
    libs.update(poolmodel.libs())
    import daskmodel
    libs.update(daskmodel.libs())
    n.table["ndindex"] = Builtin("ndindex", daskmodel.ndindex)
    import xrmodel
    libs.update(scimodel.libs())
    import pandasmodel
    libs.update(pandasmodel.libs())
    libs.update(xrmodel.libs())
    return libs


def f_partial(ex, st, args, kw, node):
    f, pre = args[0], list(args[1:])
    return Builtin("partial", lambda ex2, s2, a, k, n: ex2.call(f, pre + list(a), {**kw, **k}, s2, n))
