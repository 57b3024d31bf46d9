"""Assumed contracts of dask arrays: an array is its blocks, laid side by side; every block is computed by its task alone."""
import ast
import itertools

import z3

import core
from core import I, Z, add, band, bnot, cmp, decide, eq, fresh, is_num, mul, sub, sym, uf
from cyparse import Unsupported
from exec import Builtin, DictObj, DType, Exc, LibModule, LibObj, ListObj, PySlice, SymDict, SymSeq, _same
from mem import View

_n = itertools.count()
ARRAY = "a dask array holds the blocks of its graph side by side (element i of an axis is element i - S(a) of block a, S the running sum of the chunk sizes); "
ARRAY += "a task tuple (f, arguments) computes f(arguments)"
CHUNKS = "dask normalize_chunks returns, per axis, chunk sizes (not negative) that add up to the extent"
TOKEN = "dask tokenize is injective in the contents of its arguments"
LIFT = "elementwise functions of dask arrays with the same chunks work block by block; the declared dtype is that of the function on empty arrays"


def chunk_seq(st, total, positive=False):
    """Arbitrary chunk sizes of an axis."""
    k = next(_n)
    n = fresh("chunks%d" % k)
    S = uf("chunk_start%d" % k, I, I)
    core.sorted_function(S, strict=positive)
    core._facts_for[S.name()] = lambda x: [x >= 0, x <= Z(total)]
    st.pc += [cmp(">=", n, 1), eq(S(Z(0)), 0), eq(S(n), total)]
    if positive:
        # beyond the last chunk the function goes on increasing
        core._facts_for[S.name()] = lambda x: [z3.Implies(x.arg(0) >= 0, x >= 0), z3.Implies(x.arg(0) <= n, x <= Z(total))]
    def prefix(i):
        if not sym(i) and i == 0:
            return 0
        return total if sym(i) and i.eq(n) else S(Z(i))
    return seq_of(n, prefix)


def seq_of(n, prefix):
    s = SymSeq(n, lambda i: sub(prefix(add(i, 1)), prefix(i)), "chunks")
    s.prefix = prefix
    s.sum = prefix(n)
    return s


def one_chunk(total):
    s = SymSeq(1, lambda i: total, "chunks")
    s.prefix = lambda i: mul(i, total) if not (not sym(i) and i in (0, 1)) else (0, total)[i]
    s.sum = total
    return s


class Token(LibObj):
    """A name made from the hash of `args` and constant text."""
    is_token = True

    def __init__(self, args, text=()):
        self.args, self.text = args, text

    def within(self, parts):
        if any(not isinstance(x, (str, Token)) for x in parts) or len([x for x in parts if isinstance(x, Token)]) != 1:
            raise Unsupported("name made of a token")
        return Token(self.args, self.text + tuple(x for x in parts if isinstance(x, str)))

    def binop(self, ex, st, op, a, b, node):
        if isinstance(op, ast.Add):
            return self.within([a, b])
        raise Unsupported("operation on a token")


def snapshot(ex, st, x):
    """The contents of a value, as it is now."""
    if isinstance(x, View):
        return ex.freeze(x, st)
    if isinstance(x, tuple):
        return tuple(snapshot(ex, st, y) for y in x)
    if isinstance(x, ListObj):
        h = st.heap[x.id]
        return h if isinstance(h, SymSeq) else tuple(snapshot(ex, st, y) for y in h)
    if isinstance(x, DictObj):
        return {k: snapshot(ex, st, v) for k, v in st.heap[x.id].items()}
    return x


def tokenize(ex, st, args, kw, node):
    ex.assumed.add(TOKEN)
    return Token([snapshot(ex, st, a) for a in args] + [snapshot(ex, st, a) for a in kw.values()])


def same_view(a, b):
    return a.buf is b.buf and a.axes == b.axes and len(a.shape) == len(b.shape) and all(_same(p, q) for p, q in zip(a.shape, b.shape))


def holds(x, what, depth=0):
    """Whether the contents of `what` are part of the contents of x (as far as their identity shows it)."""
    if x is what:
        return True
    if isinstance(what, View) and isinstance(x, View):
        return same_view(x, what)
    if isinstance(what, dict) and isinstance(x, dict):
        return all(k in x and (x[k] is v or x[k] == v) for k, v in what.items())
    if isinstance(x, (tuple, list)):
        return any(holds(y, what, depth + 1) for y in x)
    if isinstance(x, dict):
        return any(holds(y, what, depth + 1) for y in x.values())
    if isinstance(x, LibObj) and depth < 6 and not isinstance(x, Array):
        return any(holds(y, what, depth + 1) for y in vars(x).values())
    return False


class Array(LibObj):
    """A lazy array."""

    def __init__(self, chunks, dtype, block, name=None):
        self.chunks, self.dtype, self.name = tuple(chunks), dtype, name
        self.shape = tuple(c.sum for c in self.chunks)
        self.block = block       # (ex, st, position) -> the computed block

    def hasattr(self, name):
        return name in ("shape", "ndim", "dtype", "chunks", "name", "compute", "rechunk", "size", "numblocks", "chunksize", "persist", "dask", "T", "astype")

    def getattr(self, ex, st, name, node):
        if name in ("shape", "chunks"):
            return getattr(self, name)
        if name == "ndim":
            return len(self.shape)
        if name == "dtype":
            return DType(self.dtype)
        if name == "name":
            return self.name
        if name == "numblocks":
            return tuple(c.length for c in self.chunks)
        f = {"rechunk": self.rechunk}.get(name)
        if f is None:
            raise Unsupported("dask array attribute %s" % name)
        return Builtin("dask." + name, lambda ex2, s2, a, k, n: f(ex2, s2, a, k, n))

    def length(self, ex, st):
        return self.shape[0]

    # ------------------------------------------------------------ contents
    def element(self, ex, st, idx, node=None):
        """Element at idx of what is computed, for chunk positions given as arbitrary ones that hold idx."""
        pos, local = [], []
        for c, i in zip(self.chunks, idx):
            a = position(st, c)
            st.pc += [x for x in (cmp("<=", c.prefix(a), i), cmp("<", i, c.prefix(add(a, 1)))) if sym(x) or not x]
            pos.append(a)
            local.append(sub(i, c.prefix(a)))
        b = self.block(ex, st, tuple(pos))
        return ex.read(b, local, st, node, check=False)

    # ------------------------------------------------------------ rechunking
    def rechunk(self, ex, st, args, kw, node):
        if kw or len(args) != 1:
            raise Unsupported("rechunk options")
        want = ex.items(args[0], st) if isinstance(args[0], (tuple, ListObj)) else None
        if want is None or len(want) != len(self.shape):
            raise Unsupported("rechunk specification")
        ex.assumed.add("dask rechunk keeps the contents; an integer chunk size gives chunks of that size, the last one what is left, -1 one chunk")
        chunks = []
        for w, n in zip(want, self.shape):
            if not core.is_int(w):
                raise Unsupported("rechunk specification")
            ex.maybe_raise(band(cmp("<=", w, 0), cmp("!=", w, -1)), Exc(ex.exc("ValueError"), ()), st, node)
            chunks.append(one_chunk(n) if not sym(w) and w == -1 else uniform(ex, st, w, n))
        old = self

        def block(ex2, s2, pos):
            lo = [start(c, a) for c, a in zip(chunks, pos)]
            shape = [sub(c.prefix(add(a, 1)), x) for c, a, x in zip(chunks, pos, lo)]
            return ex2.fnarray(s2, shape, old.dtype, lambda e, s, p: old.element(e, s, [add(x, y) for x, y in zip(lo, p)]), "rechunked")
        return Array(chunks, self.dtype, block)

    def getitem(self, ex, st, key, node):
        if not isinstance(key, int) or sym(key) or decide(eq(self.chunks[0].length, 1), st.pc) is not True:
            raise Unsupported("index of a dask array")
        if not 0 <= key < 2**31 or decide(cmp("<", key, self.shape[0]), st.pc) is not True:
            raise Unsupported("index of a dask array out of range")
        old = self
        return Array(self.chunks[1:], self.dtype, lambda ex2, s2, pos: ex2.subscript(old.block(ex2, s2, (0,) + tuple(pos)), key, s2, node))

    # ------------------------------------------------------------ elementwise functions
    def lift(self, ex, st, args, f):
        ars = [a for a in args if isinstance(a, Array)]
        if any(not isinstance(a, Array) and not is_num(a) for a in args):
            raise Unsupported("function of dask and other arrays")
        first = ars[0]
        for a in ars[1:]:
            if len(a.chunks) != len(first.chunks) or any(p is not q for p, q in zip(a.chunks, first.chunks)):
                raise Unsupported("dask arrays of different chunks")
        ex.assumed.add(LIFT)
        empty = [ex.fnarray(st, [0] * len(a.shape), a.dtype, lambda e, s, p, a=a: core.fresh("none", core.RL if a.dtype in ("FT", "f4", "f8") else core.B if a.dtype == "bool" else I), "meta")
                 if isinstance(a, Array) else a for a in args]
        dt = ex.quiet(lambda: f(ex, st.copy(), empty)).dtype

        def block(ex2, s2, pos):
            return f(ex2, s2, [a.block(ex2, s2, pos) if isinstance(a, Array) else a for a in args])
        return Array(first.chunks, dt, block)

    def ufunc(self, ex, st, name, args, node):
        return self.lift(ex, st, args, lambda e, s, vs: e.call(e.libs["numpy"].table[name], vs, {}, s, node))

    def binop(self, ex, st, op, a, b, node):
        return self.lift(ex, st, [a, b], lambda e, s, vs: e.binop(op, vs[0], vs[1], s, node, None))

    def compare(self, ex, st, op, a, b, node):
        return self.lift(ex, st, [a, b], lambda e, s, vs: e.array_map(lambda s2, x, y: cmp(op, x, y), vs, "bool", s, node))

    def unary(self, ex, st, op, node):
        if not isinstance(op, ast.USub):
            raise Unsupported("unary operator on a dask array")
        return self.ufunc(ex, st, "negative", [self], node)


def factor(e):
    """(integer, rest) of a product."""
    if not sym(e):
        return e, 1
    e = core.norm(e)
    if e.decl().kind() == z3.Z3_OP_MUL and z3.is_int_value(e.arg(0)):
        g = e.arg(0).as_long()
        r = e.arg(1)
        for x in e.children()[2:]:
            r = r * x
        return g, r
    return 1, e


def uniform(ex, st, w, n):
    """Chunks of w, the last one what is left of n."""
    memo = ex.__dict__.setdefault("uniform_chunks", [])
    for w2, n2, r, facts in memo:
        if (_same(w, w2) or decide(eq(w, w2), st.pc) is True) and (_same(n, n2) or decide(eq(n, n2), st.pc) is True):
            st.pc += [f for f in facts if not any(f is g for g in st.pc)]
            return r
    n0 = len(st.pc)
    g, rest = factor(w)
    if sym(rest):
        v = fresh("size")
        st.pc += [eq(v, rest), cmp(">=", v, 1)]
        w3 = mul(g, v)
    else:
        w3 = w
    k = fresh("pieces")
    # number of pieces: w * (k - 1) < n <= w * k
    st.pc += [cmp(">=", k, 1), cmp("<=", n, mul(w3, k)), cmp("<", mul(w3, sub(k, 1)), core.ite(cmp("<", n, 1), 1, n))]

    def prefix(i):
        if not sym(i) and i == 0:
            return 0
        if sym(i) and i.eq(k):
            return n
        return core.ite(cmp("<", mul(w3, i), n), mul(w3, i), n)
    r = seq_of(k, prefix)
    r.facts = lambda i: [cmp("<", mul(w3, i), core.ite(cmp("<", n, 1), 1, n))]       # i <= k - 1
    r.start = lambda i: mul(w3, i)
    memo.append((w, n, r, st.pc[n0:]))
    return r


def position(st, seq):
    """An arbitrary position of a chunk."""
    if not sym(seq.length) and seq.length == 1:
        return 0
    a = fresh("block")
    st.pc += [cmp("<=", 0, a), cmp("<", a, seq.length)] + [f for f in (seq.facts(a) if getattr(seq, "facts", None) else [])]
    return a


def start(seq, a):
    """Where the chunk at a position a < length begins."""
    if not sym(a) and a == 0:
        return 0
    f = getattr(seq, "start", None)
    return f(a) if f is not None else seq.prefix(a)


def scaled(seq, fn):
    """Sizes that are a multiple of the sizes of seq have multiples of the running sums."""
    x = fresh("unit")
    one, b = fn(1), fn(x)
    if not core.is_int(b) or not core.is_int(one) or core.prove(eq(b, mul(one, x)), []).status != "proved":
        return None, None, None
    st = getattr(seq, "start", None)
    return lambda i: mul(one, seq.prefix(i)), getattr(seq, "facts", None), st and (lambda i: mul(one, st(i)))


def map_blocks(ex, st, args, kw, node):
    kw = dict(kw)
    f, ars = args[0], list(args[1:])
    new_axis, chunks, dt, drop = kw.pop("new_axis", None), kw.pop("chunks", None), kw.pop("dtype", None), kw.pop("drop_axis", None)
    kw.pop("meta", None)
    kw.pop("name", None)
    kw.pop("token", None)
    if drop not in (None, ()) or dt is None or not ars or any(not isinstance(a, Array) for a in ars) or set(kw) & {"enforce_ndim", "concatenate", "block_id", "block_info"}:
        raise Unsupported("map_blocks options")
    first = ars[0]
    for a in ars[1:]:
        if len(a.chunks) != len(first.chunks) or any(not same_chunks(ex, p, q, st) for p, q in zip(a.chunks, first.chunks)):
            raise Unsupported("map_blocks of arrays of different chunks")
    axes = [] if new_axis is None else [new_axis] if isinstance(new_axis, int) else list(ex.items(new_axis, st))
    if axes not in ([], [0]):
        raise Unsupported("map_blocks with new axes %s" % axes)
    grid = ([SymSeq(1, None)] if axes else []) + list(first.chunks)
    if chunks is None:
        if axes:
            raise Unsupported("map_blocks with a new axis and no chunks")
        out = list(first.chunks)
    else:
        ch = list(ex.items(chunks, st))
        if len(ch) != len(grid):
            ex.maybe_raise(True, Exc(ex.exc("ValueError"), ()), st, node)
        out = []
        for c, g in zip(ch, grid):
            if core.is_int(c):
                if decide(eq(g.length, 1), st.pc) is True:
                    out.append(one_chunk(c))
                else:
                    out.append(seq_of(g.length, lambda i, c=c: mul(c, i)))
                continue
            c = ex.unlist(c, st)
            if isinstance(c, (tuple, ListObj)):
                its = list(ex.items(c, st))
                ex.maybe_raise(bnot(eq(len(its), g.length)), Exc(ex.exc("ValueError"), ()), st, node)
                if len(its) != 1:
                    raise Unsupported("map_blocks with listed chunks")
                out.append(one_chunk(its[0]))
                continue
            if not isinstance(c, SymSeq) or getattr(c, "prefix", None) is None:
                raise Unsupported("map_blocks with chunks of unknown sum")
            ex.maybe_raise(bnot(eq(c.length, g.length)), Exc(ex.exc("ValueError"), ()), st, node)
            if getattr(c, "sum", None) is None:
                c.sum = c.prefix(c.length)
            out.append(c)
    ex.assumed.add("dask map_blocks calls the function on the blocks at the same position of its arguments, one call per position; the declared chunks and dtype are the given ones")
    dt = dt.tag if isinstance(dt, DType) else dt
    new = len(axes)

    def block(ex2, s2, pos):
        return ex2.call(f, [a.block(ex2, s2, tuple(pos[new:])) for a in ars], dict(kw), s2, node)
    return Array(out, dt, block)


def same_chunks(ex, p, q, st):
    if p is q or any({id(x), id(y)} == {id(p), id(q)} and decide(b, st.pc) is True for b, x, y in ex.__dict__.get("seq_equal", ())):
        return True
    if decide(eq(p.length, q.length), st.pc) is not True:
        return False
    k = fresh("k")
    return decide(eq(p.fn(k), q.fn(k)), st.pc + [cmp("<=", 0, k), cmp("<", k, p.length)]) is True


def input_array(ex, st, view, chunks):
    """A dask array over given contents."""
    fr = ex.freeze(view, st)

    def block(ex2, s2, pos):
        lo = [start(c, a) for c, a in zip(chunks, pos)]
        shape = [sub(c.prefix(add(a, 1)), x) for c, a, x in zip(chunks, pos, lo)]
        # a block may be a view of the array
        return ex2.may_view(ex2.fnarray(s2, shape, view.dtype, lambda e, s, p: e.read(fr, [add(x, y) for x, y in zip(lo, p)], s, None, check=False), "block"), view)
    return Array(chunks, view.dtype, block)


# ---------------------------------------------------------------- graphs
def da_array(ex, st, args, kw, node):
    names = ["dask", "name", "chunks", "dtype", "meta", "shape"]
    a = dict(zip(names, args))
    if set(kw) - set(names) or len(args) > len(names) or a.get("meta") is not None or kw.get("meta") is not None:
        raise Unsupported("dask array options")
    a.update(kw)
    graph, name, chunks = a["dask"], a["name"], a["chunks"]
    if not isinstance(graph, SymDict) or not isinstance(chunks, tuple) or any(not isinstance(c, SymSeq) or getattr(c, "prefix", None) is None for c in chunks):
        raise Unsupported("dask graph")
    dt = a.get("dtype")
    if dt is None:
        raise Unsupported("dask array without dtype")
    ex.assumed.add(ARRAY)
    if a.get("shape") is not None:
        shape = list(ex.items(a["shape"], st))
        if len(shape) != len(chunks):
            ex.maybe_raise(True, Exc(ex.exc("ValueError"), ()), st, node)
        for c, n in zip(chunks, shape):
            ex.maybe_raise(bnot(eq(c.sum, n)), Exc(ex.exc("ValueError"), ()), st, node)

    def block(ex2, s2, pos):
        return task(ex2, s2, find(ex2, s2, graph, name, chunks, pos, node), node)
    return Array(chunks, dt.tag if isinstance(dt, DType) else dt, block, name)


def find(ex, st, graph, name, chunks, pos, node):
    """The value stored under (name,) + pos."""
    if graph.locate is None:
        raise Unsupported("dask graph of unknown enumeration")
    total = 1
    for c in chunks:
        total = mul(total, c.length)
    k = graph.locate(st, pos)
    key = graph.key(k)
    ok = isinstance(key, tuple) and len(key) == len(pos) + 1 and same_name(key[0], name)
    ok = ok and all(is_num(x) and decide(eq(x, y), st.pc) is True for x, y in zip(key[1:], pos))
    if not ok or decide(eq(graph.length, total), st.pc) is not True:
        raise Unsupported("the keys of the dask graph are not recognised")
    return graph.value(k)


def same_name(a, b):
    if isinstance(a, Token) and isinstance(b, Token):
        return a is b or a.args is b.args and a.text == b.text
    return isinstance(a, str) and isinstance(b, str) and a == b


def callable_(x):
    return isinstance(x, Builtin) or type(x).__name__ == "FuncVal"


def task(ex, st, t, node):
    if isinstance(t, tuple) and t and callable_(t[0]):
        return ex.call(t[0], [task(ex, st, x, node) for x in t[1:]], {}, st, node)
    if isinstance(t, View):
        return t
    if isinstance(t, tuple):
        return tuple(task(ex, st, x, node) for x in t)
    return t


def normalize_chunks(ex, st, args, kw, node):
    names = ["chunks", "shape", "limit", "dtype", "previous_chunks"]
    a = dict(zip(names, args))
    a.update(kw)
    shape = a.get("shape")
    if shape is None or set(a) - set(names):
        raise Unsupported("normalize_chunks arguments")
    shape = ex.items(shape, st)
    if isinstance(a["chunks"], tuple) and all(isinstance(c, SymSeq) and getattr(c, "prefix", None) is not None for c in a["chunks"]):
        cs = a["chunks"]
        if len(cs) == len(shape) and all(decide(eq(c.sum, n), st.pc) is True for c, n in zip(cs, shape)):
            return cs
        raise Unsupported("normalize_chunks of given chunks")
    ex.assumed.add(CHUNKS)
    # a function of its arguments
    ch, dt = a["chunks"], a.get("dtype")
    if not (is_num(ch) or isinstance(ch, str)):
        return tuple(chunk_seq(st, n) for n in shape)
    memo = ex.__dict__.setdefault("normalized_chunks", [])
    for (c2, sh2, dt2), r, facts in memo:
        if (_same(ch, c2) or isinstance(ch, str) and ch == c2) and dt == dt2 and len(sh2) == len(shape) and all(_same(x, y) or decide(eq(x, y), st.pc) is True for x, y in zip(shape, sh2)):
            st.pc += [f for f in facts if not any(f is g for g in st.pc)]
            return r
    n0 = len(st.pc)
    r = tuple(chunk_seq(st, n) for n in shape)
    memo.append(((ch, shape, dt), r, st.pc[n0:]))
    return r


def ndindex(ex, st, args, kw, node):
    """All index tuples of a shape, each once (last index fastest)."""
    shape = args
    if len(args) == 1 and isinstance(args[0], (tuple, ListObj, SymSeq)):
        shape = ex.items(args[0], st)
    shape = list(shape)
    if not shape or not all(core.is_int(x) for x in shape):
        raise Unsupported("ndindex")
    if not any(sym(n) for n in shape):
        r = list(itertools.product(*[range(n) for n in shape]))
        if len(r) <= 3000:
            return tuple(r)
    total = 1
    for n in shape:
        total = mul(total, n)
    return enumeration(ex, shape, total)


def enumeration(ex, shape, total):
    k = next(_n)
    digit = [uf("digit%d_%d" % (k, d), I, I) for d in range(len(shape))]
    for f, n in zip(digit, shape):
        core._facts_for[f.name()] = lambda x, n=n: [x >= 0, x < Z(n)]
    s = SymSeq(total, lambda i: tuple(f(Z(i)) for f in digit), "ndindex")

    def locate(st, pos):
        # every index tuple in range is enumerated
        i = fresh("at")
        st.pc += [cmp("<=", 0, i), cmp("<", i, total)]
        st.pc += [eq(f(i), p) for f, p in zip(digit, pos)]
        return i
    s.locate = locate
    return s


def libs():
    d = {"Array": Builtin("dask.array.Array", da_array), "map_blocks": Builtin("dask.array.map_blocks", map_blocks)}
    n = Builtin("normalize_chunks", normalize_chunks)
    t = Builtin("tokenize", tokenize)
    return {"dask.array": LibModule("dask.array", dict(d)), "dask.array.core": LibModule("dask.array.core", {"normalize_chunks": n, **d}),
            "dask.base": LibModule("dask.base", {"tokenize": t}), "dask": LibModule("dask", {})}
