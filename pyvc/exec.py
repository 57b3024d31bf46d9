"""Symbolic execution of the mechanically parsed functions; produces obligations."""
import ast
import itertools
import time
from fractions import Fraction

import z3

import core
from core import (I, RL, B, Z, add, band, bnot, bor, cmp, decide, div, eq, facts, feasible, fresh, frac, int_only, is_bool, is_int, is_num,
                  is_real, ite, mul, neg, norm, power, prove, prove_eq, sub, substitute, subterms, sym, uf)
from cyparse import Module, Unsupported
from mem import HAVOC, UNINIT, Buf, Layer, NonUnique, View, idiv, may_match, overlap, solve

_oid = itertools.count(1)


# ------------------------------------------------------------------ values
class Poison:
    def __init__(self, why):
        self.why = why


class Partial(Poison):
    """A variable that has a value where a condition holds, and none elsewhere."""

    def __init__(self, why, cond, val):
        self.why, self.cond, self.val = why, cond, val


class DType:
    def __init__(self, tag):
        self.tag = tag

    def __repr__(self):
        return "dtype(%s)" % self.tag

    def __eq__(self, o):
        return isinstance(o, DType) and self.tag == o.tag

    def __hash__(self):
        return hash(self.tag)


class ExcClass:
    def __init__(self, name, bases=()):
        self.name, self.bases = name, bases

    def isa(self, other):
        return self is other or self.name == other.name or any(b.isa(other) for b in self.bases)


class Exc:
    def __init__(self, cls, args=()):
        self.cls, self.args = cls, args


class FuncVal:
    def __init__(self, mod, node, closure=None, self_=None, cls=None, qual=None):
        self.mod, self.node, self.closure, self.self_, self.cls = mod, node, closure, self_, cls
        self.qual = qual or node.name
        self.attrs = {}
        self.decorated = None

    def __repr__(self):
        return "<func %s.%s>" % (self.mod.name, self.qual)


class ClassVal:
    def __init__(self, mod, info, bases, closure=None):
        self.mod, self.info, self.bases, self.closure = mod, info, bases, closure
        self.attrs = {}
        self.name = info.name

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassVal):
                out += [x for x in b.mro() if x not in out]
        return out

    def lookup(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c.attrs[name], c
        return None, None


class Inst:
    def __init__(self, cls):
        self.id, self.cls = next(_oid), cls

    def __repr__(self):
        return "<%s object %d>" % (self.cls.name, self.id)


class ListObj:
    """Mutable list (contents in state.heap)."""

    def __init__(self):
        self.id = next(_oid)


class DictObj:
    def __init__(self):
        self.id = next(_oid)


class AppendOnly:
    """Stands for a list while the elements that one iteration appends are collected; reading it is not supported."""

    def __init__(self, new=()):
        self.new = list(new)

    def __add__(self, more):
        return AppendOnly(self.new + list(more))

    def __iter__(self):
        raise LoopCarried("list that grows in a loop is read in it")

    __len__ = __getitem__ = __bool__ = __iter__


class SymSeq:
    """Sequence of symbolic length: element k is fn(k)."""

    locate = None            # position of an element, by what the enumeration was made of (see npmodel.ndindex)

    def __init__(self, length, fn, note=""):
        self.length, self.fn, self.note = length, fn, note


class SymDict:
    """Dictionary of symbolic size: item k is key(k): value(k)."""

    def __init__(self, length, key, value, locate=None):
        self.length, self.key, self.value, self.locate = length, key, value, locate


class RangeVal:
    def __init__(self, lo, hi, step=1, prange=False):
        self.lo, self.hi, self.step, self.prange = lo, hi, step, prange


class PySlice:
    def __init__(self, start, stop, step=None):
        self.start, self.stop, self.step = start, stop, step


class Builtin:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return "<builtin %s>" % self.name


class LibModule:
    def __init__(self, name, table):
        self.name, self.table = name, table


class LibObj:
    """A value of a dependency: attribute access and calls are modelled by Python classes deriving from this."""

    def getattr(self, ex, st, name, node):
        raise Unsupported("%s has no model for attribute %s" % (type(self).__name__, name))

    def hasattr(self, name):
        return False


class PyRaise(Exception):
    def __init__(self, exc, st):
        self.exc, self.st = exc, st


class LoopCarried(Unsupported):
    pass


class Outcome:
    __slots__ = ("kind", "st", "val")

    def __init__(self, kind, st, val=None):
        self.kind, self.st, self.val = kind, st, val


class State:
    def __init__(self):
        self.env, self.mem, self.heap, self.pc = {}, {}, {}, []

    def copy(self):
        s = State()
        s.env, s.mem, s.heap, s.pc = dict(self.env), dict(self.mem), dict(self.heap), list(self.pc)
        return s


class Frame:
    """A loop being summarised."""

    def __init__(self, k, lo, hi, start, base, first_id, prange):
        self.k, self.lo, self.hi, self.start, self.base, self.first_id, self.prange = k, lo, hi, start, base, first_id, prange
        self.reads = []


class FunCtx:
    def __init__(self, fv):
        self.fv = fv
        n = fv.node
        self.ctypes = {}
        self.ctypes.update(getattr(n, "c_args", {}) or {})
        self.ctypes.update(getattr(n, "c_locals", {}) or {})
        self.cython = fv.mod.cython
        self.nonlocal_env = fv.closure


FLOATS = {"floating", "float32", "float64"}
INTS = {"int", "unsigned int", "long", "unsigned long", "Py_ssize_t", "size_t", "short", "unsigned short", "unsigned char", "char", "bint"}
DT = {"floating": "FT", "float32": "f4", "float64": "f8", "int": "i4", "long": "i8", "unsigned int": "u4", "Py_ssize_t": "i8"}
CRANGE = {"int": (-2**31, 2**31 - 1), "unsigned int": (0, 2**32 - 1), "short": (-2**15, 2**15 - 1), "unsigned short": (0, 2**16 - 1),
          "unsigned char": (0, 255), "char": (-128, 127), "long": (-2**63, 2**63 - 1), "Py_ssize_t": (-2**63, 2**63 - 1),
          "size_t": (0, 2**64 - 1), "unsigned long": (0, 2**64 - 1)}
FLOATDT = {"FT", "f4", "f8"}


class Obligation:
    __slots__ = ("kind", "func", "line", "config", "status", "info", "time", "text")

    def __init__(self, kind, func, line, config, status, info, t, text=""):
        self.kind, self.func, self.line, self.config, self.status, self.info, self.time, self.text = kind, func, line, config, status, info, t, text


class Exec:
    def __init__(self, modules, libs=None, kinds=None):
        self.modules = modules            # name -> Module
        self.libs = libs or {}
        self.globals = {}
        self.merge_arrays, self._merging = False, None      # set by contracts: arrays that differ from path to path become one array
        self.contracts = {}               # (module, qual) -> Contract, verified ones only
        self.kinds = kinds                # obligation kinds to discharge (None: all)
        self.obligations = []
        self._seen = {}
        self.buffers = {}
        self.param_views = []
        self.frames = []                  # loops being summarised
        self.funs = []                    # FunCtx stack
        self.raises = []                  # pending conditional raises of the statement
        self.choices = []
        self.choice_pos = 0
        self.config = ""
        self.used_contracts = set()
        self.inlined = set()
        self.assumed = set()
        self.unroll_limit = 4
        self.fused = "FT"
        self.depth = 0
        self.base = 0

    # -------------------------------------------------------------- obligations
    def where(self, node):
        f = self.funs[-1].fv if self.funs else None
        return ("%s.%s" % (f.mod.name, f.qual) if f else "?", getattr(node, "lineno", 0) if node is not None else 0)

    def oblige(self, kind, goal, st, node=None, text="", pc=None, eqs=None):
        if self.kinds is not None and kind not in self.kinds:
            return None
        fn, line = self.where(node)
        pc = list(st.pc if pc is None else pc)
        if eqs is None:
            if not sym(goal) and goal:
                key = (kind, fn, line, self.config, "true")
                if key not in self._seen:
                    self._seen[key] = (True, None)
                    self.obligations.append(Obligation(kind, fn, line, self.config, "proved", "constant", 0.0, text))
                return True
            goal = norm(goal) if sym(goal) else goal
            gid = goal.get_id() if sym(goal) else goal
        else:
            eqs = (Z(eqs[0]), Z(eqs[1]))
            gid = (eqs[0].get_id(), eqs[1].get_id())
        key = (kind, fn, line, self.config, gid, frozenset(p.get_id() for p in pc if sym(p)))
        if key in self._seen:
            return self._seen[key][0]
        t0 = time.time()
        r = prove(goal, pc) if eqs is None else prove_eq(eqs[0], eqs[1], pc)
        status = r.status
        if status == "refuted" and any(c.decl().name().startswith("unknown_") for t in [x for x in ([goal] if eqs is None else list(eqs)) + pc if sym(x)]
                                       for c in core.subterms(t).values() if z3.is_app(c)):
            status = "unknown"       # depends on contents that the engine left unspecified
        if status == "refuted" and core.CONSTRAINED and any(z3.is_app(c) and c.decl().name() in core.CONSTRAINED for t in ([goal] if eqs is None else list(eqs)) + pc
                                                            if sym(t) for c in core.subterms(core.unfold_all(t)).values()):
            status = "unknown"       # the counterexample need not respect what is known of these functions
        ob = Obligation(kind, fn, line, self.config, status, r.info, time.time() - t0, text)
        self.obligations.append(ob)
        self._seen[key] = (r.status == "proved", (goal, eqs, pc, gid))      # keeps the terms alive: ids stay unique
        return r.status == "proved"

    def undecided(self, kind, cond, pc, st, node, text):
        """An obligation the engine cannot decide, unless the condition is impossible."""
        if self.kinds is not None and kind not in self.kinds:
            return
        if core.check([x for x in pc + [cond] if sym(x)], 1500)[0] == "unsat":
            return
        fn, line = self.where(node)
        self.obligations.append(Obligation(kind, fn, line, self.config, "unknown", "unspecified contents", 0.0, text))

    # -------------------------------------------------------------- modules
    def module(self, name):
        if name in self.globals:
            return self.globals[name]
        m = self.modules.get(name)
        if m is None:
            raise Unsupported("module %s" % name)
        if isinstance(m, Unsupported):
            raise Unsupported("module %s: %s" % (name, m))
        g = {"__name__": name}
        self.globals[name] = g
        for fname, node in m.functions.items():
            if "." not in fname:
                g[fname] = FuncVal(m, node)
        for cname, ci in m.classes.items():
            g[cname] = ("lazyclass", m, ci)
        self._toplevel(m, g)
        return g

    def _toplevel(self, m, g):
        for st in m.toplevel:
            self._top_stmt(m, g, st)

    def _top_stmt(self, m, g, st):
        if isinstance(st, ast.Try):
            for s in st.body:
                self._top_stmt(m, g, s)
        elif isinstance(st, ast.Import):
            for a in st.names:
                g[a.asname or a.name.split(".")[0]] = ("import", a.name if a.asname else a.name.split(".")[0])
        elif isinstance(st, ast.ImportFrom):
            mod = st.module or ""
            if st.level:
                mod = "geotiepoints" + ("." + mod if mod else "")
            for a in st.names:
                g[a.asname or a.name] = ("from", mod, a.name)
        elif isinstance(st, ast.FunctionDef):
            fv = FuncVal(m, st)
            if st.decorator_list:
                g[st.name] = ("decorated", fv)
            else:
                g[st.name] = fv
        elif isinstance(st, ast.ClassDef):
            g[st.name] = ("lazyclass", m, m.classes[st.name])
        elif isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
            g[st.targets[0].id] = ("lazy", m, st.value)

    def resolve_global(self, modname, name, st):
        g = self.module(modname)
        if name not in g:
            b = self.libs["builtins"].table.get(name)
            if b is not None:
                return b
            raise Unsupported("name %s" % name)
        v = g[name]
        if isinstance(v, tuple) and v and isinstance(v[0], str):
            kind = v[0]
            if kind == "import":
                v = self.import_(v[1])
            elif kind == "from":
                v = self.from_import(v[1], v[2], st)
            elif kind == "lazyclass":
                v = self.make_class(v[1], v[2], st)
            elif kind == "lazy":
                m, node = v[1], v[2]
                fv = FuncVal(m, ast.FunctionDef("<module>", ast.arguments([], [], None, [], [], None, []), [], [], None, None))
                self.funs.append(FunCtx(fv))
                try:
                    s = State()
                    v = self.eval(node, s)
                finally:
                    self.funs.pop()
            elif kind == "decorated":
                fv = v[1]
                v = self.decorate(fv, st)
            else:
                return v
            g[name] = v
        return v

    def decorate(self, fv, st):
        v = fv
        for d in reversed(fv.node.decorator_list):
            name = ast.unparse(ast.fix_missing_locations(ast.Expression(d))) if not isinstance(d, ast.Call) else ast.unparse(ast.fix_missing_locations(ast.Expression(d.func)))
            if name.split(".")[0] in ("cython",) or name in ("abstractmethod", "property", "staticmethod", "classmethod"):
                continue
            self.funs.append(FunCtx(fv))
            try:
                s = State()
                dec = self.eval(d, s)
                v = self.call(dec, [v], {}, s, d)
                st.heap.update(s.heap)
            finally:
                self.funs.pop()
        return v

    def import_(self, name):
        if name in self.libs:
            return self.libs[name]
        if name in self.modules:
            return ("pkg", name)
        return LibModule(name, {})

    def from_import(self, mod, name, st):
        if mod in self.modules:
            g = self.module(mod)
            if name in g:
                return self.resolve_global(mod, name, st)
            m = self.modules[mod]
            if isinstance(m, Module) and name in m.fused:
                return DType("FT")
            if mod + "." + name in self.modules:
                return ("pkg", mod + "." + name)
            if mod == "geotiepoints._modis_utils" and name == "floating":
                return DType("FT")
            raise Unsupported("name %s in %s" % (name, mod))
        lib = self.libs.get(mod)
        if lib is not None and name in lib.table:
            return lib.table[name]
        if lib is None and mod + "." + name in self.libs:
            return self.libs[mod + "." + name]
        return Builtin("%s.%s" % (mod, name), None)

    def make_class(self, m, info, st, closure=None):
        bases = []
        for b in info.bases:
            s = State()
            fv = FuncVal(m, ast.FunctionDef("<class>", ast.arguments([], [], None, [], [], None, []), [], [], None, None), closure)
            self.funs.append(FunCtx(fv))
            try:
                if closure is not None:
                    s.env = dict(closure)
                bases.append(self.eval(b, s))
            finally:
                self.funs.pop()
        c = ClassVal(m, info, bases, closure)
        for name, node in info.methods.items():
            f = FuncVal(m, node, closure, None, c, info.name + "." + name)
            c.attrs[name] = f
        for s in info.statements:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                if isinstance(s.value, ast.Constant):
                    c.attrs[s.targets[0].id] = frac(s.value.value)
        return c

    # -------------------------------------------------------------- memory
    def new_array(self, st, shape, dtype, base=UNINIT, name="tmp", contig=True, role="local"):
        if isinstance(dtype, DType):
            dtype = dtype.tag
        sort = RL if dtype in FLOATDT else (B if dtype == "bool" else I)
        b = Buf(name, shape, dtype, sort, base, contig, role)
        st.mem[b.id] = ()
        self.buffers[b.id] = b
        return View(b)

    def fnarray(self, st, shape, dtype, fn, name="expr"):
        """Array value given by a function of the index (evaluated under the path of the read)."""
        return self.new_array(st, shape, dtype, base=fn, name=name)

    def layers_of(self, v, st):
        return v.layers if v.layers is not None else st.mem.get(v.buf.id, ())

    def freeze(self, v, st):
        return View(v.buf, v.axes, v.shape, self.layers_of(v, st), v.kind)

    def read(self, v, idx, st, node=None, check=True):
        if len(idx) != v.ndim:
            raise Unsupported("partial index")
        if check:
            self.bounds(v, idx, st, node)
        return self.read_buf(v.buf, v.at(idx), self.layers_of(v, st), st, node)

    def bounds(self, v, idx, st, node):
        for k, i in enumerate(idx):
            self.oblige("bounds", band(cmp("<=", 0, i), cmp("<", i, v.shape[k])), st, node, "0 <= index[%d] < extent of %s" % (k, v.buf.name))

    def read_buf(self, buf, p, layers, st, node=None):
        acc = []
        residual = list(st.pc)
        frames = [f for f in self.frames if buf.id in f.start]
        fi = len(frames) - 1
        result = None
        pos = len(layers)
        while True:
            while fi >= 0 and pos <= frames[fi].start[buf.id]:
                frames[fi].reads.append((buf, p, list(residual), node))
                fi -= 1
            if pos == 0:
                break
            pos -= 1
            L = layers[pos]
            try:
                pairs, cond = solve(L, p, residual)
                val = HAVOC if L.val is HAVOC else (substitute(L.val, pairs) if sym(L.val) else L.val)
                d = decide(cond, residual)
            except NonUnique as e:
                if not may_match(L, p, residual):
                    continue
                cond, d, val = True, True, HAVOC
            if d is False:
                continue
            if val is HAVOC:
                self.undecided("init", cond, residual, st, node, "cell of %s has specified contents when it is read" % buf.name)
                val = fresh("unknown_" + buf.name, buf.sort)
            if d is True:
                result = val
                break
            acc.append((cond, val))
            residual.append(bnot(cond))
        if result is None:
            if buf.base is UNINIT:
                self.oblige("init", False, st, node, "cell of %s is written before it is read" % buf.name, pc=residual)
                result = fresh("uninit_" + buf.name, buf.sort)
            else:
                s2 = st.copy()
                s2.pc = residual
                result = buf.base(self, s2, p)
        for cond, val in reversed(acc):
            result = ite(cond, val, result)
        if buf.sort == RL and not is_real(result):
            result = Z(result, True) if sym(result) else Fraction(frac(result))
        return result

    def guard(self, st):
        base = self.frames[-1].base if self.frames else self.base
        return band(*st.pc[base:])

    def write(self, v, idx, val, st, node=None, check=True):
        if v.layers is not None:
            raise Unsupported("write into a frozen array")
        if check:
            self.bounds(v, idx, st, node)
        self.push_layer(v.buf, Layer([], self.guard(st), v.at(idx), self.coerce(val, v.buf), getattr(node, "lineno", None)), st)

    def coerce(self, val, buf):
        if val is HAVOC:
            return val
        if buf.sort == RL:
            return Z(val, True) if sym(val) else Fraction(frac(val))
        if buf.sort == I and is_real(val):
            return trunc(val)
        return val

    def push_layer(self, buf, layer, st):
        if buf.role == "const":
            raise Unsupported("write into a constant array")
        if buf.alias is not None:
            self.write_through(buf, layer, st)
        st.mem[buf.id] = st.mem.get(buf.id, ()) + (layer,)

    def write_through(self, buf, layer, st):
        """A write into an array that may be a view of another one."""
        root = buf
        while root.alias is not None:
            root = root.alias.buf
        if root.role != "param":
            raise Unsupported("write into what may be a view of another array")
        if self.kinds is not None and "frame" not in self.kinds:
            return
        s2 = st.copy()
        s2.pc += [x for b, lo, hi in layer.binders for x in (cmp("<=", lo, b), cmp("<", b, hi))]
        if sym(layer.guard) or not layer.guard:
            s2.pc.append(layer.guard)
        if core.decide_false(s2.pc):
            return
        text = "%s is unchanged by a write into what may be a view of it" % root.name
        node = type("N", (), {"lineno": layer.where})() if layer.where else None
        if layer.val is HAVOC:
            self.oblige("frame", fresh("unknown_write", B), s2, node, text)
            return
        old = self.read(View(buf, layers=st.mem.get(buf.id, ())), list(layer.idx), s2, None, check=False)
        self.oblige("frame", None, s2, node, text, eqs=(layer.val, old))

    def may_view(self, w, src):
        """The new array w may share its storage with src."""
        w.buf.alias = src
        return w

    def assign_view(self, v, fn, st, node=None):
        """v[...] = fn(index), fn evaluated in the present state."""
        ks = [fresh("b") for _ in v.shape]
        s2 = st.copy()
        for k, n in zip(ks, v.shape):
            s2.pc += [cmp("<=", 0, k), cmp("<", k, n)]
        self.with_frame_reads = None
        val = fn(s2, *ks)
        self.push_layer(v.buf, Layer([(k, 0, n) for k, n in zip(ks, v.shape)], self.guard(st), v.at(ks), self.coerce(val, v.buf), getattr(node, "lineno", None)), st)

    # -------------------------------------------------------------- choices
    def choose(self, n):
        if self.choice_pos < len(self.choices):
            c = self.choices[self.choice_pos][0]
        else:
            self.choices.append([0, n])
            c = 0
        self.choice_pos += 1
        return c

    # -------------------------------------------------------------- statements
    def exec_block(self, stmts, st):
        """Outcomes of a statement list."""
        live = [st]
        done = []
        for s in stmts:
            nxt = []
            for x in live:
                for o in self.exec_stmt(s, x):
                    if o.kind == "next":
                        nxt.append(o.st)
                    else:
                        done.append(o)
            live = self.merge(nxt)
            if not live:
                break
        return [Outcome("next", x) for x in live] + done

    def exec_stmt(self, s, st):
        return self.paths(lambda x: self._stmt(s, x), st)

    def outcomes(self, fn, st):
        """Outcomes of a python function of the state, run in a function context."""
        return self.paths(lambda s: [Outcome("return", s, fn(s))], st)

    def paths(self, go, st):
        saved_choices, saved_pos, saved_raises = self.choices, self.choice_pos, self.raises
        outs = []
        self.choices = []
        try:
            while True:
                self.choice_pos = 0
                self.raises = []
                try:
                    r = go(st.copy())
                except PyRaise as e:
                    r = [Outcome("raise", e.st, e.exc)]
                outs += r
                outs += [Outcome("raise", rs, exc) for rs, exc in self.raises]
                while self.choices and self.choices[-1][0] + 1 >= self.choices[-1][1]:
                    self.choices.pop()
                if not self.choices:
                    break
                self.choices[-1][0] += 1
                if len(outs) > 400:
                    raise Unsupported("too many paths")
        finally:
            self.choices, self.choice_pos, self.raises = saved_choices, saved_pos, saved_raises
        return outs

    def merge(self, states):
        if len(states) < 2:
            return states
        out = [states[0]]
        for s in states[1:]:
            m = self.merge2(out[-1], s)
            if m is None:
                out.append(s)
            else:
                out[-1] = m
        return out

    def merge2(self, a, b):
        self._merging = (a, b)
        try:
            return self._merge2(a, b)
        finally:
            self._merging = None

    def _merge2(self, a, b):
        n = 0
        while n < len(a.pc) and n < len(b.pc) and _same(a.pc[n], b.pc[n]):
            n += 1
        ra, rb = band(*a.pc[n:]), band(*b.pc[n:])
        if not sym(ra) or not sym(rb):
            return None
        env, heap, mem = {}, {}, {}
        for k in set(a.env) | set(b.env):
            if k not in a.env or k not in b.env:
                cond, val = (ra, a.env[k]) if k in a.env else (rb, b.env[k])
                why = "%s is set on one path only" % k
                if isinstance(val, Partial):
                    env[k] = Partial(why, band(cond, val.cond), val.val)
                else:
                    env[k] = val if isinstance(val, Poison) else Partial(why, cond, val)
                continue
            v = self.merge_val(ra, a.env[k], b.env[k])
            if v is None:
                return None
            env[k] = v
        for k in set(a.heap) | set(b.heap):
            if k not in a.heap or k not in b.heap:
                heap[k] = a.heap.get(k, b.heap.get(k))
                continue
            x, y = a.heap[k], b.heap[k]
            if x is y:
                heap[k] = x
            elif isinstance(x, dict) and isinstance(y, dict):
                d = {}
                if set(x) != set(y):
                    return None
                for kk in x:
                    v = self.merge_val(ra, x[kk], y[kk])
                    if v is None:
                        return None
                    d[kk] = v
                heap[k] = d
            elif isinstance(x, list) and isinstance(y, list) and len(x) == len(y):
                l = []
                for p, q in zip(x, y):
                    v = self.merge_val(ra, p, q)
                    if v is None:
                        return None
                    l.append(v)
                heap[k] = l
            else:
                return None
        for k in set(a.mem) | set(b.mem):
            x, y = a.mem.get(k), b.mem.get(k)
            if x is y or x is None or y is None:
                mem[k] = x if x is not None else y
                continue
            c = 0
            while c < len(x) and c < len(y) and x[c] is y[c]:
                c += 1
            mem[k] = x + y[c:]
        s = State()
        s.env, s.heap, s.mem = env, heap, mem
        dis = bor(ra, rb)
        s.pc = a.pc[:n]
        if sym(dis):
            if len(a.pc) - n == 1 and len(b.pc) - n == 1 and norm(ra).eq(norm(bnot(rb))):
                pass
            else:
                s.pc = s.pc + [dis]
        return s

    def merge_val(self, ca, x, y):
        if x is y:
            return x
        if is_num(x) and is_num(y):
            if is_bool(x) != is_bool(y):
                return None
            if is_real(x) != is_real(y) and not (sym(x) or sym(y)):
                if frac(x) == frac(y):
                    return x
            return ite(ca, x, y)
        if isinstance(x, Poison) or isinstance(y, Poison):
            return x if isinstance(x, Poison) else y
        if isinstance(x, str) or x is None or isinstance(x, (DType, bool)):
            return x if type(x) is type(y) and x == y else None
        if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
            r = [self.merge_val(ca, p, q) for p, q in zip(x, y)]
            return None if any(v is None and not (p is None and q is None) for v, p, q in zip(r, x, y)) else tuple(r)
        if self.merge_arrays and self._merging and isinstance(x, View) and isinstance(y, View) and x.ndim == y.ndim and x.dtype == y.dtype and x.buf is not y.buf:
            a, b = self._merging
            w = self.either([ca, bnot(ca)], [self.freeze(x, a), self.freeze(y, b)], a)
            b.mem.update({k: v for k, v in a.mem.items() if k not in b.mem})
            w.buf.alias = self.new_array(a, [1], "f8")      # nothing may be written into it: which array would it be?
            for s in (a, b):
                s.mem[w.buf.id] = s.mem[w.buf.alias.buf.id] = ()
            return w
        if isinstance(x, View) and isinstance(y, View) and x.buf is y.buf and x.axes == y.axes and x.layers is y.layers and len(x.shape) == len(y.shape):
            return x if all(_same(p, q) for p, q in zip(x.shape, y.shape)) else None
        if isinstance(x, FuncVal) and isinstance(y, FuncVal) and x.node is y.node and x.self_ is y.self_ and x.closure is y.closure:
            return x
        return None

    def _stmt(self, s, st):
        f = getattr(self, "s_" + type(s).__name__, None)
        if f is None:
            raise Unsupported("statement %s" % type(s).__name__)
        return f(s, st)

    def s_Pass(self, s, st):
        return [Outcome("next", st)]

    def s_Expr(self, s, st):
        if not isinstance(s.value, ast.Constant):
            self.eval(s.value, st)
        return [Outcome("next", st)]

    def s_Import(self, s, st):
        for a in s.names:
            st.env[a.asname or a.name.split(".")[0]] = self.import_(a.name if a.asname else a.name.split(".")[0])
        return [Outcome("next", st)]

    def s_ImportFrom(self, s, st):
        mod = s.module or ""
        if s.level:
            mod = "geotiepoints" + ("." + mod if mod else "")
        for a in s.names:
            st.env[a.asname or a.name] = self.from_import(mod, a.name, st)
        return [Outcome("next", st)]

    def s_Global(self, s, st):
        raise Unsupported("global")

    def s_Nonlocal(self, s, st):
        raise Unsupported("nonlocal")

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            else:
                raise Unsupported("del")
        return [Outcome("next", st)]

    def s_Assert(self, s, st):
        c = self.truth(self.eval(s.test, st), st, s)
        self.maybe_raise(bnot(c), Exc(self.exc("AssertionError")), st, s)
        return [Outcome("next", st)]

    def s_Return(self, s, st):
        v = self.eval(s.value, st) if s.value is not None else None
        return [Outcome("return", st, v)]

    def s_Continue(self, s, st):
        return [Outcome("continue", st)]

    def s_Break(self, s, st):
        return [Outcome("break", st)]

    def s_Raise(self, s, st):
        if s.exc is None:
            raise PyRaise(Exc(self.exc("Exception")), st)
        try:
            v = self.eval(s.exc, st)
        except Unsupported:
            v = None
            if isinstance(s.exc, ast.Call) and isinstance(s.exc.func, ast.Name):
                v = self.lookup(s.exc.func.id, st)
        if isinstance(v, ExcClass):
            v = Exc(v)
        if not isinstance(v, Exc):
            v = Exc(self.exc("Exception"))
        return [Outcome("raise", st, v)]

    def exc(self, name):
        return self.libs["builtins"].table[name]

    def maybe_raise(self, cond, exc, st, node):
        """Continue with not cond; record the raising path."""
        d = decide(cond, st.pc)
        if d is True:
            raise PyRaise(exc, st)
        if d is False:
            return
        r = st.copy()
        r.pc.append(cond)
        self.raises.append((r, exc))
        st.pc.append(bnot(cond))

    def s_If(self, s, st):
        c = self.truth(self.eval(s.test, st), st, s)
        d = decide(c, st.pc)
        if d is True:
            return self.exec_block(s.body, st)
        if d is False:
            return self.exec_block(s.orelse, st) if s.orelse else [Outcome("next", st)]
        a, b = st.copy(), st
        a.pc.append(c)
        b.pc.append(bnot(c))
        oa = self.exec_block(s.body, a)
        ob = self.exec_block(s.orelse, b) if s.orelse else [Outcome("next", b)]
        na = [o.st for o in oa if o.kind == "next"]
        nb = [o.st for o in ob if o.kind == "next"]
        rest = [o for o in oa + ob if o.kind != "next"]
        return [Outcome("next", x) for x in self.merge(na + nb)] + rest

    def s_Try(self, s, st):
        if s.finalbody:
            raise Unsupported("finally")
        outs = self.exec_block(s.body, st)
        res = []
        for o in outs:
            if o.kind == "raise":
                for h in s.handlers:
                    if self.handles(h, o.val, o.st):
                        x = o.st
                        if h.name:
                            x.env[h.name] = o.val
                        res += self.exec_block(h.body, x)
                        break
                else:
                    res.append(o)
            elif o.kind == "next" and s.orelse:
                res += self.exec_block(s.orelse, o.st)
            else:
                res.append(o)
        return res

    def handles(self, h, exc, st):
        if h.type is None:
            return True
        t = self.eval(h.type, st.copy())
        ts = t if isinstance(t, tuple) else (t,)
        return any(isinstance(x, ExcClass) and exc.cls.isa(x) for x in ts)

    def s_With(self, s, st):
        for it in s.items:
            name = ast.unparse(ast.fix_missing_locations(ast.Expression(it.context_expr)))
            if name.split("(")[0].split(".")[-1] in ("nogil", "gil", "parallel", "errstate", "catch_warnings"):
                continue
            v = self.eval(it.context_expr, st)
            if not isinstance(v, LibObj) or not hasattr(v, "enter"):
                raise Unsupported("with %s" % name)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v.enter(self, st), st, it.context_expr)
        return self.exec_block(s.body, st)

    def s_FunctionDef(self, s, st):
        fc = self.funs[-1]
        if not hasattr(s, "c_args"):
            s.c_args, s.c_locals, s.c_ret, s.is_cdef, s.cls = {}, {}, "object", False, None
        fv = FuncVal(fc.fv.mod, s, ClosureEnv(st, fc.fv.closure), None, None, fc.fv.qual + ".<locals>." + s.name)
        v = fv
        for d in reversed(s.decorator_list):
            dec = self.eval(d, st)
            v = self.call(dec, [v], {}, st, s)
        st.env[s.name] = v
        fv.closure_self = (s.name, v)
        return [Outcome("next", st)]

    def s_ClassDef(self, s, st):
        from cyparse import ClassInfo
        fc = self.funs[-1]
        ci = ClassInfo(s.name, s.bases, s)
        for m in s.body:
            if isinstance(m, ast.FunctionDef):
                if not hasattr(m, "c_args"):
                    m.c_args, m.c_locals, m.c_ret, m.is_cdef = {}, {}, "object", False
                m.cls = s.name
                ci.methods[m.name] = m
            else:
                ci.statements.append(m)
        st.env[s.name] = self.make_class(fc.fv.mod, ci, st, ClosureEnv(st, fc.fv.closure))
        return [Outcome("next", st)]

    # -------------------------------------------------------------- assignment
    def s_Assign(self, s, st):
        v = self.eval(s.value, st)
        for t in s.targets:
            self.assign(t, v, st, s)
        return [Outcome("next", st)]

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, st), st, s)
        return [Outcome("next", st)]

    def s_AugAssign(self, s, st):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, st)
            rhs = self.eval(s.value, st)
            if isinstance(cur, View):
                self.inplace(cur, s.op, rhs, st, s)
            elif isinstance(cur, ListObj) and isinstance(s.op, ast.Add):
                st.heap[cur.id] = st.heap[cur.id] + list(self.items(rhs, st))
            else:
                self.assign(t, self.binop(s.op, cur, rhs, st, s, self._static(s, cur)), st, s)
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value, st)
            key = self.eval_index(t.slice, st)
            rhs = self.eval(s.value, st)
            if isinstance(base, View):
                sub_ = self.subscript(base, key, st, s)
                if isinstance(sub_, View):
                    self.inplace(sub_, s.op, rhs, st, s)
                else:
                    self.store_item(base, key, self.binop(s.op, sub_, rhs, st, s, None), st, s)
            else:
                cur = self.subscript(base, key, st, s)
                self.store_item(base, key, self.binop(s.op, cur, rhs, st, s, None), st, s)
        else:
            cur = self.eval(ast.Attribute(t.value, t.attr, ast.Load()), st)
            rhs = self.eval(s.value, st)
            if isinstance(cur, View):
                self.inplace(cur, s.op, rhs, st, s)
            else:
                self.assign(t, self.binop(s.op, cur, rhs, st, s, None), st, s)
        return [Outcome("next", st)]

    def _static(self, s, cur):
        return None

    def inplace(self, v, op, rhs, st, node):
        """v op= rhs on an array."""
        frozen = self.freeze(v, st)
        r = self.array_binop(op, frozen, rhs, st, node)
        self.assign_array(v, r, st, node)

    def assign_array(self, v, val, st, node):
        """v[...] = val with broadcasting."""
        if isinstance(val, View):
            val = self.freeze(val, st)
            off = v.ndim - val.ndim
            if off < 0:
                lead = val.shape[:-v.ndim] if v.ndim else val.shape
                if not all(not sym(x) and x == 1 for x in lead):
                    raise Unsupported("assignment of a bigger array")
            maps = []
            for k in range(val.ndim):
                n, kk = val.shape[k], k + off
                if kk < 0:
                    maps.append(None)
                    continue
                if not sym(n) and n == 1 and not (not sym(v.shape[kk]) and v.shape[kk] == 1):
                    maps.append(None)
                else:
                    self.maybe_raise(bnot(eq(n, v.shape[kk])), Exc(self.exc("ValueError")), st, node)
                    maps.append(kk)

            def fn(s2, *ks):
                return self.read(val, [0 if m is None else ks[m] for m in maps], s2, node, check=False)
        elif is_num(val):
            def fn(s2, *ks):
                return val
        else:
            raise Unsupported("array assignment from %s" % type(val).__name__)
        self.assign_view(v, fn, st, node)

    def assign(self, t, v, st, node):
        if isinstance(t, ast.Name):
            fc = self.funs[-1]
            ct = fc.ctypes.get(t.id)
            st.env[t.id] = self.convert(v, ct, st, node, t.id) if ct is not None else v
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.items(v, st, len(t.elts))
            star = [k for k, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                raise Unsupported("starred assignment")
            if len(items) != len(t.elts):
                raise PyRaise(Exc(self.exc("ValueError")), st)
            for e, x in zip(t.elts, items):
                self.assign(e, x, st, node)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st)
            self.setattr(o, t.attr, v, st, node)
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value, st)
            key = self.eval_index(t.slice, st)
            self.store_item(base, key, v, st, node)
        else:
            raise Unsupported("assignment target %s" % type(t).__name__)

    def setattr(self, o, name, v, st, node):
        if isinstance(o, Inst):
            ct = o.cls.info.attr_types.get(name)
            if ct is not None:
                v = self.convert(v, ct, st, node, name)
            d = dict(st.heap.get(o.id, {}))
            d[name] = v
            st.heap[o.id] = d
        elif isinstance(o, FuncVal):
            o.attrs[name] = v
        else:
            raise Unsupported("attribute assignment on %s" % type(o).__name__)

    def assign_masked(self, base, mask, v, st, node):
        """base[mask] = a number"""
        if mask.ndim != base.ndim or not is_num(v):
            raise Unsupported("masked assignment")
        self.maybe_raise(bnot(band(*[eq(a, b) for a, b in zip(mask.shape, base.shape)])), Exc(self.exc("IndexError"), ()), st, node)
        m, old = self.freeze(mask, st), self.freeze(base, st)
        rd = lambda x, s2, ks: self.read(x, list(ks), s2, node, check=False)  # noqa: E731
        self.assign_view(base, lambda s2, *ks: ite(rd(m, s2, ks), self.coerce(v, base.buf), rd(old, s2, ks)), st, node)

    def store_item(self, base, key, v, st, node):
        if isinstance(base, View):
            if isinstance(key, View) and key.dtype == "bool":
                return self.assign_masked(base, key, v, st, node)
            tgt = self.subscript(base, key, st, node, lvalue=True)
            if isinstance(tgt, tuple):
                view, idx = tgt
                if not is_num(v):
                    raise Unsupported("element assignment of %s" % type(v).__name__)
                self.write(view, idx, v, st, node, check=False)
            else:
                self.assign_array(tgt, v, st, node)
        elif isinstance(base, ListObj):
            l = list(st.heap[base.id])
            if sym(key) or not isinstance(key, int):
                raise Unsupported("list store at a symbolic index")
            if not -len(l) <= key < len(l):
                raise PyRaise(Exc(self.exc("IndexError")), st)
            l[key] = v
            st.heap[base.id] = l
        elif isinstance(base, DictObj):
            d = dict(st.heap[base.id])
            d[self.key(key)] = v
            st.heap[base.id] = d
        elif isinstance(base, LibObj) and hasattr(base, "setitem"):
            base.setitem(self, st, key, v, node)
        else:
            raise Unsupported("item assignment on %s" % type(base).__name__)

    def key(self, k):
        if isinstance(k, (int, str, Fraction, bool)) or k is None:
            return k
        if isinstance(k, tuple):
            return tuple(self.key(x) for x in k)
        raise Unsupported("dictionary key %s" % type(k).__name__)

    def convert(self, v, ct, st, node, name=""):
        """Value stored into a variable of C type ct."""
        if isinstance(ct, tuple):
            if ct[0] == "mv":
                if not isinstance(v, View):
                    if v is None:
                        return v
                    raise Unsupported("memoryview from %s" % type(v).__name__)
                if v.ndim != ct[2]:
                    self.oblige("type", False, st, node, "%s has %d dimensions" % (name, ct[2]))
                self.dtype_check(v, ct[1], st, node, name)
                if ct[3] and v.buf.contig is not True and v.kind == "nd":
                    self.oblige("contiguous", False, st, node, "%s is C contiguous" % name)
                r = View(v.buf, v.axes, v.shape, v.layers, "mv")
                return r
            if ct[0] == "nd":
                if v is None:
                    return v
                if not isinstance(v, View):
                    raise Unsupported("array variable from %s" % type(v).__name__)
                if ct[2] is not None and v.ndim != ct[2]:
                    self.oblige("type", False, st, node, "%s has %d dimensions" % (name, ct[2]))
                if ct[1]:
                    self.dtype_check(v, ct[1], st, node, name)
                return v
            return v
        if ct in FLOATS:
            if not is_num(v):
                raise Unsupported("number expected for %s" % name)
            v = Z(v, True) if sym(v) and v.sort() != RL else v
            return core.let(v) if sym(v) else Fraction(frac(v))
        if ct in INTS:
            if isinstance(v, View):
                raise Unsupported("array as C integer")
            if not is_num(v):
                raise Unsupported("number expected for %s" % name)
            if is_bool(v):
                if ct == "bint":
                    return v
                return ite(v, 1, 0)
            if ct == "bint":
                return cmp("!=", v, 0)
            if is_real(v):
                v = trunc(v)
            r = CRANGE.get(ct)
            if r is not None:
                self.oblige("overflow", band(cmp("<=", r[0], v), cmp("<=", v, r[1])), st, node, "value fits in %s %s" % (ct, name))
            return v
        return v

    def dtype_check(self, v, ct, st, node, name):
        want = DT.get(ct, ct)
        have = v.dtype
        if want == "FT":
            want = self.fused
        if have == "FT":
            have = self.fused
        if want != have and not (want in ("i8", "long") and have in ("i8", "long")):
            self.oblige("type", False, st, node, "%s holds %s" % (name, want))

    # -------------------------------------------------------------- loops
    def s_For(self, s, st):
        it = self.eval(s.iter, st)
        return self.run_loop(s, it, st)

    def run_loop(self, s, it, st):
        if isinstance(it, RangeVal):
            n = self.range_count(it, st)
            if not sym(n) and n <= 0:
                return self.exec_block(s.orelse, st) if s.orelse else [Outcome("next", st)]
            if not sym(n) and n <= self.unroll_limit and not it.prange:
                return self.unroll(s, [add(it.lo, mul(it.step, k)) for k in range(n)], st)
            n_ob = len(self.obligations)
            seen = dict(self._seen)
            try:
                return self.summarise(s, lambda k, b: add(it.lo, mul(it.step, k)), n, st.copy(), it.prange)
            except LoopCarried:
                if sym(n) or n > 64:
                    raise
                del self.obligations[n_ob:]
                self._seen = seen
                return self.unroll(s, [add(it.lo, mul(it.step, k)) for k in range(n)], st)
        it = self.unlist(it, st)
        if isinstance(it, SymSeq):
            if not sym(it.length) and it.length <= 64:
                return self.unroll(s, [it.fn(k) for k in range(it.length)], st)
            return self.summarise(s, lambda k, b: it.fn(k), it.length, st.copy(), src=it)
        if isinstance(it, View):
            if sym(it.shape[0]) or it.shape[0] > 64:
                fz = self.freeze(it, st)
                return self.summarise(s, lambda k, b: self.subscript(fz, k, b, s), it.shape[0], st.copy())
            return self.unroll(s, [self.subscript(it, k, st, s) for k in range(it.shape[0])], st)
        return self.unroll(s, list(self.items(it, st)), st)

    def range_count(self, r, st):
        if not sym(r.step) and r.step == 1:
            n = sub(r.hi, r.lo)
        elif not sym(r.step) and r.step == -1:
            n = sub(r.lo, r.hi)
        elif not sym(r.step) and r.step > 0:
            n = idiv(add(sub(r.hi, r.lo), r.step - 1), r.step, st.pc)
        elif sym(r.step):
            n = idiv(add(sub(r.hi, r.lo), sub(r.step, 1)), r.step, st.pc)
        else:
            raise Unsupported("range step")
        if not sym(n):
            return max(n, 0)
        n = core.norm(n)
        if n.decl().kind() == z3.Z3_OP_ANUM:
            return max(n.as_long(), 0)
        return n

    def unroll(self, s, items, st):
        live, done, broke = [st], [], []
        for x in items:
            nxt = []
            for l in live:
                try:
                    self.assign(s.target, x, l, s)
                except PyRaise as e:
                    done.append(Outcome("raise", e.st, e.exc))
                    continue
                for o in self.exec_block(s.body, l):
                    if o.kind in ("next", "continue"):
                        nxt.append(o.st)
                    elif o.kind == "break":
                        broke.append(o.st)
                    else:
                        done.append(o)
            live = self.merge(nxt)
            if not live:
                break
        if s.orelse:
            outs = []
            for l in live:
                outs += self.exec_block(s.orelse, l)
            done += [o for o in outs if o.kind != "next"]
            live = [o.st for o in outs if o.kind == "next"]
        return [Outcome("next", x) for x in self.merge(live + broke)] + done

    def s_While(self, s, st):
        live, done, out = [st], [], []
        for _ in range(300):
            nxt = []
            for l in live:
                c = self.truth(self.eval(s.test, l), l, s)
                d = decide(c, l.pc)
                if d is None:
                    raise Unsupported("while loop with a symbolic condition")
                if d is False:
                    out.append(l)
                    continue
                for o in self.exec_block(s.body, l):
                    if o.kind in ("next", "continue"):
                        nxt.append(o.st)
                    elif o.kind == "break":
                        out.append(o.st)
                    else:
                        done.append(o)
            live = nxt
            if not live:
                return [Outcome("next", x) for x in self.merge(out)] + done
        raise Unsupported("while loop")

    def unlist(self, v, st):
        """A list grown by a summarised loop is a sequence of symbolic length."""
        if isinstance(v, ListObj) and isinstance(st.heap[v.id], SymSeq):
            return st.heap[v.id]
        return v

    def appended(self, s, item, n, snap, h, old):
        """The list h after the loop: one element per iteration, obtained by running the body for that iteration."""
        fc = self.funs[-1]
        known = {}

        def fn(k):
            key = k.get_id() if sym(k) else k
            if (sym(k), key) not in known:
                known[sym(k), key] = (element(k), k)
            return known[sym(k), key][0]

        def element(k):
            s3 = snap.copy()
            s3.heap[h] = AppendOnly()
            s3.pc = s3.pc + [cmp("<=", 0, k), cmp("<", k, n)]
            npc = len(s3.pc)
            self.funs.append(fc)
            try:
                def go():
                    self.assign(s.target, item(k, s3), s3, s)
                    return self.exec_block(s.body, s3)
                outs = [o for o in self.quiet(go) if not core.decide_false(o.st.pc)]
            finally:
                self.funs.pop()
            outs = [o for o in outs if o.kind in ("next", "continue")]
            if not outs or any(len(o.st.heap[h].new) != 1 for o in outs):
                raise LoopCarried("list not extended by one element in every iteration")
            vals = [self.export(o.st.heap[h].new[0], o.st) for o in outs]
            return vals[0] if len(vals) == 1 else self.either([band(*o.st.pc[npc:]) for o in outs], vals, s3)
        if old:
            raise LoopCarried("list that is not empty is extended in a loop")
        return SymSeq(n, fn, "list")

    def either(self, conds, vals, st):
        """The value of the one path that is taken."""
        def pick(xs):
            r = xs[-1]
            for c, x in reversed(list(zip(conds[:-1], xs[:-1]))):
                r = ite(c, x, r)
            return r
        if all(is_num(v) for v in vals) and len({is_bool(v) for v in vals}) == 1:
            return pick(vals)
        if all(isinstance(v, View) for v in vals) and len({(v.ndim, v.dtype) for v in vals}) == 1:
            def at(e, s, p):
                live = [(c, v) for c, v in zip(conds, vals) if decide(c, s.pc) is not False]
                for c, v in live:
                    if decide(c, s.pc) is True:
                        return e.read(v, list(p), s, None, check=False)
                r = None
                for c, v in reversed(live):
                    s2 = s.copy()
                    s2.pc.append(c)
                    x = e.read(v, list(p), s2, None, check=False)
                    r = x if r is None else ite(c, x, r)
                return r
            return self.fnarray(st, [pick([v.shape[d] for v in vals]) for d in range(vals[0].ndim)], vals[0].dtype, at, "either")
        raise LoopCarried("list elements that differ from path to path")

    def export(self, v, st):
        """A value of a state that is about to be dropped (a list becomes a tuple)."""
        if isinstance(v, View):
            return self.freeze(v, st)
        if isinstance(v, tuple):
            return tuple(self.export(x, st) for x in v)
        if isinstance(v, ListObj):
            h = st.heap[v.id]
            return h if isinstance(h, SymSeq) else tuple(self.export(x, st) for x in h)
        if isinstance(v, (DictObj, Inst)):
            raise Unsupported("object created in a summarised loop")
        return v

    def summarise(self, s, item, n, st, prange=False, src=None):
        if s.orelse:
            raise Unsupported("for-else")
        k = fresh("k")
        first_id = int(k.decl().name().split("!")[1])
        body = st.copy()
        body.pc += [cmp("<=", 0, k), cmp("<", k, n)]
        assigned = _assigned(s.body) | _targets(s.target)
        for v in assigned:
            if v in body.env or True:
                body.env[v] = Poison("%s is carried over loop iterations" % v)
        snap = body.copy()
        snap.pc = list(st.pc)
        self.assign(s.target, item(k, body), body, s)
        fr = Frame(k, 0, n, {b: len(l) for b, l in st.mem.items()}, len(body.pc), first_id, prange)
        heap0 = dict(body.heap)
        self.frames.append(fr)
        try:
            outs = self.exec_block(s.body, body)
        finally:
            self.frames.pop()
        res = []
        finals = []
        for o in outs:
            if o.kind in ("next", "continue"):
                finals.append(o.st)
            elif o.kind == "raise":
                res.append(o)
            else:
                raise Unsupported("%s inside a summarised loop" % o.kind)
        grown = {}
        for f in finals:
            for h, v in f.heap.items():
                if h in heap0 and heap0[h] is not v:
                    if not isinstance(v, list) or not isinstance(heap0[h], list) or len(v) != len(heap0[h]) + 1:
                        raise LoopCarried("object modified in a loop")
                    if h not in grown:
                        grown[h] = self.appended(s, item, n, snap, h, heap0[h])
                        grown[h].locate = getattr(src, "locate", None)
                        probe = fresh("k")
                        snap.pc += [cmp("<=", 0, probe), cmp("<", probe, n)]
                        grown[h].fn(probe)
                        del snap.pc[-2:]
        # writes of one iteration
        new = {}
        for f in finals:
            for b, start in fr.start.items():
                for L in f.mem.get(b, ())[start:]:
                    lst = new.setdefault(b, [])
                    if not any(L is x for x in lst):
                        lst.append(L)
        self.check_reads(fr, new, st)
        after = st.copy()
        for v in assigned:
            after.env[v] = Poison("%s after a loop" % v)
        outer = band(*st.pc[(self.frames[-1].base if self.frames else self.base):])
        for b, layers in new.items():
            closed = []
            ok = self.check_order(fr, layers, st)
            for L in layers:
                closed.append(self.close(fr, L, outer, n))
            if not ok:
                if not sym(n) and n <= 64:
                    raise LoopCarried("overlapping writes in a loop")
                # later iterations overwrite cells of earlier ones: the contents after the loop are left unspecified
                buf = self.buffers[b]
                ks = [fresh("h") for _ in buf.shape]
                closed = [Layer([(x, 0, m) for x, m in zip(ks, buf.shape)], True, ks, HAVOC, getattr(s, "lineno", None))]
            after.mem[b] = after.mem[b] + tuple(closed)
            if prange:
                self.check_race(fr, layers, st, s)
        for h, v in grown.items():
            after.heap[h] = v
        return [Outcome("next", after)] + res

    def _other_iteration(self, fr, L):
        """The layer as written by another iteration k2."""
        k2 = fresh("k")
        guard = L.guard
        own = {b.get_id() for b, _, _ in L.binders} | {fr.k.get_id()}

        def local(e):
            return sym(e) and any(c.get_id() not in own and "!" in c.decl().name() and int(c.decl().name().rsplit("!", 1)[1]) >= fr.first_id
                                  for c in core.free_consts(e))
        if local(guard):
            guard = True
        if any(local(i) for i in L.idx):
            return k2, None
        M = Layer(L.binders, guard, L.idx, HAVOC).subst([(fr.k, k2)])
        return k2, M

    def check_reads(self, fr, new, st):
        for buf, p, residual, node in fr.reads:
            for L in new.get(buf.id, ()):
                k2, M = self._other_iteration(fr, L)
                if M is None:
                    raise LoopCarried("read of a cell that another iteration may write")
                pc = residual + [cmp("<=", 0, k2), cmp("<", k2, fr.hi), z3.Not(k2 == fr.k) if fr.prange else cmp("<", k2, fr.k)]
                if may_match(M, p, pc):
                    raise LoopCarried("%s is read where another iteration may have written it" % buf.name)

    def check_order(self, fr, layers, st):
        if len(layers) < 2:
            return True
        for a in range(len(layers)):
            for b in range(a + 1, len(layers)):
                k2, M = self._other_iteration(fr, layers[b])
                if M is None:
                    return False
                pc = st.pc + [cmp("<=", 0, k2), cmp("<", k2, fr.k), cmp("<", fr.k, fr.hi), cmp("<=", 0, fr.k)]
                if layers[a].val is not HAVOC and layers[b].val is not HAVOC and sym(layers[a].val) and sym(layers[b].val) and layers[a].val.eq(layers[b].val) and fr.k.get_id() not in subterms(layers[a].val):
                    continue
                if overlap(layers[a], M, pc):
                    return False
        return True

    def check_race(self, fr, layers, st, node):
        for a in layers:
            for b in layers:
                k2, M = self._other_iteration(fr, b)
                bad = M is None
                if not bad:
                    pc = st.pc + [cmp("<=", 0, k2), cmp("<", k2, fr.hi), z3.Not(k2 == fr.k), cmp("<=", 0, fr.k), cmp("<", fr.k, fr.hi)]
                    bad = overlap(a, M, pc)
                self.oblige("race", not bad, st, node, "parallel iterations write different cells")

    def close(self, fr, L, outer, n):
        """Turn a write of the arbitrary iteration into a quantified write."""
        own = {b.get_id() for b, _, _ in L.binders} | {fr.k.get_id()}
        exprs = [x for x in [L.guard, L.val] + L.idx + [y for _, lo, hi in L.binders for y in (lo, hi)] if sym(x)]
        pairs = []
        seen = set()
        for e in exprs:
            for c in core.free_consts(e):
                nm = c.decl().name()
                if c.get_id() in own or c.get_id() in seen or "!" not in nm:
                    continue
                if int(nm.rsplit("!", 1)[1]) >= fr.first_id:
                    seen.add(c.get_id())
                    # a constant introduced by the iteration becomes a function of the loop variables
                    args = [fr.k] + [b for b, _, _ in L.binders]
                    f = z3.Function(nm + "@", *([I] * len(args)), c.sort())
                    app = f(*args)
                    defs = core.DEFS.get(nm, [])
                    if defs:
                        core._facts_for[nm + "@"] = (lambda x, defs=defs, c=c, app=app, args=args:
                                                     [substitute(z3.substitute(d, (c, app)), list(zip(args, x.children()))) for d in defs])
                    pairs.append((c, app))
        M = L.subst(pairs) if pairs else L
        return Layer([(fr.k, 0, n)] + M.binders, band(outer, M.guard), M.idx, M.val, L.where)

    # -------------------------------------------------------------- expressions
    def eval(self, e, st):
        f = getattr(self, "e_" + type(e).__name__, None)
        if f is None:
            raise Unsupported("expression %s" % type(e).__name__)
        return f(e, st)

    def e_Constant(self, e, st):
        v = e.value
        if isinstance(v, float):
            return Fraction(repr(v))
        return v

    def lookup(self, name, st):
        if name in st.env:
            v = st.env[name]
            if isinstance(v, Partial) and decide(v.cond, st.pc) is True:
                return v.val
            if isinstance(v, Poison):
                raise LoopCarried(v.why)
            return v
        fc = self.funs[-1]
        c = fc.fv.closure
        if c is not None and name in c:
            v = c[name]
            if isinstance(v, Poison):
                raise Unsupported(v.why)
            return v
        return self.resolve_global(fc.fv.mod.name, name, st)

    def e_Name(self, e, st):
        return self.lookup(e.id, st)

    def e_Tuple(self, e, st):
        return tuple(self.eval_list(e.elts, st))

    def e_List(self, e, st):
        o = ListObj()
        st.heap[o.id] = self.eval_list(e.elts, st)
        return o

    def e_Set(self, e, st):
        return tuple(self.eval_list(e.elts, st))

    def mklist(self, items, st):
        o = ListObj()
        st.heap[o.id] = list(items)
        return o

    def eval_list(self, elts, st):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out += list(self.items(self.eval(x.value, st), st))
            else:
                out.append(self.eval(x, st))
        return out

    def e_Dict(self, e, st):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.eval(v, st)
                d.update(st.heap[o.id])
            else:
                d[self.key(self.eval(k, st))] = self.eval(v, st)
        o = DictObj()
        st.heap[o.id] = d
        return o

    def e_JoinedStr(self, e, st):
        parts = [x.value if isinstance(x, ast.Constant) else self.eval(x.value, st) for x in e.values]
        for x in parts:
            if isinstance(x, LibObj) and getattr(x, "is_token", False):
                return x.within(parts)
        return "<f-string>"

    def e_Lambda(self, e, st):
        fc = self.funs[-1]
        node = ast.FunctionDef("<lambda>", e.args, [ast.Return(e.body)], [], None, None)
        node.lineno = getattr(e, "lineno", 0)
        node.c_args, node.c_locals, node.c_ret, node.is_cdef, node.cls = {}, {}, "object", False, None
        return FuncVal(fc.fv.mod, node, ClosureEnv(st, fc.fv.closure), None, None, fc.fv.qual + ".<lambda>")

    def e_IfExp(self, e, st):
        c = self.truth(self.eval(e.test, st), st, e)
        d = decide(c, st.pc)
        if d is True:
            return self.eval(e.body, st)
        if d is False:
            return self.eval(e.orelse, st)
        a, b = st.copy(), st.copy()
        a.pc.append(c)
        b.pc.append(bnot(c))
        n = len(self.raises)
        va, vb = self.eval(e.body, a), self.eval(e.orelse, b)
        v = self.merge_val(c, va, vb)
        if v is not None and len(a.pc) == len(st.pc) + 1 and len(b.pc) == len(st.pc) + 1:
            for x in (a, b):
                for k, l in x.mem.items():
                    if k not in st.mem:
                        st.mem[k] = l
            return v
        del self.raises[n:]
        if self.choose(2) == 0:
            st.pc.append(c)
            return self.eval(e.body, st)
        st.pc.append(bnot(c))
        return self.eval(e.orelse, st)

    def e_Yield(self, e, st):
        v = self.eval(e.value, st) if e.value is not None else None
        o = st.env["<yield>"]
        st.heap[o.id] = st.heap[o.id] + [v]
        return None

    def e_YieldFrom(self, e, st):
        o = st.env["<yield>"]
        v = self.unlist(self.eval(e.value, st), st)
        if isinstance(v, SymSeq) and sym(v.length):
            if isinstance(st.heap[o.id], list) and not st.heap[o.id]:
                st.heap[o.id] = v
                return None
            raise Unsupported("yield from")
        st.heap[o.id] = st.heap[o.id] + list(self.items(v, st))
        return None

    def e_NamedExpr(self, e, st):
        v = self.eval(e.value, st)
        self.assign(e.target, v, st, e)
        return v

    def truth(self, v, st, node):
        if isinstance(v, bool) or (sym(v) and v.sort() == B):
            return v
        if is_num(v):
            return cmp("!=", v, 0)
        if v is None:
            return False
        v = self.unlist(v, st)
        if isinstance(v, (str, tuple)):
            return len(v) > 0
        if isinstance(v, ListObj) or isinstance(v, DictObj):
            return len(st.heap[v.id]) > 0
        if isinstance(v, SymSeq):
            return cmp(">", v.length, 0)
        if isinstance(v, View):
            if all(not sym(x) and x == 1 for x in v.shape):
                return self.truth(self.read(v, [0] * v.ndim, st, node), st, node)
            if v.ndim == 0:
                return self.truth(self.read(v, [], st, node), st, node)
            raise PyRaise(Exc(self.exc("ValueError")), st)
        if isinstance(v, LibObj):
            if hasattr(v, "truth"):
                return v.truth(self, st)
            return True
        return True

    def e_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)
        vals = []
        s2 = st
        n0 = len(st.pc)
        for k, x in enumerate(e.values):
            v = self.eval(x, s2)
            t = self.truth(v, s2, e)
            last = k == len(e.values) - 1
            d = decide(t, s2.pc) if not last or not is_bool(v) else None
            if d is not None and not last:
                if d is (not isand):
                    if not vals:
                        del_ = v
                        return v
                    vals.append((v, t))
                    break
                continue
            vals.append((v, t))
            if not last:
                if s2 is st:
                    s2 = st.copy()
                s2.pc.append(t if isand else bnot(t))
        if s2 is not st:
            for k, l in s2.mem.items():
                if k not in st.mem:
                    st.mem[k] = l
        if len(vals) == 1:
            return vals[0][0]
        ts = [t for _, t in vals]
        if not all(is_bool(v) for v, _ in vals):
            # value semantics: x or y
            r = vals[-1][0]
            for v, t in reversed(vals[:-1]):
                m = self.merge_val(t, r, v) if isand else self.merge_val(t, v, r)
                if m is None:
                    return band(*ts) if isand else bor(*ts)
                r = m
            return r
        return band(*ts) if isand else bor(*ts)

    def e_UnaryOp(self, e, st):
        v = self.eval(e.operand, st)
        if isinstance(e.op, ast.Not):
            return bnot(self.truth(v, st, e))
        if isinstance(v, View):
            if isinstance(e.op, ast.USub):
                return self.array_map(lambda s2, x: neg(x), [v], v.dtype, st, e)
            if isinstance(e.op, ast.Invert) and v.dtype == "bool":
                return self.array_map(lambda s2, x: bnot(x), [v], "bool", st, e)
        if isinstance(v, LibObj) and hasattr(v, "unary"):
            return v.unary(self, st, e.op, e)
        if not is_num(v):
            raise Unsupported("unary operator on %s" % type(v).__name__)
        if isinstance(e.op, ast.USub):
            r = neg(v)
            if self.ctype(e.operand) in ("unsigned int", "size_t"):
                raise Unsupported("negated unsigned value")
            return r
        if isinstance(e.op, ast.UAdd):
            return v
        raise Unsupported("operator ~")

    # static C types (for unsigned arithmetic)
    def ctype(self, e):
        fc = self.funs[-1]
        if not fc.cython:
            return "object"
        if isinstance(e, ast.Name):
            t = fc.ctypes.get(e.id)
            return t if isinstance(t, str) else "object"
        if isinstance(e, ast.Constant):
            v = e.value
            return "long" if isinstance(v, int) else ("float64" if isinstance(v, (float, Fraction)) else "object")
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name):
                t = fc.ctypes.get(e.value.id)
                m = fc.fv.mod.classes.get(t) if isinstance(t, str) else None
                if m is not None:
                    return m.attr_types.get(e.attr, "object")
            return "object"
        if isinstance(e, ast.Subscript):
            if isinstance(e.value, ast.Attribute) and e.value.attr == "shape":
                return "Py_ssize_t"
            if isinstance(e.value, ast.Name):
                t = fc.ctypes.get(e.value.id)
                if isinstance(t, tuple):
                    return t[1]
            return "object"
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name):
                if e.func.id == "__cast__":
                    return e.args[0].value
                m = fc.fv.mod.functions.get(e.func.id)
                if m is not None:
                    return m.c_ret
                if e.func.id in ("min", "max", "abs"):
                    ts = [self.ctype(a) for a in e.args]
                    return self._arith(ts)
            return "object"
        if isinstance(e, ast.IfExp):
            return self._arith([self.ctype(e.body), self.ctype(e.orelse)])
        if isinstance(e, ast.UnaryOp):
            return self.ctype(e.operand)
        if isinstance(e, ast.BinOp):
            a, b = self.ctype(e.left), self.ctype(e.right)
            if isinstance(e.op, ast.Div) and a in INTS and b in INTS:
                return "float64"
            return self._arith([a, b])
        return "object"

    def _arith(self, ts):
        if any(not isinstance(t, str) or t == "object" or (t not in INTS and t not in FLOATS) for t in ts):
            return "object"
        for t in ("float64", "floating", "float32"):
            if t in ts:
                return t
        rank = ["bint", "char", "unsigned char", "short", "unsigned short", "int", "unsigned int", "long", "Py_ssize_t", "unsigned long", "size_t"]
        return max(ts, key=rank.index)

    def e_BinOp(self, e, st):
        a = self.eval(e.left, st)
        b = self.eval(e.right, st)
        return self.binop(e.op, a, b, st, e, self.ctype(e))

    def binop(self, op, a, b, st, node, ct):
        if isinstance(a, LibObj) and hasattr(a, "binop"):
            return a.binop(self, st, op, a, b, node)
        if isinstance(b, LibObj) and hasattr(b, "binop"):
            return b.binop(self, st, op, a, b, node)
        if isinstance(a, View) or isinstance(b, View):
            return self.array_binop(op, a, b, st, node)
        if isinstance(a, str) or isinstance(b, str):
            if isinstance(op, ast.Add) and isinstance(a, str) and isinstance(b, str):
                return a + b
            if isinstance(op, ast.Add):
                return "<str>"
            if isinstance(op, ast.Mod):
                return "<str>"
        if isinstance(op, ast.Add) and isinstance(a, (tuple, ListObj)) and isinstance(b, (tuple, ListObj)):
            if isinstance(a, tuple):
                return tuple(a) + tuple(self.items(b, st))
            return self.mklist(list(self.items(a, st)) + list(self.items(b, st)), st)
        if isinstance(op, ast.Mult) and isinstance(a, (tuple, ListObj)) and isinstance(b, int):
            return a * b if isinstance(a, tuple) else self.mklist(st.heap[a.id] * b, st)
        if isinstance(a, SymSeq) or isinstance(b, SymSeq):
            if isinstance(op, ast.Add):
                return self.concat_seq(a, b, st)
        if not is_num(a) or not is_num(b):
            raise Unsupported("operator %s on %s and %s" % (type(op).__name__, type(a).__name__, type(b).__name__))
        return self.scalar_binop(op, a, b, st, node, ct)

    def concat_seq(self, a, b, st):
        def seq(x):
            if isinstance(x, SymSeq):
                return x
            its = list(self.items(x, st))
            if not all(is_num(v) for v in its):
                raise Unsupported("sequence concatenation")

            def fn(k):
                if not sym(k):
                    return its[k]
                r = its[-1]
                for n in range(len(its) - 2, -1, -1):
                    r = ite(eq(k, n), its[n], r)
                return r
            return SymSeq(len(its), fn)
        a, b = seq(a), seq(b)
        return SymSeq(add(a.length, b.length), lambda k: ite(cmp("<", k, a.length), a.fn(k), b.fn(sub(k, a.length))))

    def scalar_binop(self, op, a, b, st, node, ct=None):
        cy = self.funs[-1].cython if self.funs else False
        if is_bool(a):
            a = ite(a, 1, 0)
        if is_bool(b):
            b = ite(b, 1, 0)
        if isinstance(op, ast.Add):
            return self.wrap(add(a, b), ct, st)
        if isinstance(op, ast.Sub):
            return self.wrap(sub(a, b), ct, st)
        if isinstance(op, ast.Mult):
            return self.wrap(mul(a, b), ct, st)
        if isinstance(op, ast.Div):
            self.nonzero(b, st, node)
            if not sym(b) and b == 0:
                return fresh("undef", RL)
            return div(a, b)
        if isinstance(op, ast.FloorDiv):
            self.nonzero(b, st, node)
            if not sym(b) and b == 0:
                return fresh("undef", I)
            if is_real(a) or is_real(b):
                q = div(a, b)
                if not sym(q):
                    return Fraction(q.numerator // q.denominator)
                return Z(z3.ToInt(Z(q, True)), True)
            return self.int_floordiv(a, b, st, cy and ct in INTS)
        if isinstance(op, ast.Mod):
            self.nonzero(b, st, node)
            if not sym(b) and b == 0:
                return fresh("undef", I)
            if is_real(a) or is_real(b):
                q = div(a, b)
                f = Fraction(q.numerator // q.denominator) if not sym(q) else self.floor_real(q, st)
                return sub(a, mul(b, f))
            return sub(a, mul(b, self.int_floordiv(a, b, st, cy and ct in INTS)))
        if isinstance(op, ast.Pow):
            try:
                return power(a, b)
            except ArithmeticError:
                raise Unsupported("power")
        raise Unsupported("operator %s" % type(op).__name__)

    def floor_real(self, q, st):
        """floor of a real term; exact for quotients of integers."""
        p = core.poly(q)
        den = 1
        if all(core._atoms[a].sort() == I for m in p for a, _ in m):
            import math
            den = math.lcm(*[v.denominator for v in p.values()]) if p else 1
            num = core.unpoly({m: v * den for m, v in p.items()}, I)
            return Z(num / den if den != 1 else num, True)
        return Z(z3.ToInt(Z(q, True)), True)

    def int_floordiv(self, a, b, st, c_style):
        if not sym(a) and not sym(b):
            return (abs(a) // abs(b)) * (1 if (a >= 0) == (b >= 0) else -1) if c_style else a // b
        pos = decide(cmp(">", b, 0), st.pc)
        if pos is not True:
            raise Unsupported("integer division by a value of unknown sign")
        if c_style:
            d = decide(cmp(">=", a, 0), st.pc)
            if d is True:
                return idiv(a, b, st.pc)
            na = idiv(neg(a), b, st.pc)
            return neg(na) if d is False else ite(cmp(">=", a, 0), idiv(a, b, st.pc), neg(na))
        return idiv(a, b, st.pc)

    def wrap(self, r, ct, st):
        if ct in ("unsigned int", "size_t", "unsigned long") and (not sym(r) or is_int(r)):
            d = decide(cmp(">=", r, 0), st.pc)
            if d is not True:
                w = 2**32 if ct == "unsigned int" else 2**64
                return ite(cmp(">=", r, 0), r, add(r, w))
        return r

    def nonzero(self, b, st, node):
        self.oblige("div0", cmp("!=", b, 0), st, node, "divisor is not zero")

    # -- arrays elementwise
    def broadcast(self, vs, st, node):
        nd = max([v.ndim for v in vs if isinstance(v, View)])
        shape = [1] * nd
        for v in vs:
            if not isinstance(v, View):
                continue
            for k in range(v.ndim):
                kk = k + nd - v.ndim
                n = v.shape[k]
                if not sym(shape[kk]) and shape[kk] == 1:
                    shape[kk] = n
                elif not sym(n) and n == 1:
                    pass
                elif not _same(n, shape[kk]):
                    if decide(eq(n, shape[kk]), st.pc) is not True:
                        self.maybe_raise(bnot(eq(n, shape[kk])), Exc(self.exc("ValueError")), st, node)
        return shape

    def array_map(self, f, vs, dtype, st, node, oblige=None):
        """Elementwise array; f(state, *scalars)."""
        shape = self.broadcast(vs, st, node)
        fro = [self.freeze(v, st) if isinstance(v, View) else v for v in vs]

        def base(ex, s2, p):
            args = []
            for v in fro:
                if isinstance(v, View):
                    off = len(shape) - v.ndim
                    idx = [0 if (not sym(v.shape[k]) and v.shape[k] == 1) else p[k + off] for k in range(v.ndim)]
                    args.append(ex.read(v, idx, s2, node, check=False))
                else:
                    args.append(v)
            return f(s2, *args)
        r = self.fnarray(st, shape, dtype, base)
        if oblige is not None:
            ks = [fresh("e") for _ in shape]
            s2 = st.copy()
            for k, n in zip(ks, shape):
                s2.pc += [cmp("<=", 0, k), cmp("<", k, n)]
            args = []
            for v in fro:
                if isinstance(v, View):
                    off = len(shape) - v.ndim
                    args.append(self.read(v, [0 if (not sym(v.shape[k]) and v.shape[k] == 1) else ks[k + off] for k in range(v.ndim)], s2, node, check=False))
                else:
                    args.append(v)
            oblige(s2, *args)
        return r

    def result_dtype(self, vs, op=None):
        dts = []
        for v in vs:
            if isinstance(v, View):
                dts.append(v.dtype)
        sc = [v for v in vs if not isinstance(v, View)]
        if isinstance(op, ast.Div):
            fl = [d for d in dts if d in FLOATDT]
            if not fl:
                return "f8"
            return promote(fl if len(fl) == len(dts) else fl + ["f8"])
        d = promote(dts)
        if d not in FLOATDT and any(is_real(x) for x in sc):
            return "f8"
        if d == "bool" and sc:
            return "i8"
        return d

    def array_binop(self, op, a, b, st, node):
        for x in (a, b):
            if not isinstance(x, View) and not is_num(x):
                if isinstance(x, (tuple, ListObj)):
                    continue
                raise Unsupported("array operator with %s" % type(x).__name__)
        a = self.to_array(a, st) if isinstance(a, (tuple, ListObj)) else a
        b = self.to_array(b, st) if isinstance(b, (tuple, ListObj)) else b
        if isinstance(op, (ast.BitAnd, ast.BitOr)):
            f = band if isinstance(op, ast.BitAnd) else bor
            return self.array_map(lambda s2, x, y: f(self.truth(x, s2, node), self.truth(y, s2, node)), [a, b], "bool", st, node)
        dt = self.result_dtype([a, b], op)
        obl = None
        if isinstance(op, (ast.Div, ast.FloorDiv, ast.Mod)):
            def obl(s2, x, y):
                self.nonzero(y, s2, node)
        saved = self.kinds

        def f(s2, x, y):
            return self.quiet(lambda: self.scalar_binop(op, x, y, s2, node, "array"))
        return self.array_map(f, [a, b], dt, st, node, obl)

    def quiet(self, f):
        saved, self.kinds = self.kinds, ()
        try:
            return f()
        finally:
            self.kinds = saved

    def to_array(self, v, st):
        if isinstance(v, View):
            return v
        if isinstance(v, SymSeq):
            probe = v.fn(0) if not sym(v.length) and v.length > 0 else v.fn(fresh("s"))
            if is_num(probe):
                return self.fnarray(st, [v.length], "f8" if is_real(probe) else ("bool" if is_bool(probe) else "i8"), lambda ex, s2, p: v.fn(p[0]))
            raise Unsupported("array of a symbolic sequence")
        if isinstance(v, RangeVal):
            n = self.range_count(v, st)
            return self.fnarray(st, [n], "i8", lambda ex, s2, p: add(v.lo, mul(v.step, p[0])))
        if isinstance(v, (tuple, ListObj)):
            its = list(self.items(v, st))
            if all(is_num(x) for x in its):
                dt = "f8" if any(is_real(x) for x in its) else ("bool" if its and all(is_bool(x) for x in its) else "i8")

                def runs(k):
                    """the elements as runs of constant step"""
                    pieces, a = [], 0
                    while a < len(its):
                        b = a + 1
                        while b + 1 < len(its) and its[b + 1] - its[b] == its[a + 1] - its[a]:
                            b += 1
                        b = a if b - a < 3 else min(b, len(its) - 1)
                        pieces.append((a, b))
                        a = b + 1
                    r = None
                    for a, b in reversed(pieces):
                        v = its[a] if a == b else add(its[a], mul(its[a + 1] - its[a], sub(k, a)))
                        r = v if r is None else ite(cmp("<=", k, b), v, r)
                    return r

                def base(ex, s2, p):
                    k = p[0]
                    if not sym(k):
                        return its[k]
                    if len(its) > 8 and not any(sym(x) for x in its):
                        return runs(k)
                    r = its[-1]
                    for n in range(len(its) - 2, -1, -1):
                        r = ite(eq(k, n), its[n], r)
                    return r
                return self.fnarray(st, [len(its)], dt, base)
            its = [self.to_array(x, st) for x in its]
            return self.libs["numpy"].table["stack"].fn(self, st, [tuple(its)], {}, None)
        if is_num(v):
            return self.fnarray(st, [], "f8" if is_real(v) else "i8", lambda ex, s2, p: v)
        if isinstance(v, LibObj) and hasattr(v, "to_array"):
            return v.to_array(self, st)
        raise Unsupported("array from %s" % type(v).__name__)

    def e_Compare(self, e, st):
        left = self.eval(e.left, st)
        res = []
        for op, c in zip(e.ops, e.comparators):
            right = self.eval(c, st)
            if isinstance(op, (ast.Is, ast.IsNot)) and isinstance(c, ast.Name) and c.id == "float" and isinstance(left, DType) and left.tag == "FT":
                right = DType("f4")         # the C type
            res.append(self.compare(op, left, right, st, e))
            left = right
        if len(res) == 1:
            return res[0]
        return band(*[self.truth(r, st, e) for r in res])

    CMPS = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!="}

    def compare(self, op, a, b, st, node):
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.identical(a, b)
            return r if isinstance(op, ast.Is) else bnot(r)
        if isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(b, DictObj):
                r = self.key(a) in st.heap[b.id]
            elif isinstance(b, str):
                r = a in b
            else:
                r = bor(*[self.truth(self.compare(ast.Eq(), a, x, st, node), st, node) for x in self.items(b, st)])
            return r if isinstance(op, ast.In) else bnot(r)
        o = self.CMPS[type(op)]
        if isinstance(a, LibObj) and hasattr(a, "compare"):
            return a.compare(self, st, o, a, b, node)
        if isinstance(b, LibObj) and hasattr(b, "compare"):
            return b.compare(self, st, o, a, b, node)
        if isinstance(a, View) or isinstance(b, View):
            a2 = self.to_array(a, st) if isinstance(a, (tuple, ListObj)) else a
            b2 = self.to_array(b, st) if isinstance(b, (tuple, ListObj)) else b
            if not all(isinstance(x, View) or is_num(x) for x in (a2, b2)):
                return o == "!="
            return self.array_map(lambda s2, x, y: cmp(o, x, y), [a2, b2], "bool", st, node)
        if is_num(a) and is_num(b):
            return cmp(o, a, b)
        if o in ("==", "!="):
            r = self.equal(a, b, st, node)
            return r if o == "==" else bnot(r)
        raise Unsupported("comparison of %s and %s" % (type(a).__name__, type(b).__name__))

    def equal(self, a, b, st, node):
        if isinstance(a, (tuple, ListObj)) and isinstance(b, (tuple, ListObj)):
            if isinstance(a, tuple) != isinstance(b, tuple):
                return False
            x, y = list(self.items(a, st)), list(self.items(b, st))
            if len(x) != len(y):
                return False
            return band(*[self.truth(self.compare(ast.Eq(), p, q, st, node), st, node) for p, q in zip(x, y)])
        if isinstance(a, SymSeq) and isinstance(b, SymSeq):
            if a is b:
                return True
            # some truth value; when it is true the lengths and all elements are equal
            for b0, p, q in self.__dict__.setdefault("seq_equal", []):
                if (p is a and q is b) or (p is b and q is a):
                    return b0
            b0 = fresh("unknown_equal", core.B)
            self.seq_equal.append((b0, a, b))
            st.pc.append(z3.Implies(b0, Z(eq(a.length, b.length))))
            return b0
        if isinstance(a, DType) or isinstance(b, DType):
            return isinstance(a, DType) and isinstance(b, DType) and a.tag == b.tag
        if a is None or b is None or isinstance(a, (str, bool)) or isinstance(b, (str, bool)):
            return type(a) is type(b) and a == b
        return a is b

    def identical(self, a, b):
        if isinstance(a, DType) and isinstance(b, DType):
            fa, fb = (self.fused if x.tag == "FT" else x.tag for x in (a, b))
            if "FT" in (fa, fb):
                raise Unsupported("test of the fused type")
            return fa == fb
        if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
            return a is b
        if isinstance(a, Builtin) or isinstance(b, Builtin):
            return a is b
        return a is b

    # -- attributes, subscripts
    def e_Attribute(self, e, st):
        o = self.eval(e.value, st)
        return self.getattr(o, e.attr, st, e)

    def getattr(self, o, name, st, node):
        if isinstance(o, LibModule):
            if name in o.table:
                return o.table[name]
            sub_ = self.libs.get(o.name + "." + name)
            if sub_ is not None:
                return sub_
            raise Unsupported("%s.%s has no contract" % (o.name, name))
        if isinstance(o, tuple) and len(o) == 2 and o[0] == "pkg":
            if o[1] + "." + name in self.modules:
                return ("pkg", o[1] + "." + name)
            return self.resolve_global(o[1], name, st)
        if isinstance(o, View):
            return self.array_attr(o, name, st, node)
        if isinstance(o, Inst):
            d = st.heap.get(o.id, {})
            if name in d:
                return d[name]
            v, c = o.cls.lookup(name)
            if v is None and c is None:
                if name == "__dict__":
                    raise Unsupported("__dict__")
                raise PyRaise(Exc(self.exc("AttributeError")), st)
            if isinstance(v, FuncVal):
                if any(isinstance(x, ast.Name) and x.id == "property" for x in v.node.decorator_list):
                    return self.call(FuncVal(v.mod, v.node, v.closure, o, c, v.qual), [], {}, st, node)
                if any(isinstance(x, ast.Name) and x.id == "staticmethod" for x in v.node.decorator_list):
                    return v
                return FuncVal(v.mod, v.node, v.closure, o, c, v.qual)
            return v
        if isinstance(o, ClassVal):
            v, c = o.lookup(name)
            if c is not None:
                return v
            if name == "__name__":
                return o.name
            raise PyRaise(Exc(self.exc("AttributeError")), st)
        if isinstance(o, (ListObj, DictObj, str, tuple, FuncVal, PySlice, RangeVal, SymSeq)):
            m = self.libs["builtins"].methods.get((type(o).__name__, name))
            if m is not None:
                return Builtin("%s.%s" % (type(o).__name__, name), lambda ex, s2, a, k, nd: m(ex, s2, [o] + list(a), k, nd))
            if isinstance(o, PySlice):
                return {"start": o.start, "stop": o.stop, "step": o.step}[name]
            if isinstance(o, FuncVal):
                if name in o.attrs:
                    return o.attrs[name]
                if name == "__name__":
                    return o.node.name
            raise PyRaise(Exc(self.exc("AttributeError")), st)
        if isinstance(o, LibObj):
            return o.getattr(self, st, name, node)
        if isinstance(o, DType):
            if name in ("type",):
                return o
            if name == "itemsize":
                return {"f4": 4, "f8": 8, "i8": 8, "i4": 4}.get(o.tag) or fresh("itemsize")
            if name == "kind":
                return {"f4": "f", "f8": "f", "FT": "f", "i8": "i", "bool": "b"}.get(o.tag, "O")
        if isinstance(o, Super):
            for c in o.chain:
                if name in c.attrs:
                    v = c.attrs[name]
                    return FuncVal(v.mod, v.node, v.closure, o.obj, c, v.qual)
            if name == "__init__":
                return Builtin("object.__init__", lambda ex, s2, a, k, nd: None)
            raise PyRaise(Exc(self.exc("AttributeError")), st)
        if o is None or is_num(o):
            if is_num(o):
                m = self.libs["builtins"].methods.get(("number", name))
                if m is not None:
                    return Builtin("number." + name, lambda ex, s2, a, k, nd: m(ex, s2, [o] + list(a), k, nd))
            raise PyRaise(Exc(self.exc("AttributeError")), st)
        raise Unsupported("attribute %s of %s" % (name, type(o).__name__))

    def array_attr(self, v, name, st, node):
        if name == "shape":
            return tuple(v.shape)
        if name == "ndim":
            return v.ndim
        if name == "dtype":
            return DType(v.dtype)
        if name == "size":
            r = 1
            for n in v.shape:
                r = mul(r, n)
            return r
        if name == "T":
            return self.permute(v, list(range(v.ndim))[::-1])
        if name == "data" and v.kind == "nd":
            return v
        if name == "flags":
            raise Unsupported("array flags")
        m = self.libs["numpy"].methods.get(name)
        if m is None:
            if name in ("compute", "dims", "chunks", "coords", "lons", "lats", "get_cartesian_coords", "rechunk"):
                raise PyRaise(Exc(self.exc("AttributeError")), st)
            raise Unsupported("ndarray.%s has no contract" % name)
        return Builtin("ndarray." + name, lambda ex, s2, a, k, nd: m(ex, s2, [v] + list(a), k, nd))

    def permute(self, v, order):
        pos = {old: new for new, old in enumerate(order)}
        axes = [a if a[0] == "fix" else ("ax", pos[a[1]], a[2], a[3]) for a in v.axes]
        return View(v.buf, axes, [v.shape[k] for k in order], v.layers, v.kind)

    def e_Slice(self, e, st):
        g = lambda x: None if x is None else self.eval(x, st)
        return PySlice(g(e.lower), g(e.upper), g(e.step))

    def eval_index(self, e, st):
        if isinstance(e, ast.Tuple):
            return tuple(self.eval_list(e.elts, st))
        return self.eval(e, st)

    def e_Subscript(self, e, st):
        base = self.eval(e.value, st)
        key = self.eval_index(e.slice, st)
        return self.subscript(base, key, st, e)

    def subscript(self, base, key, st, node, lvalue=False):
        base = self.unlist(base, st)
        if isinstance(base, View):
            return self.array_index(base, key, st, node, lvalue)
        if isinstance(base, (tuple, ListObj)):
            its = base if isinstance(base, tuple) else st.heap[base.id]
            if isinstance(key, PySlice):
                for x in (key.start, key.stop, key.step):
                    if sym(x):
                        raise Unsupported("slice of a list at a symbolic position")
                r = its[slice(key.start, key.stop, key.step)]
                return tuple(r) if isinstance(base, tuple) else self.mklist(r, st)
            if sym(key) and is_int(key):
                if all(is_num(x) for x in its) and its:
                    self.oblige("index", band(cmp("<=", -len(its), key), cmp("<", key, len(its))), st, node, "list index in range")
                    if len(its) > 8 and not any(sym(x) for x in its):
                        return runs(k)
                    r = its[-1]
                    for n in range(len(its) - 2, -1, -1):
                        r = ite(eq(key, n), its[n], r)
                    return r
                raise Unsupported("list index is symbolic")
            if not isinstance(key, int):
                raise Unsupported("list index")
            if not -len(its) <= key < len(its):
                raise PyRaise(Exc(self.exc("IndexError")), st)
            return its[key]
        if isinstance(base, DictObj):
            k = self.key(key)
            d = st.heap[base.id]
            if k not in d:
                raise PyRaise(Exc(self.exc("KeyError")), st)
            return d[k]
        if isinstance(base, SymSeq):
            if isinstance(key, PySlice):
                lo = 0 if key.start is None else key.start
                hi = base.length if key.stop is None else key.stop
                if key.step is not None:
                    raise Unsupported("stepped slice of a sequence")
                if not sym(hi) and hi < 0:
                    hi = add(base.length, hi)
                if not sym(lo) and lo < 0:
                    lo = add(base.length, lo)
                if decide(band(cmp("<=", 0, lo), cmp("<=", lo, hi), cmp("<=", hi, base.length)), st.pc) is not True:
                    raise Unsupported("sequence slice out of range")
                s = SymSeq(sub(hi, lo), lambda k: base.fn(add(lo, k)))
                if getattr(base, "prefix", None) is not None and not sym(lo) and lo == 0:
                    s.sum = base.prefix(hi)
                if getattr(base, "prefix", None) is not None:
                    s.prefix = lambda k: sub(base.prefix(add(lo, k)), base.prefix(lo))
                return s
            if is_int(key):
                k = key
                if not sym(k) and k < 0:
                    k = add(base.length, k)
                self.oblige("index", band(cmp("<=", 0, k), cmp("<", k, base.length)), st, node, "sequence index in range")
                return base.fn(k)
        if isinstance(base, LibObj) and hasattr(base, "getitem"):
            return base.getitem(self, st, key, node)
        if isinstance(base, str) and isinstance(key, int):
            return base[key]
        if isinstance(base, RangeVal) and is_int(key):
            n = self.range_count(base, st)
            k = add(n, key) if not sym(key) and key < 0 else key
            self.oblige("index", band(cmp("<=", 0, k), cmp("<", k, n)), st, node, "range index in range")
            return add(base.lo, mul(base.step, k))
        raise Unsupported("subscript of %s" % type(base).__name__)

    def wraparound(self, v, node):
        if v.kind == "nd":
            return True
        fc = self.funs[-1]
        for d in fc.fv.node.decorator_list:
            if isinstance(d, ast.Call) and isinstance(d.func, ast.Attribute) and d.func.attr == "wraparound":
                return bool(d.args[0].value)
        line = fc.fv.mod.source.split("\n", 1)[0]
        return "wraparound=False" not in line

    def array_index(self, v, key, st, node, lvalue=False):
        keys = list(key) if isinstance(key, tuple) else [key]
        if any(isinstance(k, View) or isinstance(k, ListObj) for k in keys):
            return self.fancy_index(v, keys, st, node, lvalue)
        if Ellipsis in [k for k in keys if k is Ellipsis]:
            n = keys.index(Ellipsis)
            used = len([k for k in keys if k is not None and k is not Ellipsis])
            keys[n:n + 1] = [PySlice(None, None)] * (v.ndim - used)
        nidx = len([k for k in keys if k is not None])
        if nidx > v.ndim:
            raise PyRaise(Exc(self.exc("IndexError")), st)
        keys += [PySlice(None, None)] * (v.ndim - nidx)
        wrap = self.wraparound(v, node)
        new_shape, sel, dim = [], [], 0
        for k in keys:
            if k is None:
                new_shape.append(1)
                continue
            n = v.shape[dim]
            if isinstance(k, PySlice):
                off, step, cnt = self.slice_of(k, n, st, node)
                sel.append(("s", len(new_shape), off, step))
                new_shape.append(cnt)
            elif is_num(k):
                if is_real(k):
                    raise PyRaise(Exc(self.exc("IndexError")), st)
                if is_bool(k):
                    raise Unsupported("boolean scalar index")
                if not sym(k) and k < 0 and (wrap or v.kind == "nd"):
                    k = add(n, k)
                elif sym(k) and v.kind == "nd" and wrap and decide(cmp(">=", k, 0), st.pc) is False:
                    k = add(n, k)
                self.oblige("bounds" if self.funs[-1].fv.mod.cython else "index", band(cmp("<=", 0, k), cmp("<", k, n)), st, node, "0 <= index %d of %s < its extent" % (dim, v.buf.name))
                sel.append(("i", k))
            else:
                raise Unsupported("array index %s" % type(k).__name__)
            dim += 1
        axes = []
        for a in v.axes:
            if a[0] == "fix":
                axes.append(a)
                continue
            _, d, off, step = a
            s = sel[d]
            if s[0] == "i":
                axes.append(("fix", add(off, mul(step, s[1]))))
            else:
                axes.append(("ax", s[1], add(off, mul(step, s[2])), mul(step, s[3])))
        if not new_shape:
            idx = [s[1] for s in sel]
            if lvalue:
                return (v, idx)
            return self.read(v, idx, st, node, check=False)
        return View(v.buf, axes, new_shape, v.layers, v.kind)

    def slice_of(self, k, n, st, node):
        step = 1 if k.step is None else k.step
        if sym(step):
            if decide(cmp(">", step, 0), st.pc) is not True:
                raise Unsupported("slice step of unknown sign")
        elif step == -1 and k.start is None and k.stop is None:
            return sub(n, 1), -1, n
        elif step <= 0:
            raise Unsupported("slice step")

        def clip(x, dflt):
            if x is None:
                return dflt
            if is_real(x):
                raise PyRaise(Exc(self.exc("TypeError")), st)
            if not sym(x) and x < 0:
                x = add(n, x)
                if decide(cmp(">=", x, 0), st.pc) is True:
                    return x
                return ite(cmp("<", x, 0), 0, x)
            if sym(x):
                d = decide(cmp(">=", x, 0), st.pc)
                if d is False:
                    x = add(n, x)
                    if decide(cmp(">=", x, 0), st.pc) is not True:
                        x = ite(cmp("<", x, 0), 0, x)
                elif d is None:
                    x = ite(cmp(">=", x, 0), x, ite(cmp(">=", add(n, x), 0), add(n, x), 0))
            if decide(cmp("<=", x, n), st.pc) is True:
                return x
            return ite(cmp("<=", x, n), x, n)
        lo, hi = clip(k.start, 0), clip(k.stop, n)
        cnt = sub(hi, lo)
        if not (not sym(step) and step == 1):
            cnt = idiv(add(cnt, sub(step, 1)), step, st.pc)
        if sym(cnt):
            cnt = norm(cnt)
            if cnt.decl().kind() == z3.Z3_OP_ANUM:
                cnt = cnt.as_long()
        if not sym(cnt):
            cnt = max(cnt, 0)
        elif decide(cmp(">=", cnt, 0), st.pc) is not True:
            cnt = ite(cmp(">=", cnt, 0), cnt, 0)
        return lo, step, cnt

    def fancy_index(self, v, keys, st, node, lvalue):
        h = self.libs["numpy"].fancy
        return h(self, v, keys, st, node, lvalue)

    # -- comprehension
    def e_ListComp(self, e, st):
        r = self.comp(e, st)
        return r if isinstance(r, SymSeq) else self.mklist(r, st)

    def e_GeneratorExp(self, e, st):
        r = self.comp(e, st)
        return r if isinstance(r, SymSeq) else tuple(r)

    e_SetComp = e_GeneratorExp

    def e_DictComp(self, e, st):
        g = e.generators[0]
        if len(e.generators) == 1 and not g.ifs:
            it = self.unlist(self.eval(g.iter, st), st)
            if isinstance(it, SymSeq) and sym(it.length):
                pair = self.elementwise(it, g.target, lambda s3: (self.eval(e.key, s3), self.eval(e.value, s3)), st, e)
                return SymDict(it.length, lambda k: pair(k)[0], lambda k: pair(k)[1], it.locate)
        d = {}
        for s2 in self._comp_envs(e.generators, st):
            d[self.key(self.eval(e.key, s2))] = self.eval(e.value, s2)
            self._adopt(st, s2)
        o = DictObj()
        st.heap[o.id] = d
        return o

    def _adopt(self, st, s2):
        st.mem.update({k: v for k, v in s2.mem.items()})
        st.heap.update(s2.heap)
        if len(s2.pc) > len(st.pc):
            st.pc[:] = s2.pc

    def _comp_envs(self, gens, st):
        g = gens[0]
        it = self.eval(g.iter, st)
        for x in self.items(it, st):
            s2 = st.copy()
            self.assign(g.target, x, s2, g.iter)
            ok = True
            for c in g.ifs:
                t = self.truth(self.eval(c, s2), s2, c)
                d = decide(t, s2.pc)
                if d is None:
                    raise Unsupported("comprehension condition is symbolic")
                if not d:
                    ok = False
                    break
            if not ok:
                continue
            if len(gens) > 1:
                yield from self._comp_envs(gens[1:], s2)
            else:
                yield s2

    def comp(self, e, st):
        g = e.generators[0]
        if len(e.generators) == 1 and not g.ifs:
            it = self.unlist(self.eval(g.iter, st), st)
            seq = None
            if isinstance(it, SymSeq) and (sym(it.length)):
                seq = it
            elif isinstance(it, RangeVal):
                n = self.range_count(it, st)
                if sym(n) or n > 64:
                    seq = SymSeq(n, lambda k: add(it.lo, mul(it.step, k)))
            elif isinstance(it, View) and (sym(it.shape[0]) or it.shape[0] > 64):
                fr = self.freeze(it, st)
                seq = SymSeq(it.shape[0], lambda k: self.subscript(fr, k, st, e))
            if seq is not None:
                r = SymSeq(seq.length, self.elementwise(seq, g.target, lambda s3: self.eval(e.elt, s3), st, e), "comprehension")
                r.locate = seq.locate
                if getattr(seq, "prefix", None) is not None and isinstance(g.target, ast.Name):
                    # sizes derived from sizes: the running sums follow when the body is a multiple of the size
                    import daskmodel

                    def body(x):
                        s3 = st.copy()
                        self.assign(g.target, x, s3, e)
                        return self.quiet(lambda: self.eval(e.elt, s3))
                    r.prefix, r.facts, r.start = daskmodel.scaled(seq, body)
                return r
        out = []
        for s2 in self._comp_envs(e.generators, st):
            out.append(self.eval(e.elt, s2))
            self._adopt(st, s2)
        return out

    def elementwise(self, seq, target, body, st, node):
        """k -> body for element k of a sequence of symbolic length."""
        snap = st.copy()
        fc = self.funs[-1]
        # evaluate once for an arbitrary element, to generate its obligations
        probe = fresh("c")
        s2 = snap.copy()
        s2.pc += [cmp("<=", 0, probe), cmp("<", probe, seq.length)]
        self.assign(target, seq.fn(probe), s2, node)
        body(s2)

        def fn(k):
            s3 = snap.copy()
            self.funs.append(fc)
            try:
                self.assign(target, seq.fn(k), s3, node)
                return self.quiet(lambda: body(s3))
            finally:
                self.funs.pop()
        return fn

    def items(self, v, st, want=None):
        if isinstance(v, tuple):
            return list(v)
        v = self.unlist(v, st)
        if isinstance(v, ListObj):
            return list(st.heap[v.id])
        if isinstance(v, DictObj):
            return list(st.heap[v.id])
        if isinstance(v, RangeVal):
            n = self.range_count(v, st)
            if sym(n):
                raise Unsupported("iteration over a symbolic range")
            if n > 3000:
                raise Unsupported("long range")
            return [add(v.lo, mul(v.step, k)) for k in range(n)]
        if isinstance(v, View):
            n = v.shape[0]
            if sym(n):
                if want is not None:
                    self.maybe_raise(bnot(eq(n, want)), Exc(self.exc("ValueError")), st, None)
                    n = want
                else:
                    raise Unsupported("iteration over an array of symbolic length")
            if n > 300:
                raise Unsupported("iteration over a long array")
            return [self.subscript(v, k, st, None) for k in range(n)]
        if isinstance(v, SymSeq):
            if sym(v.length):
                raise Unsupported("iteration over a sequence of symbolic length")
            return [v.fn(k) for k in range(v.length)]
        if isinstance(v, LibObj) and hasattr(v, "items"):
            return v.items(self, st)
        if isinstance(v, str):
            return list(v)
        raise Unsupported("iteration over %s" % type(v).__name__)

    # -------------------------------------------------------------- calls
    def e_Call(self, e, st):
        if isinstance(e.func, ast.Name):
            n = e.func.id
            if n == "__cast__":
                return self.cast(e.args[0].value, self.eval(e.args[1], st), st, e)
            if n == "super" and "super" not in st.env:
                fc = self.funs[-1]
                obj = st.env.get(fc.fv.node.args.args[0].arg)
                cls = fc.fv.cls
                mro = obj.cls.mro()
                return Super(obj, mro[mro.index(cls) + 1:])
            if n == "hasattr":
                return self.hasattr(self.eval(e.args[0], st), self.eval(e.args[1], st), st)
        f = self.eval(e.func, st)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.unlist(self.eval(a.value, st), st)
                if isinstance(v, SymSeq) and sym(v.length) and len(e.args) == 1 and isinstance(f, Builtin) and f.name == "zip":
                    return self.transposed(v, st, e)
                args += list(self.items(v, st))
            else:
                args.append(self.eval(a, st))
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, st)
                kw.update(st.heap[d.id])
            else:
                kw[k.arg] = self.eval(k.value, st)
        return self.call(f, args, kw, st, e)

    def transposed(self, v, st, node):
        """zip(*v) of a sequence of symbolic length whose elements are tuples of one length."""
        k = fresh("z")
        s2 = st.copy()
        s2.pc += [cmp("<=", 0, k), cmp("<", k, v.length)]
        m = len(self.items(v.fn(k), s2))
        if decide(cmp(">=", v.length, 1), st.pc) is not True:
            raise Unsupported("transposition of a sequence that may be empty")
        return tuple(SymSeq(v.length, lambda k, d=d: self.items(v.fn(k), st)[d]) for d in range(m))

    def hasattr(self, o, name, st):
        if isinstance(o, View):
            return name in ("ndim", "shape", "dtype", "size", "T", "data", "astype", "copy", "reshape", "flatten")
        if isinstance(o, LibObj):
            return o.hasattr(name)
        if isinstance(o, Inst):
            return name in st.heap.get(o.id, {}) or o.cls.lookup(name)[1] is not None
        if isinstance(o, (tuple, ListObj, DictObj, str, FuncVal)) or is_num(o) or o is None:
            return self.libs["builtins"].methods.get((type(o).__name__, name)) is not None
        raise Unsupported("hasattr on %s" % type(o).__name__)

    def cast(self, ct, v, st, node):
        if ct in FLOATS:
            return Z(v, True) if sym(v) else Fraction(frac(v))
        if ct in INTS:
            if is_real(v):
                v = trunc(v)
                r = CRANGE.get(ct)
                if r is not None:
                    self.oblige("overflow", band(cmp("<=", r[0], v), cmp("<=", v, r[1])), st, node, "conversion to %s is in range" % ct)
                return v
            return self.convert(v, ct, st, node, "cast")
        if isinstance(ct, str):
            return v
        return self.convert(v, ct, st, node, "cast")

    def call(self, f, args, kw, st, node):
        if isinstance(f, Builtin):
            if f.fn is None:
                raise Unsupported("%s has no contract" % f.name)
            if not f.name.startswith("ListObj."):
                args = [self.unlist(a, st) for a in args]
            return f.fn(self, st, list(args), dict(kw), node)
        if isinstance(f, FuncVal):
            return self.call_function(f, args, kw, st, node)
        if isinstance(f, ClassVal):
            o = Inst(f)
            st.heap[o.id] = {}
            for nm in ("__cinit__", "__init__"):
                v, c = f.lookup(nm)
                if c is not None:
                    self.call(FuncVal(v.mod, v.node, v.closure, o, c, v.qual), args, kw, st, node)
            return o
        if isinstance(f, ExcClass):
            return Exc(f, tuple(args))
        if isinstance(f, LibObj) and hasattr(f, "call"):
            return f.call(self, st, list(args), dict(kw), node)
        if isinstance(f, Inst):
            v, c = f.cls.lookup("__call__")
            if c is not None:
                return self.call(FuncVal(v.mod, v.node, v.closure, f, c, v.qual), args, kw, st, node)
        if isinstance(f, DType):
            if len(args) == 1 and is_num(args[0]):
                return Z(args[0], True) if sym(args[0]) else Fraction(frac(args[0])) if f.tag in FLOATDT else args[0]
        raise Unsupported("call of %s" % type(f).__name__)

    def bind(self, fv, args, kw, st, node):
        a = fv.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        if fv.self_ is not None:
            args = [fv.self_] + args
        if len(args) > len(names) and not a.vararg:
            raise PyRaise(Exc(self.exc("TypeError")), st)
        for n, v in zip(names, args):
            env[n] = v
        if a.vararg:
            env[a.vararg.arg] = tuple(args[len(names):])
        kwo = [x.arg for x in a.kwonlyargs]
        rest = {}
        for k, v in kw.items():
            if k in names and k not in env:
                env[k] = v
            elif k in kwo:
                env[k] = v
            elif a.kwarg:
                rest[k] = v
            else:
                raise PyRaise(Exc(self.exc("TypeError")), st)
        if a.kwarg:
            o = DictObj()
            st.heap[o.id] = rest
            env[a.kwarg.arg] = o
        dn = names[len(names) - len(a.defaults):]
        missing = [(n, d) for n, d in zip(dn, a.defaults) if n not in env] + [(n, d) for n, d in zip(kwo, a.kw_defaults) if n not in env and d is not None]
        if missing:
            self.funs.append(FunCtx(fv))
            try:
                s2 = State()
                s2.heap = st.heap
                for n, d in missing:
                    env[n] = self.eval(d, s2)
            finally:
                self.funs.pop()
        for n in names + kwo:
            if n not in env:
                raise PyRaise(Exc(self.exc("TypeError")), st)
        return env

    def call_function(self, fv, args, kw, st, node):
        env = self.bind(fv, args, kw, st, node)
        c = self.contracts.get((fv.mod.name, fv.qual))
        if c is not None:
            try:
                r = c.apply(self, fv, env, st, node)
            except NotApplicable:
                c = None
            else:
                self.used_contracts.add((fv.mod.name, fv.qual))
                return r
        self.inlined.add((fv.mod.name, fv.qual))
        outs = self.run_body(fv, env, st, node)
        rets = [o for o in outs if o.kind == "return"]
        for o in outs:
            if o.kind == "raise":
                x = o.st
                x.env = st.env
                self.raises.append((x, o.val))
        if not rets:
            o = [o for o in outs if o.kind == "raise"]
            if o:
                self.raises.pop()
                raise PyRaise(o[-1].val, o[-1].st)
            raise Unsupported("function does not return")
        ENV = st.env
        # carry the returned value through the merge
        for o in rets:
            o.st.env = {"<ret>": o.val}
        merged = self.merge([o.st for o in rets])
        n = self.choose(len(merged)) if len(merged) > 1 else 0
        m = merged[n]
        v = m.env["<ret>"]
        st.env, st.mem, st.heap, st.pc = ENV, m.mem, m.heap, m.pc
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        rt = getattr(fv.node, "c_ret", "object")
        if fv.mod.cython and isinstance(rt, str) and (rt in FLOATS or rt in INTS):
            v = self.convert(v, rt, st, node, "return value")
        return v

    def run_body(self, fv, env, st, node=None):
        if self.depth > 40:
            raise Unsupported("recursion")
        fc = FunCtx(fv)
        s2 = st.copy()
        s2.env = {}
        self.funs.append(fc)
        self.depth += 1
        fused = self.fused
        try:
            for n, v in env.items():
                ct = fc.ctypes.get(n)
                if isinstance(ct, tuple) and isinstance(v, View) and DT.get(ct[1], ct[1]) == "FT" and v.dtype in ("FT", "f4", "f8"):
                    self.fused = v.dtype if v.dtype != "FT" else fused
                    break
            for n, v in env.items():
                ct = fc.ctypes.get(n)
                s2.env[n] = self.convert(v, ct, s2, fv.node, n) if ct is not None and v is not None else v
            gen = None
            if _is_generator(fv.node):
                # the elements that the generator yields, in order; its body runs when it is called, not when it is consumed
                gen = ListObj()
                s2.heap[gen.id] = []
                s2.env["<yield>"] = gen
            outs = self.exec_block(fv.node.body, s2)
            if gen is not None:
                outs = [Outcome("return", o.st, self.unlist(gen, o.st) if isinstance(o.st.heap[gen.id], SymSeq) else tuple(o.st.heap[gen.id])) if o.kind in ("next", "return") else o
                        for o in outs]
        finally:
            self.funs.pop()
            self.depth -= 1
            self.fused = fused
        res = []
        for o in outs:
            if o.kind == "next":
                res.append(Outcome("return", o.st, None))
            elif o.kind in ("return", "raise"):
                res.append(o)
            else:
                raise Unsupported(o.kind)
        return res


def _is_generator(node):
    r = getattr(node, "_gen", None)
    if r is None:
        r, todo = False, list(node.body)
        while todo and not r:
            x = todo.pop()
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                r = True
            elif not isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                todo += list(ast.iter_child_nodes(x))
        node._gen = r
    return r


class NotApplicable(Exception):
    pass


class Super:
    def __init__(self, obj, chain):
        self.obj, self.chain = obj, chain


class ClosureEnv(dict):
    """Variables of the enclosing function at definition time (plus its own enclosing ones)."""

    def __init__(self, st, outer):
        super().__init__()
        if outer:
            self.update(outer)
        self.update({k: v for k, v in st.env.items()})
        self.live = st


def trunc(v):
    if not sym(v):
        v = Fraction(v)
        return int(v)   # towards zero
    v = Z(v, True)
    return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))


def promote(dts):
    order = ["bool", "u4", "i4", "i8", "long", "f4", "FT", "f8"]
    if not dts:
        return "i8"
    d = max(dts, key=order.index)
    if d in ("f4", "FT") and any(x in ("i8", "i4", "long", "u4") for x in dts):
        return "f8"
    if "FT" in dts and "f4" in dts:
        return "FT"
    return d


def _same(a, b):
    if sym(a) and sym(b):
        return a.eq(b)
    if sym(a) or sym(b):
        return False
    return a == b


def _assigned(stmts):
    out = set()
    for s in stmts:
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                out.add(x.id)
            elif isinstance(x, (ast.Assign,)):
                for t in x.targets:
                    out |= _targets(t)
            elif isinstance(x, (ast.AugAssign, ast.AnnAssign)):
                out |= _targets(x.target)
            elif isinstance(x, ast.For):
                out |= _targets(x.target)
            elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                out.add(x.name)
    return out


def _targets(t):
    if isinstance(t, ast.Name):
        return {t.id}
    if isinstance(t, (ast.Tuple, ast.List)):
        r = set()
        for x in t.elts:
            r |= _targets(x)
        return r
    if isinstance(t, ast.Starred):
        return _targets(t.value)
    return set()
