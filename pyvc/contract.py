"""Contracts on the real functions: verification of a body against its contract, and use of a verified contract at calls.

A contract is a functional specification: `setup` introduces arbitrary arguments satisfying the precondition (per
configuration), `spec` states the precondition, when exceptions are raised, the new contents of every array that may
change (everything else is framed) and the returned value.  `spec` is evaluated in the state before the call, for the
formal arguments when the body is verified and for the actual ones at a call.
"""
import os
import time

import z3

import core
from core import I, RL, B, Z, add, band, bnot, bor, cmp, decide, eq, fresh, is_num, mul, sym
from cyparse import Module, Unsupported
from exec import FunCtx as RunCtx
from exec import (ClassVal, DictObj, DType, Exc, Exec, FuncVal, Inst, ListObj, LibObj, NotApplicable, Outcome, PyRaise, State, SymSeq, _same)
from mem import HAVOC, UNINIT, Layer, View


class SpecError(Exception):
    """The contract cannot be stated for this code (attribute or argument missing)."""


class Args(dict):
    def __getattr__(self, k):
        try:
            return self[k]
        except KeyError:
            raise SpecError("no argument %s" % k)


class Ctx:
    """What a specification talks about."""

    def __init__(self, ex, st, args, cfg):
        self.ex, self.st, self.cfg = ex, st, cfg
        self.a = Args(args)
        self.requires, self.raising, self.assigns, self.lemmas = [], [], [], []
        self.ret, self.has_ret = None, False
        self.havoc = []          # work arrays whose contents are unspecified afterwards

    def require(self, cond, text=""):
        self.requires.append((cond, text))

    def raises(self, cond, exc):
        """The call raises exc exactly when cond (conditions are tested in the order given)."""
        self.raising.append((cond, exc))

    def assign(self, view, fn, where=None):
        """view[idx] := fn(state, *idx) for idx in where (a list of ranges; default: all)."""
        self.assigns.append((view, fn, where))

    def returns(self, v):
        self.ret, self.has_ret = v, True

    def read(self, view, *idx, st=None):
        fr = self.ex.freeze(view, self.st)
        return self.ex.read(fr, list(idx), st or self.st, None, check=False)

    def reader(self, view):
        fr = self.ex.freeze(view, self.st)
        return lambda st, *idx: self.ex.read(fr, list(idx), st, None, check=False)

    def array(self, shape, dtype, fn):
        return self.ex.fnarray(self.st, shape, dtype, lambda e, s, p: fn(s, *p), "spec")

    def attr(self, obj, name):
        d = self.st.heap.get(obj.id, {})
        if name not in d:
            raise SpecError("no attribute %s" % name)
        return d[name]


_arrays = [0]


class Setup:
    """Arbitrary arguments of a function."""

    def __init__(self, ex, st, cfg):
        self.ex, self.st, self.cfg = ex, st, cfg

    def int(self, name, lo=None, hi=None):
        v = fresh(name)
        if lo is not None:
            self.st.pc.append(cmp("<=", lo, v))
        if hi is not None:
            self.st.pc.append(cmp("<=", v, hi))
        return v

    def real(self, name):
        return fresh(name, RL)

    def array(self, name, shape, dtype="FT", kind="mv", contig=True, uninit=False):
        """A parameter array with arbitrary contents (own storage, apart from the other parameters)."""
        sort = RL if dtype in ("FT", "f4", "f8") else (B if dtype == "bool" else I)
        _arrays[0] += 1          # facts about one array's contents must not reach another array
        f = core.uf("%s#%d" % (name, _arrays[0]), *([I] * len(shape)), sort)

        def base(ex, st, p):
            return f(*[Z(x) for x in p]) if shape else f()
        if not shape:
            c = fresh(name, sort)

            def base(ex, st, p):
                return c
        v = self.ex.new_array(self.st, shape, dtype, UNINIT if uninit else base, name, contig, "param")
        v.kind = kind
        v.buf.contig = contig
        v.fn = v.buf.fn = f
        self.ex.param_views.append(v)
        for n in shape:
            if sym(n):
                self.st.pc.append(cmp(">=", n, 0))
        return v

    def inst(self, mod, cls, attrs):
        c = self.ex.resolve_global(mod, cls, self.st)
        if not isinstance(c, ClassVal):
            raise SpecError("no class %s" % cls)
        o = Inst(c)
        known = c.info.attr_types
        for k in attrs:
            if known and k not in known:
                raise SpecError("class %s has no attribute %s" % (cls, k))
        self.st.heap[o.id] = dict(attrs)
        return o


class Contract:
    """Base class. mod/qual name the function; configs the configurations under which it is verified."""
    mod = qual = None
    configs = [{}]
    level = "internal"       # or "api": the property itself
    notes = ""

    def setup(self, s, cfg):
        raise NotImplementedError

    def spec(self, c):
        raise NotImplementedError

    def matches(self, c):
        """Configuration of an actual call (None: contract does not speak about it)."""
        return {}

    @property
    def name(self):
        return "%s.%s" % (self.mod, self.qual)

    # ---------------------------------------------------------- use at a call
    def apply(self, ex, fv, env, st, node):
        c = Ctx(ex, st, env, None)
        try:
            cfg = self.matches(c)
            if cfg is None:
                raise NotApplicable()
            c.cfg = cfg
            self.spec(c)
        except SpecError:
            raise NotApplicable()
        # arrays that change must not be the storage of other arguments
        views = [v for v in env.values() if isinstance(v, View)]
        for view in [a[0] for a in c.assigns] + c.havoc:
            if len([v for v in views if v.buf is view.buf]) > 1:
                raise NotApplicable()
        for cond, text in c.requires:
            ex.oblige("pre", cond, st, node, "precondition of %s: %s" % (self.qual, text))
        for cond, exc in c.raising:
            ex.maybe_raise(cond, Exc(ex.exc(exc)), st, node)
        new = []
        for view, fn, where in c.assigns:
            ks = [fresh("a") for _ in view.shape]
            rng = where or [(0, n) for n in view.shape]
            s2 = st.copy()
            for k, (lo, hi) in zip(ks, rng):
                s2.pc += [cmp("<=", lo, k), cmp("<", k, hi)]
            val = fn(s2, *ks)
            if sym(val) and val.sort() == RL:
                val = core.let(val)
            new.append((view.buf, Layer([(k, lo, hi) for k, (lo, hi) in zip(ks, rng)], ex.guard(st), view.at(ks), ex.coerce(val, view.buf), getattr(node, "lineno", None))))
        for view in c.havoc:
            ks = [fresh("a") for _ in view.shape]
            new.append((view.buf, Layer([(k, 0, n) for k, n in zip(ks, view.shape)], ex.guard(st), view.at(ks), HAVOC, getattr(node, "lineno", None))))
        for buf, layer in new:
            ex.push_layer(buf, layer, st)
        ret = c.ret
        return ret


class Report:
    def __init__(self, contract):
        self.contract = contract
        self.obligations = []
        self.error = None
        self.time = 0.0
        self.configs = 0
        self.used, self.inlined, self.assumed = set(), set(), set()

    @property
    def proved(self):
        return self.error is None and all(o.status == "proved" for o in self.obligations)

    def failed(self):
        return [o for o in self.obligations if o.status != "proved"]


def function_of(ex, mod, qual):
    m = ex.modules.get(mod)
    if m is None:
        raise SpecError("no module %s" % mod)
    if not isinstance(m, Module):
        raise Unsupported("module %s: %s" % (mod, m))
    parts = qual.split(".")
    node = m.functions.get(qual)
    if node is None:
        raise SpecError("no function %s in %s" % (qual, mod))
    if len(parts) == 2:
        cv = ex.resolve_global(mod, parts[0], State())
        f, c = cv.lookup(parts[1])
        return FuncVal(m, f.node, None, None, c, qual)
    return FuncVal(m, node)


def verify(contract, make_exec, verified, kinds=None, budget_s=None, want_return=True):
    """Discharge every obligation of a function against its contract."""
    rep = Report(contract)
    t0 = time.time()
    for cfg in contract.configs:
        if budget_s is not None and time.time() - t0 > budget_s:
            rep.error = "time limit"
            break
        ex = make_exec()
        ex.contracts = {k: v for k, v in verified.items() if k != (contract.mod, contract.qual) or getattr(contract, 'keep', False)}
        ex.kinds = kinds
        ex.config = ",".join("%s=%s" % kv for kv in cfg.items()) if cfg else ""
        old = core.DEADLINE[0]
        if budget_s is not None:
            core.DEADLINE[0] = min(old or 1e18, t0 + budget_s)
        try:
            _verify_one(contract, ex, cfg, rep)
            rep.configs += 1
        except (Unsupported, SpecError, core.TooBig, RecursionError, z3.Z3Exception, ArithmeticError) as e:
            if os.environ.get("PYVC_TRACEBACK"):
                import traceback
                traceback.print_exc()
            rep.error = "%s: %s" % (type(e).__name__, str(e)[:300])
        except PyRaise as e:
            rep.error = "unhandled %s" % e.exc.cls.name
        except core.OutOfTime:
            rep.error = "time limit"
        except (AttributeError, KeyError, TypeError, IndexError, ValueError, AssertionError) as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)[-1]
            rep.error = "engine: %s: %s (%s:%d)" % (type(e).__name__, str(e)[:200], tb.filename.split("/")[-1], tb.lineno)
        finally:
            core.DEADLINE[0] = old
        rep.obligations += ex.obligations
        rep.used |= ex.used_contracts
        rep.inlined |= ex.inlined
        rep.assumed |= ex.assumed
        if rep.error:
            break
    rep.time = time.time() - t0
    return rep


def _verify_one(contract, ex, cfg, rep):
    st = State()
    fv = getattr(contract, "function", function_of)(ex, contract.mod, contract.qual)
    s = Setup(ex, st, cfg)
    args = contract.setup(s, cfg)
    names = [x.arg for x in fv.node.args.posonlyargs + fv.node.args.args + fv.node.args.kwonlyargs] if isinstance(fv, FuncVal) else None
    if names is not None and contract.level == "internal":
        missing = [n for n in names if n not in args]
        if missing or [n for n in args if n not in names]:
            raise SpecError("the parameters of %s changed" % contract.qual)
    pre = st.copy()
    c = Ctx(ex, pre, args, cfg)
    n_ob = len(ex.obligations)
    saved, ex.kinds = ex.kinds, ()
    contract.spec(c)
    ex.kinds = saved
    for cond, text in c.requires:
        if sym(cond):
            st.pc.append(cond)
        elif not cond:
            raise SpecError("precondition is false")
    st.mem.update({k: v for k, v in pre.mem.items() if k not in st.mem})
    st.heap.update({k: v for k, v in pre.heap.items() if k not in st.heap})
    c.st = pre
    ex.base = len(st.pc)
    start = {k: v for k, v in st.mem.items()}
    if hasattr(contract, "run"):
        ex.funs.append(RunCtx(fv))
        try:
            outs = contract.run(ex, fv, args, st)
        finally:
            ex.funs.pop()
    else:
        env = ex.bind(fv, [], {k: v for k, v in args.items() if not k.startswith("_")}, st, None) if contract.level == "api" and isinstance(fv, FuncVal) and fv.self_ is None else args
        outs = ex.run_body(fv, env, st)
    from exec import FunCtx
    ex.funs.append(FunCtx(fv) if isinstance(fv, FuncVal) else ex.funs[-1])
    node = fv.node if isinstance(fv, FuncVal) else None
    try:
        for o in outs:
            _check_outcome(contract, ex, c, o, start, node)
    finally:
        ex.funs.pop()


def _check_outcome(contract, ex, c, o, start, node):
    st = o.st
    if core.decide_false(st.pc):
        return
    inputs_unchanged(ex, c, st, start, node)
    if o.kind == "raise":
        conds = [cond for cond, exc in c.raising if o.val.cls.isa(ex.exc(exc))]
        ex.oblige("raises", bor(*conds), st, node, "%s is raised only when the contract says so" % o.val.cls.name)
        return
    for cond, exc in c.raising:
        ex.oblige("raises", bnot(cond), st, node, "%s is raised when the contract requires it" % exc)
    # frame and new contents
    done = {v.buf.id for v in c.havoc}
    for name, v in c.a.items():
        if isinstance(v, View):
            check_buffer(ex, c, v, st, start, name, node, done)
    for view, fn, where in c.assigns:
        if view.buf.id not in done:
            check_buffer(ex, c, view, st, start, view.buf.name, node, done)
    if ex.kinds is not None and not set(ex.kinds) - {"frame"}:
        touch(ex, o.val, st, lambda s2: inputs_unchanged(ex, c, s2, start, node))
        if hasattr(contract, "check_frame"):
            contract.check_frame(ex, c, o.val, st, node)
    elif hasattr(contract, "check_return"):
        contract.check_return(ex, c, o.val, st, node)
    elif c.has_ret:
        compare(ex, c, o.val, c.ret, st, node, "result")


def inputs_unchanged(ex, c, st, start, node):
    """Frame of the arguments, whatever they are kept in."""
    done = {v.buf.id for v in c.havoc} | {a[0].buf.id for a in c.assigns}
    for v in ex.param_views:
        if v.buf.id in start:
            check_buffer(ex, c, v, st, start, v.buf.name, node, done)
    for name, v in c.a.items():
        if isinstance(v, (ListObj, DictObj)):
            a, b = c.st.heap[v.id], st.heap[v.id]
            same = a is b or type(a) is type(b) and len(a) == len(b) and (all(_same(x, y) for x, y in zip(a, b)) if not isinstance(a, dict) else
                                                                          list(a) == list(b) and all(_same(a[k], b[k]) for k in a))
            ex.oblige("frame", same, st, node, "the %s %s holds the same items" % ("list" if isinstance(v, ListObj) else "mapping", name))


def touch(ex, val, st, then):
    """Computes what a lazy result holds (an arbitrary block of it)."""
    import daskmodel as dm
    if isinstance(val, (tuple, ListObj)):
        its = st.heap[val.id] if isinstance(val, ListObj) else val
        if isinstance(its, SymSeq):
            return
        for x in its:
            touch(ex, x, st, then)
    elif isinstance(val, dm.Array):
        s2 = st.copy()
        n = len(ex.raises)
        val.block(ex, s2, tuple(dm.position(s2, ch) for ch in val.chunks))
        del ex.raises[n:]
        then(s2)
    elif hasattr(val, "data") and isinstance(val, LibObj):
        touch(ex, val.data, st, then)


def check_buffer(ex, c, v, st, start, name, node, done):
    buf = v.buf
    if buf.id in done:
        return
    done.add(buf.id)
    assigns = [a for a in c.assigns if a[0].buf is buf]
    before, after = start.get(buf.id, ()), st.mem.get(buf.id, ())
    if before is after or (len(before) == len(after) and all(x is y for x, y in zip(before, after))):
        if not assigns:
            ex.oblige("frame", True, st, node, "%s is unchanged" % name)
            return
    p = [fresh("p") for _ in buf.shape]
    s2 = st.copy()
    for k, n in zip(p, buf.shape):
        s2.pc += [cmp("<=", 0, k), cmp("<", k, n)]
    if core.decide_false(s2.pc):
        return
    full = View(buf)
    if not assigns:
        actual = ex.read(full, p, s2, node, check=False)
        expected = ex.read(View(buf, layers=before), p, s2, node, check=False)
        ex.oblige("frame", None, s2, node, "%s is unchanged" % name, eqs=(actual, expected))
        return
    if len(assigns) > 1:
        raise SpecError("several assignments to one buffer")
    view, fn, where = assigns[0]
    if not view.whole():
        raise SpecError("assigned view is not a whole buffer")
    inside = True
    if where:
        inside = band(*[band(cmp("<=", lo, k), cmp("<", k, hi)) for k, (lo, hi) in zip(p, where)])
    s3 = s2.copy()
    if sym(inside):
        s3.pc.append(inside)
    actual = ex.read(full, p, s3, node, check=False)
    expected = fn(s3, *p)
    ex.oblige("post", None, s3, node, "%s has the specified contents" % name, eqs=(actual, expected))
    if sym(inside):
        s4 = s2.copy()
        s4.pc.append(bnot(inside))
        if not core.decide_false(s4.pc):
            saved, ex.kinds = ex.kinds, ()
            actual = ex.read(full, p, s4, node, check=False)
            expected = ex.read(View(buf, layers=before), p, s4, node, check=False)
            ex.kinds = saved
            if not (buf.base is UNINIT and not before):
                ex.oblige("frame", None, s4, node, "%s is unchanged outside the specified region" % name, eqs=(actual, expected))


def compare(ex, c, got, want, st, node, name):
    """The value got equals the specified value want."""
    if want is ANY:
        return
    if isinstance(want, Pred):
        want.check(ex, c, got, st, node, name)
        return
    if isinstance(got, ListObj):
        got = ex.unlist(got, st)
    if isinstance(want, SymSeq):
        if isinstance(got, (tuple, ListObj)):
            its = list(ex.items(got, st))
            got = SymSeq(len(its), None)
            ex.oblige("shape", eq(got.length, want.length), st, node, "length of %s" % name)
            for k, g in enumerate(its):
                compare(ex, c, g, want.fn(k), st, node, "%s[%d]" % (name, k))
            return
        if not isinstance(got, SymSeq):
            raise Unsupported("%s is not a sequence" % name)
        ex.oblige("shape", eq(got.length, want.length), st, node, "length of %s" % name)
        k = fresh("k")
        s2 = st.copy()
        s2.pc += [cmp("<=", 0, k), cmp("<", k, want.length)]
        if not core.decide_false(s2.pc):
            compare(ex, c, got.fn(k), want.fn(k), s2, node, "%s[k]" % name)
        return
    if isinstance(want, ListObj):
        want = tuple(c.st.heap[want.id])
    if isinstance(want, tuple):
        if isinstance(got, (ListObj, LibObj, SymSeq)):
            try:
                got = tuple(ex.items(got, st))
            except Unsupported:
                raise
        if not isinstance(got, tuple) or len(got) != len(want):
            ex.oblige("post", False, st, node, "%s is a sequence of %d values" % (name, len(want)))
            return
        for k, (g, w) in enumerate(zip(got, want)):
            compare(ex, c, g, w, st, node, "%s[%d]" % (name, k))
        return
    if isinstance(want, View):
        if isinstance(got, LibObj) and hasattr(got, "to_array"):
            got = got.to_array(ex, st)
        if not isinstance(got, View):
            raise Unsupported("%s is not an array" % name)
        if got.ndim != want.ndim:
            ex.oblige("shape", False, st, node, "%s has %d dimensions" % (name, want.ndim))
            return
        for d in range(want.ndim):
            ex.oblige("shape", eq(got.shape[d], want.shape[d]), st, node, "extent %d of %s" % (d, name))
        if want.dtype != got.dtype and want.dtype != "any":
            ex.oblige("dtype", False, st, node, "%s has dtype %s (got %s)" % (name, want.dtype, got.dtype))
        elif want.dtype != "any":
            ex.oblige("dtype", True, st, node, "%s has dtype %s" % (name, want.dtype))
        p = [fresh("p") for _ in want.shape]
        s2 = st.copy()
        radix = getattr(want, "radix", {})
        for d, (k, n) in enumerate(zip(p, want.shape)):
            if d in radix:
                # every 0 <= p < r0 * r1 * ... is ((d0 * r1) + d1) * r2 + ... with digits 0 <= dk < rk
                ex.oblige("shape", eq(n, _product(radix[d])), st, node, "extent %d of %s as a product" % (d, name))
                p[d] = 0
                for r in radix[d]:
                    k = fresh("d")
                    s2.pc += [cmp("<=", 0, k), cmp("<", k, r)]
                    p[d] = add(mul(p[d], r), k)
                continue
            s2.pc += [cmp("<=", 0, k), cmp("<", k, n)]
        if core.decide_false(s2.pc):
            return
        if ex.kinds is not None and not ({"post", "init"} & set(ex.kinds)):
            return
        g = ex.read(got, p, s2, node, check=False)
        if getattr(c, "init_only", False):
            return
        w = ex.read(want, p, s2, node, check=False)
        ex.oblige("post", None, s2, node, "%s has the specified contents" % name, eqs=(g, w))
        return
    if is_num(want):
        if not is_num(got):
            ex.oblige("post", False, st, node, "%s is a number" % name)
            return
        ex.oblige("post", None, st, node, "%s has the specified value" % name, eqs=(got, want))
        return
    if want is None or isinstance(want, (str, DType)):
        ex.oblige("post", got == want, st, node, "%s is %r" % (name, want))
        return
    raise Unsupported("comparison of %s" % type(want).__name__)


def _product(xs):
    r = 1
    for x in xs:
        r = mul(r, x)
    return r


class _Any:
    pass


ANY = _Any()


class Pred:
    """A specified value given by a predicate: check(ex, c, got, st, node, name) generates the obligations."""

    def __init__(self, check):
        self.check = check
