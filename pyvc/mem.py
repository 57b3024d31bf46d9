"""Arrays: buffers with layers of guarded (possibly quantified) writes, and strided views of them."""
import itertools

import z3

from core import (I, RL, B, Z, add, band, bnot, cmp, decide, eq, fresh, frac, ite, mul, poly, sub, substitute, subterms, sym, unpoly, _atoms, is_int)
from cyparse import Unsupported

_ids = itertools.count(1)
UNINIT = object()


class Buf:
    def __init__(self, name, shape, dtype, sort, base, contig=True, role="local"):
        self.id = next(_ids)
        self.name, self.shape, self.dtype, self.sort, self.base = name, list(shape), dtype, sort, base
        self.contig, self.role = contig, role
        self.born = None
        self.alias = None        # the view this array may share its storage with

    def __repr__(self):
        return "<Buf %s %s>" % (self.name, self.dtype)


class Layer:
    """forall binders in their ranges with guard: cell idx := val"""
    __slots__ = ("binders", "guard", "idx", "val", "where")

    def __init__(self, binders, guard, idx, val, where=None):
        self.binders, self.guard, self.idx, self.val, self.where = list(binders), guard, list(idx), val, where

    def subst(self, pairs):
        s = lambda x: substitute(x, pairs) if sym(x) else x
        return Layer([(b, s(lo), s(hi)) for b, lo, hi in self.binders], s(self.guard), [s(i) for i in self.idx],
                     self.val if self.val is HAVOC else s(self.val), self.where)


class _Havoc:
    def __repr__(self):
        return "HAVOC"


HAVOC = _Havoc()


class View:
    """axes: per buffer axis ('fix', index) or ('ax', view axis, offset, step)."""

    def __init__(self, buf, axes=None, shape=None, layers=None, kind="nd"):
        self.buf = buf
        self.axes = axes if axes is not None else [("ax", k, 0, 1) for k in range(len(buf.shape))]
        self.shape = list(shape) if shape is not None else list(buf.shape)
        self.layers = layers
        self.kind = kind

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def dtype(self):
        return self.buf.dtype

    def at(self, idx):
        out = []
        for a in self.axes:
            if a[0] == "fix":
                out.append(a[1])
            else:
                _, k, off, step = a
                out.append(add(off, idx[k] if step == 1 else mul(step, idx[k])))
        return out

    def whole(self):
        return (len(self.axes) == self.ndim and all(a[0] == "ax" and a[1] == k and not sym(a[2]) and a[2] == 0 and a[3] == 1 for k, a in enumerate(self.axes)))

    def __repr__(self):
        return "<View of %r shape %s>" % (self.buf, self.shape)


def poly_coefs(e, names):
    """Linear decomposition over the binders: ({binder id: coefficient poly}, rest poly); None if not linear."""
    p = poly(Z(e))
    coefs, rest = {}, {}
    for m, v in p.items():
        hit = [(a, n) for a, n in m if a in names]
        if not hit:
            if any(names & set(subterms(_atoms[a]).keys()) for a, n in m):
                return None, None
            rest[m] = v
            continue
        if len(hit) > 1 or hit[0][1] != 1:
            return None, None
        b = hit[0][0]
        r = tuple(x for x in m if x[0] != b)
        if any(names & set(subterms(_atoms[a]).keys()) for a, n in r):
            return None, None
        coefs.setdefault(b, {})
        coefs[b][r] = coefs[b].get(r, 0) + v
    return coefs, rest


class NonUnique(Exception):
    pass


def solve(layer, p, pc):
    """The unique binder values (as terms over p) at which the layer may write cell p, and the residual conditions.

    Raises NonUnique when uniqueness cannot be shown.
    """
    ids = {b.get_id(): (b, lo, hi) for b, lo, hi in layer.binders}
    names = set(ids)
    sol, conds = {}, []
    dims = []
    for d, e in enumerate(layer.idx):
        if not sym(e) or not (names & set(subterms(e).keys())):
            conds.append(eq(e, p[d]))
            continue
        coefs, rest = poly_coefs(e, names)
        if coefs is None:
            raise NonUnique("index not linear in the loop variables")
        dims.append((d, coefs, rest))
    dims.sort(key=lambda t: len(t[1]))
    for d, coefs, rest in dims:
        rem = sub(p[d], unpoly(rest, I))
        todo = []
        for b, cp in coefs.items():
            if b in sol:
                rem = sub(rem, mul(unpoly(cp, I), sol[b]))
            else:
                todo.append((b, cp))
        if not todo:
            conds.append(eq(rem, 0))
            continue
        # shift every binder to start at 0; negative coefficients count from the far end
        items = []
        for b, cp in todo:
            var, lo, hi = ids[b]
            lo, hi = substitute(lo, [(ids[x][0], v) for x, v in sol.items()]), substitute(hi, [(ids[x][0], v) for x, v in sol.items()])
            if any(sym(x) and names & set(subterms(x).keys()) for x in (lo, hi)):
                raise NonUnique("loop range depends on another loop variable")
            c = unpoly(cp, I)
            conc = len(cp) == 1 and () in cp
            c = int(cp[()]) if conc else c
            if conc and c < 0:
                rem = sub(rem, mul(c, sub(hi, 1)))
                items.append((b, -c, sub(hi, lo), lambda q, hi=hi: sub(sub(hi, 1), q)))
            else:
                if not conc and decide(cmp(">", c, 0), pc) is not True:
                    raise NonUnique("stride of unknown sign")
                rem = sub(rem, mul(c, lo))
                items.append((b, c, sub(hi, lo), lambda q, lo=lo: add(lo, q)))
        # order by decreasing coefficient
        conc = [t for t in items if not sym(t[1])]
        symb = [t for t in items if sym(t[1])]
        conc.sort(key=lambda t: -t[1])
        if len(symb) > 1:
            order = _order(symb, pc)
        else:
            order = symb
        items = order + conc
        for n, (b, c, cnt, back) in enumerate(items):
            smaller = items[n + 1:]
            if smaller:
                tot = 0
                for _, c2, cnt2, _ in smaller:
                    tot = add(tot, mul(c2, sub(cnt2, 1)))
                if decide(cmp("<", tot, c), pc) is not True:
                    raise NonUnique("writes of different iterations may overlap")
                # every later count must be positive, otherwise there is no solution anyway
                q = idiv(rem, c, pc, tot)
                rem = sub(rem, mul(c, q))
            else:
                if not sym(c) and c == 1:
                    q, rem = rem, 0
                else:
                    q = idiv(rem, c, pc, 0)
                    rem = sub(rem, mul(c, q))
                    conds.append(eq(rem, 0))
            sol[b] = back(q)
    for b in names - set(sol):
        var, lo, hi = ids[b]
        if decide(eq(sub(hi, lo), 1), pc) is True:
            sol[b] = lo
        elif (layer.val is not HAVOC and not (sym(layer.val) and b in subterms(layer.val)) and not (sym(layer.guard) and b in subterms(layer.guard))):
            conds.append(cmp("<", lo, hi))     # every iteration writes the same value
            sol[b] = lo
        else:
            raise NonUnique("several iterations write the same cell")
    pairs = [(ids[b][0], v) for b, v in sol.items()]
    for b, lo, hi in layer.binders:
        v = sol[b.get_id()]
        lo, hi = substitute(lo, pairs) if sym(lo) else lo, substitute(hi, pairs) if sym(hi) else hi
        conds += [cmp("<=", lo, v), cmp("<", v, hi)]
    g = layer.guard
    conds.append(substitute(g, pairs) if sym(g) else g)
    return pairs, band(*conds)


def _order(items, pc):
    out = []
    for t in items:
        for n, u in enumerate(out):
            if decide(cmp(">", t[1], u[1]), pc) is True:
                out.insert(n, t)
                break
        else:
            out.append(t)
    return out


def idiv(a, c, pc, spread=None):
    """floor(a / c) for c > 0 (proved by the caller); exact splitting where the dividend shows it."""
    if not sym(a) and not sym(c):
        return a // c
    if not sym(c):
        if c == 1:
            return a
        # a = c*Q + r with 0 <= r < c
        quo, rem = {}, {}
        for m, v in poly(Z(a)).items():
            (quo if v % c == 0 else rem)[m] = v / c if v % c == 0 else v
        if rem and c > 0:
            r = unpoly(rem, I)
            if decide(band(cmp(">=", r, 0), cmp("<", r, c)), pc) is True:
                return unpoly(quo, I)
        return Z(a) / Z(c)
    # symbolic divisor: a = c*Q + r with 0 <= r < c
    p, q = poly(Z(a)), poly(c)
    if len(q) == 1:
        (cm, cv), = q.items()
        quo, rem = {}, {}
        for m, v in p.items():
            k = _mdiv(m, cm)
            if k is not None and (v / cv).denominator == 1:
                quo[k] = v / cv
            else:
                rem[m] = v
        r = unpoly(rem, I)
        if decide(band(cmp(">=", r, 0), cmp("<", r, c)), pc) is True:
            return unpoly(quo, I)
        if decide(band(cmp(">=", r, Z(0) - c), cmp("<", r, 0)), pc) is True:
            return sub(unpoly(quo, I), 1)
        return add(unpoly(quo, I), r / c)
    return Z(a) / c


def _mdiv(m, d):
    m = dict(m)
    for a, n in d:
        if m.get(a, 0) < n:
            return None
        m[a] -= n
        if not m[a]:
            del m[a]
    return tuple(sorted(m.items()))


def may_match(layer, p, pc):
    """Could the layer write cell p?  False only if proved not."""
    try:
        _, cond = solve(layer, p, pc)
    except NonUnique:
        # existential: binders stay free
        pcs = list(pc)
        for b, lo, hi in layer.binders:
            pcs += [cmp("<=", lo, b), cmp("<", b, hi)]
        cond = band(layer.guard, *[eq(a, b) for a, b in zip(layer.idx, p)])
        return decide(cond, pcs) is not False
    return decide(cond, pc) is not False


def overlap(l1, l2, extra_pc):
    """Could the two layers write a common cell (binders of l2 are renamed)?"""
    ren, pcs = [], list(extra_pc)
    for b, lo, hi in l2.binders:
        n = fresh("w")
        ren.append((b, n))
    l2 = l2.subst(ren) if ren else l2
    for (b, lo, hi), (_, n) in zip(l2.binders, ren):
        pcs += [cmp("<=", lo, n), cmp("<", n, hi)]
    idx = [substitute(i, ren) if sym(i) else i for i in l2.idx]
    if sym(l2.guard):
        pcs.append(l2.guard)
    elif not l2.guard:
        return False
    return may_match(l1, idx, pcs)
