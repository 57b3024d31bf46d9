"""Terms, canonical forms, solver access and the equality prover.

Numbers are Python int / Fraction / bool when concrete and z3 expressions otherwise.  C floats are reals, C and Python
ints are integers (range obligations are generated separately).
"""
import itertools
import math
import random
import time
from fractions import Fraction

import z3

z3.set_param("smt.random_seed", 7)
I, RL, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()


def sym(x):
    return isinstance(x, z3.ExprRef)


def is_real(x):
    return isinstance(x, (Fraction, float)) or (sym(x) and x.sort() == RL)


def is_int(x):
    return (isinstance(x, int) and not isinstance(x, bool)) or (sym(x) and x.sort() == I)


def is_bool(x):
    return isinstance(x, bool) or (sym(x) and x.sort() == B)


def is_num(x):
    return isinstance(x, (int, Fraction, float, bool)) or sym(x)


def frac(x):
    if isinstance(x, float):
        return Fraction(repr(x))
    return x


def Z(x, real=None):
    """z3 expression of a value."""
    if sym(x):
        if real and x.sort() == I:
            return z3.ToReal(x)
        if x.sort() == B and real is not None:
            return z3.If(x, z3.RealVal(1), z3.RealVal(0)) if real else z3.If(x, z3.IntVal(1), z3.IntVal(0))
        return x
    if isinstance(x, bool) and real is None:
        return z3.BoolVal(x)
    x = frac(x)
    if isinstance(x, Fraction) or real:
        return z3.RealVal(Fraction(x))
    return z3.IntVal(int(x))


_fresh = itertools.count()


def fresh(name, sort=I):
    return z3.Const("%s!%06d" % (name, next(_fresh)), sort)


_ufs = {}


def uf(name, *sorts):
    k = (name, tuple(str(s) for s in sorts))
    if k not in _ufs:
        _ufs[k] = z3.Function(name, *sorts)
    return _ufs[k]


PI = z3.Real("pi")


# ------------------------------------------------------------------ arithmetic with folding
def _conc(*xs):
    return not any(sym(x) for x in xs)


def add(a, b):
    if _conc(a, b):
        return frac(a) + frac(b)
    if not sym(a) and a == 0 and not (is_real(a) and is_int(b)):
        return b
    if not sym(b) and b == 0 and not (is_real(b) and is_int(a)):
        return a
    r = is_real(a) or is_real(b)
    return Z(a, r) + Z(b, r)


def neg(a):
    return -frac(a) if not sym(a) else -Z(a, is_real(a))


def sub(a, b):
    if _conc(a, b):
        return frac(a) - frac(b)
    if not sym(b) and b == 0 and not (is_real(b) and is_int(a)):
        return a
    r = is_real(a) or is_real(b)
    return Z(a, r) - Z(b, r)


def mul(a, b):
    if _conc(a, b):
        return frac(a) * frac(b)
    r = is_real(a) or is_real(b)
    for x, y in ((a, b), (b, a)):
        if not sym(x):
            if x == 0:
                return Fraction(0) if r else 0
            if x == 1 and (is_real(y) or not r) and not is_bool(y):
                return y
    return Z(a, r) * Z(b, r)


INV = uf("inv", RL, RL)


def inv(b):
    if not sym(b):
        return Fraction(1) / Fraction(frac(b))
    p = poly(Z(b, True))
    if len(p) == 1 and () in p:
        return 1 / p[()]
    return unpoly(_inv_poly(p), RL)


def _inv_poly(p):
    """inv(P), with the sign that makes the first coefficient of P positive."""
    if p and p[sorted(p, key=_mono_key)[0]] < 0:
        return {m: -v for m, v in _atom(INV(unpoly({m: -v for m, v in p.items()}, RL))).items()}
    return _atom(INV(unpoly(p, RL)))


def div(a, b):
    """True division."""
    if not sym(b):
        return mul(Fraction(1) / Fraction(frac(b)), a if sym(a) else Fraction(frac(a)))
    return mul(Z(a, True) if sym(a) else Fraction(frac(a)), inv(b))


def power(a, n):
    if _conc(a, n):
        return frac(a) ** n
    if sym(n) or not isinstance(n, int) or n < 0 or n > 8:
        raise ArithmeticError("power")
    r = 1
    for _ in range(n):
        r = mul(r, a)
    return r


def ite(c, a, b):
    if not sym(c):
        return a if c else b
    if _conc(a, b) and type(a) is type(b) and a == b:
        return a
    if sym(a) and sym(b) and a.eq(b):
        return a
    if is_bool(a) and is_bool(b):
        return z3.If(c, Z(a), Z(b))
    r = is_real(a) or is_real(b)
    return z3.If(c, Z(a, r), Z(b, r))


def bnot(a):
    if not sym(a):
        return not a
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def band(*xs):
    out = []
    for x in xs:
        if not sym(x):
            if not x:
                return False
        else:
            out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def bor(*xs):
    out = []
    for x in xs:
        if not sym(x):
            if x:
                return True
        else:
            out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def cmp(op, a, b):
    if _conc(a, b):
        a, b = frac(a), frac(b)
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[op]
    if is_bool(a) and is_bool(b):
        r = Z(a) == Z(b)
        return r if op == "==" else z3.Not(r)
    r = is_real(a) or is_real(b)
    a, b = Z(a, r), Z(b, r)
    d = poly(a - b)
    if not d or (len(d) == 1 and () in d):
        v = d.get((), 0)
        return {"<": v < 0, "<=": v <= 0, ">": v > 0, ">=": v >= 0, "==": v == 0, "!=": v != 0}[op]
    return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[op]


def eq(a, b):
    return cmp("==", a, b)


# ------------------------------------------------------------------ canonical polynomials
_keep = []
_norm_memo = {}
_poly_memo = {}
_atoms = {}          # ast id -> canonical atom expr
POLY_LIMIT = 60000


class TooBig(Exception):
    pass


def _atom(e):
    k = e.get_id()
    if k not in _atoms:
        _atoms[k] = e
    return {((k, 1),): Fraction(1)}


def _padd(p, q, c=1):
    r = dict(p)
    for m, v in q.items():
        w = r.get(m, 0) + c * v
        if w:
            r[m] = w
        else:
            r.pop(m, None)
    return r


def _mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for k, e in n:
        d[k] = d.get(k, 0) + e
    # inv(x)*x is not cancelled here (x may be 0); see facts
    return tuple(sorted(d.items()))


def _pmul(p, q):
    if len(p) * len(q) > POLY_LIMIT * 4:
        raise TooBig()
    r = {}
    for m, v in p.items():
        for n, w in q.items():
            k = _mmul(m, n)
            x = r.get(k, 0) + v * w
            if x:
                r[k] = x
            else:
                r.pop(k, None)
    if len(r) > POLY_LIMIT:
        raise TooBig()
    return r


def poly(e):
    """Canonical polynomial {monomial: coefficient} of an arithmetic expression; monomials over canonical atoms."""
    if not sym(e):
        v = Fraction(frac(e))
        return {(): v} if v else {}
    k = e.get_id()
    r = _poly_memo.get(k)
    if r is not None:
        return r[0]
    d = e.decl().kind()
    if d == z3.Z3_OP_ANUM:
        v = e.as_fraction() if e.sort() == RL else Fraction(e.as_long())
        r = {(): v} if v else {}
    elif d == z3.Z3_OP_ADD:
        r = {}
        for c in e.children():
            r = _padd(r, poly(c))
    elif d == z3.Z3_OP_SUB:
        cs = e.children()
        r = poly(cs[0])
        for c in cs[1:]:
            r = _padd(r, poly(c), -1)
    elif d == z3.Z3_OP_UMINUS:
        r = {m: -v for m, v in poly(e.arg(0)).items()}
    elif d == z3.Z3_OP_MUL:
        cs = e.children()
        r = poly(cs[0])
        for c in cs[1:]:
            r = _pmul(r, poly(c))
    elif d == z3.Z3_OP_TO_REAL:
        r = poly(e.arg(0))
    elif d == z3.Z3_OP_DIV:
        q = poly(e.arg(1))
        if len(q) == 1 and () in q:
            r = {m: v / q[()] for m, v in poly(e.arg(0)).items()}
        else:
            r = _pmul(poly(e.arg(0)), _inv_poly(q))
    elif d == z3.Z3_OP_IDIV:
        r = _idiv_poly(e)
    elif d == z3.Z3_OP_MOD:
        b = e.arg(1)
        r = _padd(poly(e.arg(0)), _pmul(poly(b), poly(e.arg(0) / b)), -1)
    elif d == z3.Z3_OP_ITE:
        n = norm(e)
        r = _atom(n) if n.decl().kind() == z3.Z3_OP_ITE else poly(n)
    elif d == z3.Z3_OP_UNINTERPRETED and e.decl().name() == "inv":
        q = poly(e.arg(0))
        r = ({(): 1 / q[()]} if len(q) == 1 and () in q else _inv_poly(q))
    elif d == z3.Z3_OP_UNINTERPRETED:
        r = _atom(_norm_app(e))
    elif d == z3.Z3_OP_TO_INT:
        p = poly(e.arg(0))
        whole = {m: v for m, v in p.items() if v.denominator == 1 and all(_atoms[a].sort() == I for a, _ in m)}
        rest = {m: v for m, v in p.items() if m not in whole}
        r = dict(whole)
        if rest:
            if len(rest) == 1 and () in rest:
                r = _padd(r, {(): Fraction(math.floor(rest[()]))})
            elif all(_atoms[a].sort() == I for m in rest for a, _ in m):
                # floor of a polynomial over the integers with rational coefficients
                den = math.lcm(*[v.denominator for v in rest.values()])
                r = _padd(r, poly(unpoly({m: v * den for m, v in rest.items()}, I) / z3.IntVal(den)))
            else:
                r = _padd(r, _atom(z3.ToInt(unpoly(rest, RL))))
    else:
        r = _atom(e)
    _poly_memo[k] = (r, e)
    return r


def _idiv_poly(e):
    a, b = e.arg(0), e.arg(1)
    p, q = poly(a), poly(b)
    if len(q) == 1 and () in q and q[()].denominator == 1 and q[()] != 0:
        n = q[()]
        quo, rem = {}, {}
        for m, v in p.items():
            f = Fraction(v // n) if m == () else (v / n if (v / n).denominator == 1 else Fraction(int(v // n)))
            if f:
                quo[m] = f
            w = v - f * n
            if w:
                rem[m] = w
        if not rem or (len(rem) == 1 and () in rem and 0 <= rem[()] < n):
            return quo
        # floor((n*Q + rem)/n) = Q + floor(rem/n), Q integer valued
        return _padd(quo, _atom(unpoly(rem, I) / z3.IntVal(int(n))))
    return _atom(unpoly(p, I) / unpoly(q, I))


def cancel(e, pc, memo=None):
    """Rewrites inv(P) * lead(P) * rest, for P that is not zero under pc, everywhere in e."""
    if not sym(e):
        return e
    memo = {} if memo is None else memo
    k = e.get_id()
    if k in memo:
        return memo[k]
    if not any(x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() == "inv" for x in subterms(e).values()):
        memo[k] = e
        return e
    r = e
    if e.num_args() and not is_let(e):
        r = e.decl()(*[cancel(c, pc, memo) for c in e.children()]) if e.decl().kind() not in (z3.Z3_OP_ADD, z3.Z3_OP_MUL) else \
            (z3.Sum if e.decl().kind() == z3.Z3_OP_ADD else z3.Product)(*[cancel(c, pc, memo) for c in e.children()])
    r = norm(r)
    if r.sort() in (RL, I):
        r = unpoly(_cancel_poly(poly(r), pc, memo), r.sort())
    memo[k] = r
    return r


def _cancel_poly(p, pc, memo):
    for _ in range(200):
        hit = None
        for m in p:
            d = dict(m)
            for a, _e in m:
                x = _atoms[a]
                if x.decl().kind() != z3.Z3_OP_UNINTERPRETED or x.decl().name() != "inv":
                    continue
                q = poly(x.arg(0))
                lead = min(q, key=_mono_key)
                if lead and all(d.get(b, 0) >= n for b, n in lead):
                    key = ("nz", a)
                    if key not in memo:
                        memo[key] = decide(x.arg(0) == 0, pc) is False
                    if memo[key]:
                        hit = (m, a, q, lead)
                        break
            if hit:
                break
        if not hit:
            return p
        m, a, q, lead = hit
        d = dict(m)
        for b, n in lead:
            d[b] -= n
        # lead = (1/c) (inv(P)^-1 - rest): inv(P) * lead = (1 - inv(P) * rest) / c
        rest = {n: v for n, v in q.items() if n != lead}
        co = p[m] / q[lead]
        p = {n: v for n, v in p.items() if n != m}
        with_inv = {tuple(sorted((b, n) for b, n in d.items() if n)): Fraction(1)}
        d[a] -= 1
        without = {tuple(sorted((b, n) for b, n in d.items() if n)): Fraction(1)}
        p = _padd(p, without, co)
        p = _padd(p, _pmul(with_inv, rest), -co)
    return p


def _mono_key(m):
    return (-sum(e for _, e in m), tuple((_akey(a), e) for a, e in m))


_akeys = {}


def _akey(a):
    r = _akeys.get(a)
    if r is None:
        r = _akeys[a] = _atoms[a].sexpr() if _atoms[a].num_args() < 3 else _atoms[a].decl().name() + _atoms[a].sexpr()[:400]
    return r


_unpoly_memo = {}


def unpoly(p, sort):
    key = (tuple(sorted(p.items())), str(sort))
    r = _unpoly_memo.get(key)
    if r is not None:
        return r
    terms = []
    for m in sorted(p, key=_mono_key):
        v = p[m]
        fs = []
        for a, e in m:
            x = _atoms[a]
            if sort == RL and x.sort() == I:
                x = z3.ToReal(x)
            fs += [x] * e
        if v != 1 or not fs:
            fs.insert(0, z3.RealVal(v) if sort == RL else z3.IntVal(int(v)))
        if sort == I and v.denominator != 1:
            raise ArithmeticError("fraction in integer term")
        terms.append(fs[0] if len(fs) == 1 else z3.Product(*fs))
    if not terms:
        r = z3.RealVal(0) if sort == RL else z3.IntVal(0)
    else:
        r = terms[0] if len(terms) == 1 else z3.Sum(*terms)
    _unpoly_memo[key] = r
    return r


def _norm_app(e):
    if e.num_args() == 0:
        return e
    return e.decl()(*[norm(c) for c in e.children()])


def norm(e):
    """Canonical z3 expression."""
    if not sym(e):
        return Z(e)
    k = e.get_id()
    r = _norm_memo.get(k)
    if r is not None:
        return r[0]
    s = e.sort()
    d = e.decl().kind()
    if d == z3.Z3_OP_ITE:
        c, a, b = norm(e.arg(0)), norm(e.arg(1)), norm(e.arg(2))
        if z3.is_true(c):
            r = a
        elif z3.is_false(c):
            r = b
        elif a.eq(b):
            r = a
        elif z3.is_not(c):
            r = z3.If(c.arg(0), b, a)
        else:
            r = z3.If(c, a, b)
    elif s == I or s == RL:
        r = unpoly(poly(e), s)
    elif s == B:
        r = _norm_bool(e, d)
    else:
        r = e
    _norm_memo[k] = (r, e)
    return r


def _norm_bool(e, d):
    if d in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
        a, b = e.arg(0), e.arg(1)
        if a.sort() not in (I, RL):
            a, b = norm(a), norm(b)
            if a.eq(b):
                return z3.BoolVal(d == z3.Z3_OP_EQ)
            return a == b if d == z3.Z3_OP_EQ else z3.Not(a == b)
        if d in (z3.Z3_OP_LE, z3.Z3_OP_LT):
            a, b = b, a
            d = z3.Z3_OP_GE if d == z3.Z3_OP_LE else z3.Z3_OP_GT
        p = _padd(poly(a), poly(b), -1)
        if not p or (len(p) == 1 and () in p):
            v = p.get((), 0)
            return z3.BoolVal({z3.Z3_OP_GE: v >= 0, z3.Z3_OP_GT: v > 0, z3.Z3_OP_EQ: v == 0, z3.Z3_OP_DISTINCT: v != 0}[d])
        allint = all(_atoms[x].sort() == I for m in p for x, _ in m)
        if allint:
            den = math.lcm(*[v.denominator for v in p.values()])
            g = math.gcd(*[int(v * den) for m, v in p.items() if m != ()])
            p = {m: v * den / g for m, v in p.items()}
            c = p.get((), Fraction(0))
            if d == z3.Z3_OP_GT:
                # n > -c  (n integer)  <=>  n >= floor(-c)+1
                c2 = -Fraction(math.floor(-c) + 1)
                d = z3.Z3_OP_GE
            elif d == z3.Z3_OP_GE:
                c2 = -Fraction(math.ceil(-c))
            else:
                c2 = c
                if c.denominator != 1:
                    return z3.BoolVal(d == z3.Z3_OP_DISTINCT)
            p.pop((), None)
            if c2:
                p[()] = c2
            srt = I
            lead = p[sorted([m for m in p if m != ()], key=_mono_key)[0]]
            if d == z3.Z3_OP_GE:
                if lead > 0:
                    return unpoly(p, srt) >= 0
                # -(q) >= 0  <=> not (q >= 1)
                q = {m: -v for m, v in p.items()}
                q = _padd(q, {(): Fraction(-1)})
                return z3.Not(unpoly(q, srt) >= 0)
        else:
            srt = RL
            lead = p[sorted([m for m in p if m != ()], key=_mono_key)[0]]
            p = {m: v / abs(lead) for m, v in p.items()}
            if d in (z3.Z3_OP_GE, z3.Z3_OP_GT):
                if lead > 0:
                    return unpoly(p, srt) >= 0 if d == z3.Z3_OP_GE else z3.Not(unpoly({m: -v for m, v in p.items()}, srt) >= 0) if False else (unpoly(p, srt) > 0 if d == z3.Z3_OP_GT else unpoly(p, srt) >= 0)
                q = {m: -v for m, v in p.items()}
                return z3.Not(unpoly(q, srt) > 0) if d == z3.Z3_OP_GE else z3.Not(unpoly(q, srt) >= 0)
        if lead < 0:
            p = {m: -v for m, v in p.items()}
        r = unpoly(p, srt) == 0
        return r if d == z3.Z3_OP_EQ else z3.Not(r)
    if d == z3.Z3_OP_NOT:
        a = norm(e.arg(0))
        if z3.is_true(a) or z3.is_false(a):
            return z3.BoolVal(z3.is_false(a))
        return a.arg(0) if z3.is_not(a) else z3.Not(a)
    if d in (z3.Z3_OP_AND, z3.Z3_OP_OR):
        out = []
        for c in e.children():
            c = norm(c)
            if z3.is_true(c):
                if d == z3.Z3_OP_OR:
                    return c
                continue
            if z3.is_false(c):
                if d == z3.Z3_OP_AND:
                    return c
                continue
            out.append(c)
        if not out:
            return z3.BoolVal(d == z3.Z3_OP_AND)
        return out[0] if len(out) == 1 else (z3.And(*out) if d == z3.Z3_OP_AND else z3.Or(*out))
    if d == z3.Z3_OP_UNINTERPRETED and e.num_args():
        return _norm_app(e)
    if d == z3.Z3_OP_IMPLIES:
        return norm(z3.Or(z3.Not(e.arg(0)), e.arg(1)))
    return e


# ------------------------------------------------------------------ walking
_kids = {}


def kids(e):
    """Children with their ids (memoized: the z3 wrappers are slow)."""
    k = e.get_id()
    r = _kids.get(k)
    if r is None:
        r = _kids[k] = (tuple((c.get_id(), c) for c in e.children() if z3.is_app(c)), e)      # quantified bodies are left out
    return r[0]


_subterms = {}


def subterms(e):
    """{id: term} of all subterms; the result is shared, do not modify."""
    k0 = e.get_id()
    r = _subterms.get(k0)
    if r is not None:
        return r[0]
    seen = {}
    stack = [(k0, e)]
    while stack:
        k, x = stack.pop()
        if k in seen:
            continue
        seen[k] = x
        stack.extend(kids(x))
    if len(_subterms) > 60000:
        _subterms.clear()
    _subterms[k0] = (seen, e)
    return seen


def free_consts(e):
    return [x for x in subterms(e).values() if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED]


_intonly = {}


def int_only(e):
    k = e.get_id()
    r = _intonly.get(k)
    if r is None:
        r = (not any(x.sort() == RL for x in subterms(e).values()), e)
        _intonly[k] = r
    return r[0]


def substitute(e, pairs):
    if not sym(e) or not pairs:
        return e
    ps = []
    for a, b in pairs:
        b = Z(b, a.sort() == RL)
        ps.append((a, b))
    return z3.substitute(e, *ps)


# ------------------------------------------------------------------ lets
_let_by_key = {}
LETDEF = {}     # decl name -> (placeholders, body)


def let(e, threshold=3):
    """Name a big real expression: an application of a defined symbol to the expression's free local constants."""
    if not sym(e) or e.sort() != RL:
        return e
    n = norm(e)
    if len(poly(n)) < threshold and n.decl().kind() != z3.Z3_OP_ITE:
        return n
    vs = []
    seen = set()

    def go(x):
        if x.get_id() in seen:
            return
        seen.add(x.get_id())
        if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and "!" in x.decl().name() and x.sort() in (I, RL):
            vs.append(x)
        for c in x.children():
            go(c)
    go(n)
    vs.sort(key=lambda v: v.decl().name())
    ph = [z3.Const("let_arg_%d%s" % (i, "" if v.sort() == I else "r"), v.sort()) for i, v in enumerate(vs)]
    body = norm(substitute(n, list(zip(vs, ph))))
    k = body.get_id()
    if k not in _let_by_key:
        f = z3.Function("let%d" % len(_let_by_key), *([v.sort() for v in vs]), RL)
        _let_by_key[k] = (f, body)
        LETDEF[f.name()] = (ph, body)
    f = _let_by_key[k][0]
    return f(*vs)


def is_let(e):
    return e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name() in LETDEF


def unfold(e, times=1):
    """Replace let applications by their definitions."""
    for _ in range(times):
        apps = [x for x in subterms(e).values() if is_let(x)]
        if not apps:
            return e
        # outermost first is unnecessary: definitions are substituted simultaneously
        pairs = []
        for x in apps:
            ph, body = LETDEF[x.decl().name()]
            pairs.append((x, substitute(body, list(zip(ph, x.children()))) if ph else body))
        e = z3.substitute(e, *pairs)
    return e


def unfold_all(e):
    while any(is_let(x) for x in subterms(e).values()):
        e = unfold(e)
    return e


_unfolded = {}


def norm_small(e, limit=3000):
    global POLY_LIMIT
    old, POLY_LIMIT = POLY_LIMIT, limit
    try:
        return norm(e)
    finally:
        POLY_LIMIT = old


def lets_of(e):
    return {x.decl().name(): x for x in subterms(e).values() if is_let(x)}


def align(a, b):
    """Unfold the definitions that occur on one side only, the latest first."""
    for _ in range(6):
        la, lb = lets_of(a), lets_of(b)
        diff = set(la) ^ set(lb)
        if not diff or len(subterms(a)) + len(subterms(b)) > 3000:
            break
        name = max(diff, key=lambda n: int(n[3:]))
        try:
            a, b = unfold_only(a, name), unfold_only(b, name)
        except TooBig:
            break
        if a.eq(b):
            break
    return a, b


def unfold_only(e, name):
    ph, body = LETDEF[name]
    for _ in range(20):
        apps = [x for x in subterms(e).values() if is_let(x) and x.decl().name() == name]
        if not apps:
            return e
        e = norm(z3.substitute(e, *[(x, substitute(body, list(zip(ph, x.children()))) if ph else body) for x in apps]))
    return e


_haslet = {}


def has_let(e):
    k = e.get_id()
    r = _haslet.get(k)
    if r is None:
        r = _haslet[k] = (any(is_let(x) for x in subterms(e).values()), e)
    return r[0]


def unfolded(e):
    k = e.get_id()
    r = _unfolded.get(k)
    if r is None:
        try:
            r = (norm_small(unfold_all(e)) if has_let(e) else e, e)
        except TooBig:
            r = (e, e)
        _unfolded[k] = r
    return r[0]


# ------------------------------------------------------------------ solver
class Stats:
    def __init__(self):
        self.queries, self.time, self.cached = 0, 0.0, 0


STATS = Stats()
_facts_for = {}       # decl name -> function(app) -> list of facts
DEADLINE = [None]


class OutOfTime(Exception):
    pass


def fact(name):
    def deco(f):
        _facts_for[name] = f
        return f
    return deco


_fact_memo = {}
_symfacts = {}


def facts(e):
    """Facts about the symbols in e, transitively: {id: fact}."""
    k0 = e.get_id()
    r = _fact_memo.get(k0)
    if r is not None:
        return r[0]
    out, seen = {}, set()
    todo = [(k0, e)]
    while todo:
        k, x = todo.pop()
        if k in seen:
            continue
        seen.add(k)
        todo.extend(kids(x))
        fs = _symfacts.get(k)
        if fs is None:
            fs = ()
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                f = _facts_for.get(x.decl().name())
                if f is not None:
                    fs = tuple((y.get_id(), y) for y in f(x))
            _symfacts[k] = (fs, x)
        else:
            fs = fs[0]
        for i, y in fs:
            out[i] = y
            todo.append((i, y))
    _fact_memo[k0] = (out, e)
    return out


DEFS = {}      # const name -> list of facts (definitions of fresh constants)


def add_def(c, *fs):
    _fact_memo.clear()
    _symfacts.clear()
    DEFS.setdefault(c.decl().name(), []).extend(fs)
    _facts_for[c.decl().name()] = lambda x, n=c.decl().name(): DEFS[n]


@fact("inv")
def _f(x):
    a = x.arg(0)
    return [z3.Implies(a != 0, a * x == 1), (a > 0) == (x > 0), (a < 0) == (x < 0)]


@fact("pi")
def _f(x):
    return [x > z3.RealVal("3.14159265358979"), x < z3.RealVal("3.14159265358980")]


_check_memo = {}
PAIRS = []           # (name, name, fn): facts about every pair of applications of two functions
CONSTRAINED = set()  # functions whose facts the numeric refutation does not respect


def sorted_function(f, strict=True):
    """Declare a function of an integer to be increasing."""
    def fact(x, y):
        a, b = x.arg(0), y.arg(0)
        return [z3.Implies(a < b, x < y if strict else x <= y), z3.Implies(b < a, y < x if strict else y <= x)]
    PAIRS.append((f.name(), f.name(), fact))
    CONSTRAINED.add(f.name())


_pair_memo, _apps_memo = {}, {}


def pair_facts(assertions):
    names = {n for p in PAIRS for n in p[:2]}
    apps = {n: {} for n in names}
    for a in assertions:
        r = _apps_memo.get(a.get_id())
        if r is None:
            r = _apps_memo[a.get_id()] = ([(x.decl().name(), k, x) for k, x in subterms(a).items() if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED], a)
        for name, k, x in r[0]:
            if name in names:
                apps[name][k] = x
    out = []
    for n, m, fn in PAIRS:
        xs, ys = list(apps[n].values()), list(apps[m].values())
        for i, x in enumerate(xs):
            for y in (xs[i + 1:] if n == m else ys):
                key = (id(fn), x.get_id(), y.get_id())
                r = _pair_memo.get(key)
                if r is None:
                    r = _pair_memo[key] = (fn(x, y), fn, x, y)      # the terms are kept, so that the ids stay theirs
                out += r[0]
    return out


def check(assertions, timeout_ms=3000, with_facts=True):
    """Satisfiability of a conjunction: ('unsat'|'sat'|'unknown', model)."""
    if DEADLINE[0] is not None and time.time() > DEADLINE[0]:
        raise OutOfTime()
    out = {}
    for a in assertions:
        out[a.get_id()] = a
        if with_facts:
            out.update(facts(a))
    if PAIRS and with_facts:
        for f in pair_facts(out.values()):
            out[f.get_id()] = f
    key = frozenset(out)
    out = list(out.values())
    r = _check_memo.get(key)
    if r is not None and (r[0] != "unknown" or r[2] >= timeout_ms):
        STATS.cached += 1
        return r[0], r[1]
    t0 = time.time()
    s = z3.Solver()
    s.set("timeout", timeout_ms)
    s.add(*out)
    c = str(s.check())
    m = s.model() if c == "sat" else None
    STATS.queries += 1
    STATS.time += time.time() - t0
    _check_memo[key] = (c, m, timeout_ms, out)
    return c, m


def pc_for(cond, pc):
    """Path facts usable for a condition: the integer ones suffice for an integer condition."""
    if sym(cond) and int_only(cond):
        return [p for p in pc if sym(p) and int_only(p)]
    return [p for p in pc if sym(p)]


_linear = {}


def linear(e):
    """No product of two unknowns and no division by one."""
    k = e.get_id()
    r = _linear.get(k)
    if r is None:
        ok = True
        for x in subterms(e).values():
            d = x.decl().kind()
            if d == z3.Z3_OP_MUL:
                ok = sum(not (z3.is_int_value(c) or z3.is_rational_value(c)) for c in x.children()) < 2
            elif d in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_DIV):
                ok = z3.is_int_value(x.arg(1)) or z3.is_rational_value(x.arg(1))
            if not ok:
                break
        r = _linear[k] = (ok, e)
    return r[0]


def decide(cond, pc, timeout_ms=1500):
    """True / False / None (not determined)."""
    if not sym(cond):
        return bool(cond)
    c = norm(cond)
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    ps = pc_for(c, pc)
    for p in ps:
        if p.eq(c):
            return True
    lin = [p for p in ps if linear(p)]
    if len(lin) < len(ps):
        # a subset of the facts may do, and is much easier without products
        if check(lin + [z3.Not(c)], 400)[0] == "unsat":
            return True
        if check(lin + [c], 400)[0] == "unsat":
            return False
    a = check(ps + [z3.Not(c)], timeout_ms)[0]
    if a == "unsat":
        return True
    b = check(ps + [c], timeout_ms)[0]
    if b == "unsat":
        return False
    if int_only(c):
        if a == "unknown" and mixed_radix(c, ps):
            return True
        if b == "unknown" and mixed_radix(norm(z3.Not(c)), ps):
            return False
    return None


def feasible(pc, timeout_ms=1500):
    return check([p for p in pc if sym(p)], timeout_ms)[0] != "unsat" if all(sym(p) or p for p in pc) else False


# ------------------------------------------------------------------ numeric evaluation (for witnesses)
class Undefined(Exception):
    pass


REALFUN = {
    "sin": math.sin, "cos": math.cos, "asin": math.asin, "acos": math.acos, "atan2": math.atan2, "sqrt": math.sqrt, "tan": math.tan, "atan": math.atan,
}


def evaluate(e, env, cache=None):
    """Float/int value of a term; env(decl, args) gives data."""
    cache = {} if cache is None else cache

    def go(x):
        k = x.get_id()
        if k in cache:
            return cache[k][0]
        d = x.decl().kind()
        if d == z3.Z3_OP_ITE:
            r = go(x.arg(1)) if go(x.arg(0)) else go(x.arg(2))
        elif d == z3.Z3_OP_ANUM:
            r = x.as_long() if x.sort() == I else float(x.as_fraction())
        elif d == z3.Z3_OP_TRUE:
            r = True
        elif d == z3.Z3_OP_FALSE:
            r = False
        elif d == z3.Z3_OP_AND:
            r = all(go(c) for c in x.children())
        elif d == z3.Z3_OP_OR:
            r = any(go(c) for c in x.children())
        elif d == z3.Z3_OP_UNINTERPRETED and is_let(x):
            ph, body = LETDEF[x.decl().name()]
            r = go(substitute(body, list(zip(ph, x.children()))) if ph else body)
        else:
            a = [go(c) for c in x.children()]
            if d == z3.Z3_OP_ADD:
                r = sum(a)
            elif d == z3.Z3_OP_SUB:
                r = a[0] - sum(a[1:])
            elif d == z3.Z3_OP_UMINUS:
                r = -a[0]
            elif d == z3.Z3_OP_MUL:
                r = 1
                for v in a:
                    r = r * v
            elif d == z3.Z3_OP_TO_REAL:
                r = float(a[0])
            elif d == z3.Z3_OP_TO_INT:
                r = math.floor(a[0])
            elif d == z3.Z3_OP_DIV:
                if a[1] == 0:
                    raise Undefined()
                r = a[0] / a[1]
            elif d == z3.Z3_OP_IDIV:
                if a[1] == 0:
                    raise Undefined()
                r = a[0] // a[1] if a[1] > 0 else -(a[0] // -a[1])
            elif d == z3.Z3_OP_MOD:
                if a[1] == 0:
                    raise Undefined()
                r = a[0] % abs(a[1])
            elif d == z3.Z3_OP_LE:
                r = a[0] <= a[1]
            elif d == z3.Z3_OP_LT:
                r = a[0] < a[1]
            elif d == z3.Z3_OP_GE:
                r = a[0] >= a[1]
            elif d == z3.Z3_OP_GT:
                r = a[0] > a[1]
            elif d == z3.Z3_OP_EQ:
                r = a[0] == a[1]
            elif d == z3.Z3_OP_DISTINCT:
                r = a[0] != a[1]
            elif d == z3.Z3_OP_NOT:
                r = not a[0]
            elif d == z3.Z3_OP_IMPLIES:
                r = (not a[0]) or a[1]
            elif d == z3.Z3_OP_UNINTERPRETED:
                n = x.decl().name()
                if n == "inv":
                    if a[0] == 0:
                        raise Undefined()
                    r = 1.0 / a[0]
                elif n == "pi":
                    r = math.pi
                elif n in REALFUN:
                    try:
                        r = REALFUN[n](*a)
                    except ValueError:
                        raise Undefined()
                else:
                    r = env(x, a)
            else:
                raise Undefined()
        cache[k] = (r, x)
        return r
    return go(e)


class RandomEnv:
    """Integers from a z3 model (or small random), reals random but consistent per application."""

    def __init__(self, model, seed, scale=1.0):
        self.model, self.rng, self.vals = model, random.Random(seed), {}
        self.scale = scale

    def __call__(self, x, args):
        k = (x.decl().name(), tuple(args))
        if k in self.vals:
            return self.vals[k]
        v = None
        if x.sort() == I and self.model is not None:
            m = self.model.eval(x.decl()(*[z3.IntVal(int(a)) if s == I else z3.RealVal(a) for a, s in
                                           zip(args, [x.arg(i).sort() for i in range(x.num_args())])]) if x.num_args() else x, model_completion=True)
            v = m.as_long()
        elif x.sort() == B and self.model is not None:
            v = z3.is_true(self.model.eval(x, model_completion=True))
        elif x.sort() == I:
            v = self.rng.randint(0, 6)
        elif x.sort() == B:
            v = self.rng.random() < .5
        else:
            dom = RANGES.get(x.decl().name().split("!")[0].split("#")[0])
            v = self.rng.uniform(*dom) if dom else self.rng.uniform(-1, 1) * self.scale
            if self.rng.random() < 0.15:
                v = float(round(v))
        self.vals[k] = v
        return v


RANGES = {}


# ------------------------------------------------------------------ prover
class Result:
    def __init__(self, status, info=None):
        self.status, self.info = status, info

    def __bool__(self):
        return self.status == "proved"

    def __repr__(self):
        return "Result(%s, %s)" % (self.status, str(self.info)[:300])


INPUT = set()        # functions (inputs) whose facts are assumptions about the input, which a counterexample has to meet


def numeric_refute(pc, goal, model, tries=40, eqpair=None):
    """Look for a real valuation that satisfies pc and breaks the goal (goal: Bool term, or eqpair of terms)."""
    real_pc = [p for p in pc if sym(p)]
    if INPUT:
        apps = {}
        for t in real_pc + ([goal] if eqpair is None else list(eqpair)):
            if sym(t):
                for x in subterms(unfold_all(t)).values():
                    if z3.is_app(x) and x.decl().name() in INPUT:
                        apps[x.get_id()] = x
        real_pc += [y for x in apps.values() for y in _facts_for[x.decl().name()](x)]
    for t in range(tries):
        env = RandomEnv(model, 1000 + t, scale=[1.0, 0.3, 10.0][t % 3])
        cache = {}
        try:
            if not all(evaluate(p, env, cache) for p in real_pc):
                continue
            if eqpair is not None:
                a, b = evaluate(eqpair[0], env, cache), evaluate(eqpair[1], env, cache)
                if isinstance(a, bool) or isinstance(b, bool):
                    bad = bool(a) != bool(b)
                else:
                    bad = not (abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b)))
            else:
                bad = not evaluate(goal, env, cache)
            if bad:
                return {"%s%s" % (n, list(a) if a else ""): v for (n, a), v in list(env.vals.items())[:60]}
        except (Undefined, OverflowError, ZeroDivisionError):
            continue
    return None


def _model_dict(m, limit=60):
    if m is None:
        return {}
    out = {}
    for d in m.decls():
        if len(out) >= limit:
            break
        if d.arity() == 0:
            out[d.name()] = str(m[d])
    return out


_absint = {}


def abstract_ints(g):
    """g with every truncated real replaced by an arbitrary integer (a weaker hypothesis: proofs carry over)."""
    pairs = []
    for x in subterms(g).values():
        if x.decl().kind() == z3.Z3_OP_TO_INT:
            k = x.get_id()
            if k not in _absint:
                _absint[k] = (fresh("whole"), x)
            pairs.append((x, _absint[k][0]))
    return norm(z3.substitute(g, *pairs)) if pairs else g


def _degree(p):
    return max([sum(n for _, n in m) for m in p], default=0)


def mixed_radix(g, pc):
    """Nonlinear integer inequalities of index arithmetic (m*A + B >= 0 from A >= 1, B >= -m), conjunct by conjunct."""
    if z3.is_and(g):
        return all(mixed_radix(x, pc) or check(pc + [z3.Not(x)], 4000)[0] == "unsat" for x in g.children()) if any(
            _degree(_ge(x) or {}) > 2 for x in g.children()) else False
    p = _ge(g)
    if p is None or _degree(p) <= 1:
        return False
    # eliminate constants defined by a product
    for e in pc:
        if z3.is_eq(e) and e.arg(0).sort() == I:
            q = _padd(poly(e.arg(0)), poly(e.arg(1)), -1)
            if _degree(q) < 2:
                continue
            for m, v in q.items():
                if len(m) == 1 and m[0][1] == 1 and abs(v) == 1 and not any(m[0][0] == a for m2 in q if m2 != m for a, _ in m2):
                    rest = {k: -w / v for k, w in q.items() if k != m}
                    p = _psubst(p, m[0][0], rest)
                    break
    if _degree(p) <= 2:
        return False
    return _radix(p, pc, 7)


def _psubst(p, atom, rest):
    r = {}
    for m, v in p.items():
        n = dict(m).get(atom, 0)
        t = {tuple(x for x in m if x[0] != atom): v}
        for _ in range(n):
            t = _pmul(t, rest)
        r = _padd(r, t)
    return r


def _ge(g):
    """polynomial p with g <=> p >= 0, for a canonical integer inequality"""
    neg_ = z3.is_not(g)
    h = g.arg(0) if neg_ else g
    if h.decl().kind() != z3.Z3_OP_GE or h.arg(0).sort() != I:
        return None
    p = _padd(poly(h.arg(0)), poly(h.arg(1)), -1)
    if neg_:        # not (p >= 0)  <=>  -p - 1 >= 0
        p = _padd({m: -v for m, v in p.items()}, {(): Fraction(-1)})
    return p


def _nonneg(p, pc, ms=700):
    if not p:
        return True
    if len(p) == 1 and () in p:
        return p[()] >= 0
    return check(pc + [z3.Not(unpoly(p, I) >= 0)], ms)[0] == "unsat"


def _radix(p, pc, depth):
    if _degree(p) <= 2 or depth == 0:
        return _nonneg(p, pc, 3000 if depth < 7 else 700)
    count = {}
    for m in p:
        if len(m) > 1:
            for a, _ in m:
                count[a] = count.get(a, 0) + 1
    for a in sorted(count, key=lambda a: -count[a]):
        A, Bp = {}, {}
        for m, v in p.items():
            d = dict(m)
            if a in d:
                d[a] -= 1
                if not d[a]:
                    del d[a]
                A[tuple(sorted(d.items()))] = v
            else:
                Bp[m] = v
        if _degree(Bp) > 1:
            continue
        one = {((a, 1),): Fraction(1)}
        if not _nonneg(one, pc):
            continue
        if _nonneg(Bp, pc):
            if _radix(A, pc, depth - 1):
                return True
        elif _nonneg(_padd(Bp, one), pc) and _radix(_padd(A, {(): Fraction(-1)}), pc, depth - 1):
            return True
    return False


def prove(goal, pc, timeout_ms=8000, numeric=True):
    """Prove a Boolean goal under path facts."""
    if not sym(goal):
        if goal:
            return Result("proved", "constant")
        c, m = check([p for p in pc if sym(p)], timeout_ms)
        if c == "unsat":
            return Result("proved", "unreachable")
        if c == "sat":
            return Result("refuted", _model_dict(m))
        return Result("unknown", "constant false under an undecided path")
    g = norm(goal)
    if z3.is_true(g):
        return Result("proved", "normal form")
    ps = pc_for(g, pc)
    h = g if int_only(g) else abstract_ints(g)
    if int_only(h):
        ips = ps if h is g else [p for p in pc if sym(p) and int_only(p)]
        if mixed_radix(h, ips):
            return Result("proved", "mixed radix")
        if h is not g and check(ips + [z3.Not(h)], 1500)[0] == "unsat":
            return Result("proved", "smt")
    c, m = check(ps + [z3.Not(g)], timeout_ms)
    if c == "unsat":
        return Result("proved", "smt")
    if c == "sat" and len(ps) != len([p for p in pc if sym(p)]):
        full = [p for p in pc if sym(p)]
        c2, m2 = check(full + [z3.Not(g)], timeout_ms)
        if c2 == "unsat":
            return Result("proved", "smt")
        m = m2 or m
        c = c2 if c2 == "sat" else "unknown"
    g2 = unfold_all(g)
    if not g2.eq(g):
        r = prove(g2, [unfold_all(p) if sym(p) else p for p in pc], timeout_ms, numeric)
        if r.status != "unknown":
            return r
    if c == "sat":
        terms = pc_for(g, pc) + [g]
        interp = any(x.decl().kind() == z3.Z3_OP_UNINTERPRETED and (x.decl().name() in REALFUN or x.decl().name() == "inv")
                     for t in terms for x in subterms(t).values())
        if not interp and int_only(g):
            return Result("refuted", _model_dict(m))
        w = numeric_refute(pc, g, m) if numeric else None
        if w is not None:
            return Result("refuted", w)
        if not interp:
            return Result("refuted", _model_dict(m))
    elif numeric:
        cc, mm = check([p for p in pc if sym(p) and int_only(p)], 1000)
        w = numeric_refute(pc, g, mm)
        if w is not None:
            return Result("refuted", w)
    return Result("unknown", "solver: " + c)


def _ites(e):
    """ite conditions of a term, smallest first."""
    out = {}
    for x in subterms(e).values():
        if x.decl().kind() == z3.Z3_OP_ITE:
            c = x.arg(0)
            out[c.get_id()] = c
    return list(out.values())


def assume_in(e, c, val):
    """Simplify e under the condition c == val (c canonical)."""
    r = z3.substitute(e, (c, z3.BoolVal(val)))
    return norm(r)


def _unify(a, b, pc, depth, budget):
    """Replace applications with provably equal arguments by one representative."""
    groups = {}
    for x in list(subterms(a).values()) + list(subterms(b).values()):
        if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() and x.decl().name() != "inv":
            groups.setdefault(x.decl().name(), {})[x.get_id()] = x
    # idiv atoms are compared as applications as well
    pairs = []
    order = sorted(groups.items(), key=lambda kv: min(len(subterms(x)) for x in kv[1].values()))
    for name, d in order:
        xs = sorted(d.values(), key=lambda x: (len(subterms(x)), x.sexpr() if len(subterms(x)) < 60 else ""))
        if len(xs) > 60:
            continue
        reps = []
        for x in xs:
            for y in reps:
                if all(c.eq(d2) for c, d2 in zip(x.children(), y.children())):
                    break
                if x.arg(0).sort() == RL and len(xs) > 24:
                    continue
                if all(_args_equal(c, d2, pc, depth, budget) for c, d2 in zip(x.children(), y.children())):
                    pairs.append((x, y))
                    break
            else:
                reps.append(x)
    return pairs


_argmemo = {}


def _args_equal(c, d, pc, depth, budget):
    if c.eq(d):
        return True
    key = (c.get_id(), d.get_id(), frozenset(p.get_id() for p in pc if sym(p)))
    r = _argmemo.get(key)
    if r is None:
        r = _argmemo[key] = (_args_equal2(c, d, pc, depth, budget), c, d, list(pc))
    return r[0]


def _args_equal2(c, d, pc, depth, budget):
    if c.sort() in (I, B):
        g = norm(c == d)
        if z3.is_true(g):
            return True
        if z3.is_false(g):
            return False
        return check(pc_for(g, pc) + [z3.Not(g)], 2000)[0] == "unsat"
    if unfolded(c).eq(unfolded(d)):
        return True
    if depth > 3 or differ(c, d, pc):
        return False
    return prove_eq(c, d, pc, budget, depth + 1, refute=False).status == "proved"


_envs = {}


def differ(c, d, pc):
    """Different values at a random point with the integers of a model of pc (a filter: equality is then not attempted)."""
    ip = [p for p in pc if sym(p) and int_only(p)]
    key = frozenset(p.get_id() for p in ip)
    r = _envs.get(key)
    if r is None:
        m = check(ip, 1000)[1]
        r = _envs[key] = ([(RandomEnv(m, 77 + t), {}) for t in range(2)], ip)
    for env, cache in r[0]:
        try:
            a, b = evaluate(c, env, cache), evaluate(d, env, cache)
        except (Undefined, OverflowError, ZeroDivisionError):
            continue
        if abs(a - b) > 1e-6 * max(1.0, abs(a), abs(b)):
            return True
    return False


class Budget:
    def __init__(self, splits=4000):
        self.splits = splits


def prove_eq(a, b, pc, budget=None, depth=0, refute=True, timeout_ms=4000):
    """pc |= a == b, for arithmetic or Boolean terms."""
    budget = budget or Budget()
    if not sym(a) and not sym(b):
        return prove(frac(a) == frac(b), pc)
    if is_bool(a) or is_bool(b):
        return prove(Z(a) == Z(b), pc)
    r = is_real(a) or is_real(b)
    try:
        a, b = norm(Z(a, r)), norm(Z(b, r))
    except TooBig:
        return Result("unknown", "polynomial too big")
    return _prove_eq(a, b, list(pc), budget, depth, refute, timeout_ms)


def _quotients(e):
    return {k: x for k, x in subterms(e).items() if x.decl().kind() == z3.Z3_OP_IDIV and z3.is_int_value(x.arg(1)) and x.arg(1).as_long() > 0}


def _prove_eq(a, b, pc, budget, depth, refute, timeout_ms):
    if a.eq(b):
        return Result("proved", "normal form")
    if has_let(a) or has_let(b):
        x, y = align(a, b)
        if x.eq(y) or unfolded(x).eq(unfolded(y)):
            return Result("proved", "normal form")
    # quotients that occur on one side only and are zero
    qa, qb = _quotients(a), _quotients(b)
    zero = []
    for k in qa.keys() ^ qb.keys():
        q = qa.get(k, qb.get(k))
        if decide(z3.And(q.arg(0) >= 0, q.arg(0) < q.arg(1)), pc) is True:
            zero.append((q, z3.IntVal(0)))
    if zero:
        return _prove_eq(norm(z3.substitute(a, *zero)), norm(z3.substitute(b, *zero)), pc, budget, depth, refute, timeout_ms)
    # resolve conditionals
    conds = _ites(a)
    known = {c.get_id() for c in conds}
    conds += [c for c in _ites(b) if c.get_id() not in known]
    conds = [c for c in conds if not any(x.decl().kind() == z3.Z3_OP_ITE for x in subterms(c).values())] or conds
    if conds:
        conds.sort(key=lambda c: (not int_only(c), len(subterms(c))))
        undecided = None
        for c in conds:
            v = decide(c, pc)
            if v is None and has_let(c):
                v = decide(unfolded(c), [unfolded(p) for p in pc if sym(p)], 700)
            if v is not None:
                return _prove_eq(assume_in(a, c, v), assume_in(b, c, v), pc, budget, depth, refute, timeout_ms)
            if undecided is None:
                undecided = c
        budget.splits -= 1
        if budget.splits < 0:
            return Result("unknown", "too many cases")
        c = undecided
        for v in (True, False):
            pc2 = pc + [c if v else z3.Not(c)]
            r = _prove_eq(assume_in(a, c, v), assume_in(b, c, v), pc2, budget, depth, refute, timeout_ms)
            if not r:
                return r
        return Result("proved", "cases")
    # unify applications modulo integer arithmetic
    for rnd in range(4):
        pairs = _unify(a, b, pc, depth, budget)
        if not pairs:
            break
        a, b = norm(z3.substitute(a, *pairs)), norm(z3.substitute(b, *pairs))
        if a.eq(b):
            return Result("proved", "congruence")
    # unfold definitions
    a2, b2 = a, b
    if any(is_let(x) for x in subterms(a).values()) or any(is_let(x) for x in subterms(b).values()):
        try:
            a2, b2 = norm(unfold(a)), norm(unfold(b))
            pc2 = pc
            return _prove_eq(a2, b2, pc2, budget, depth, refute, timeout_ms)
        except TooBig:
            return Result("unknown", "polynomial too big")
    if decide_false(pc) or (any(sym(p) and has_let(p) for p in pc) and decide_false([unfolded(p) if sym(p) else p for p in pc])):
        return Result("proved", "unreachable")
    # inverses of what is proved not to be zero
    if is_real(a) and any(x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() == "inv" for e in (a, b) for x in subterms(e).values()):
        try:
            if not _cancel_poly(_padd(poly(a), poly(b), -1), pc, {}):
                return Result("proved", "inverses")
        except TooBig:
            pass
    # integer subterms (div, mod) and nonlinear facts: the solver
    g = a == b
    c, m = check(pc_for(g, pc) + [z3.Not(g)], timeout_ms)
    if c == "unsat":
        return Result("proved", "smt")
    if not refute:
        return Result("unknown")
    mi = None
    cc, mi = check([p for p in pc if sym(p) and int_only(p)] + ([z3.Not(g)] if int_only(g) else []), 2000)
    w = numeric_refute(pc, None, mi, eqpair=(a, b))
    if w is None and c == "sat":
        w = numeric_refute(pc, None, m, eqpair=(a, b))
    if w is not None:
        return Result("refuted", w)
    if c == "sat" and int_only(g) and all(int_only(p) for p in pc if sym(p)):
        return Result("refuted", _model_dict(m))
    return Result("unknown", "solver: %s; %s  =/=  %s" % (c, str(a)[:300], str(b)[:300]))


def decide_false(pc):
    return check([p for p in pc if sym(p)], 2000)[0] == "unsat"
