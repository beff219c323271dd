"""Directional derivatives of the terms a function computes (forward mode).

Rules used: sum, product, quotient, square root, logarithm, finite sums, choice.
A choice is differentiated branch by branch: valid where its condition holds on
a neighbourhood, which the contracts that use this establish (strict conditions)."""
from .core import z3, Unsupported, _inv, _sqrt, REAL, rdiv
from . import sums


def tangent(e, seed, memo=None):
    """derivative of the real term e in the direction seed: (application of a
    seeded function) -> term, or None for constants"""
    memo = {} if memo is None else memo
    i = e.get_id()
    if i in memo:
        return memo[i][1]
    r = _tangent(e, seed, memo)
    memo[i] = (e, r)
    return r


def _z(t):
    return z3.is_rational_value(t) and t.as_fraction() == 0


def _mul(a, b):
    if _z(a) or _z(b):
        return z3.RealVal(0)
    return a * b


def _tangent(e, seed, memo):
    zero = z3.RealVal(0)
    if z3.is_rational_value(e) or e.sort() != REAL:
        return zero
    if not z3.is_app(e):
        raise Unsupported('derivative of %s' % e)
    s = seed(e)
    if s is not None:
        return s
    k = e.decl().kind()
    ch = e.children()
    if k == z3.Z3_OP_ADD:
        out = zero
        for c in ch:
            out = out + tangent(c, seed, memo)
        return z3.simplify(out)
    if k == z3.Z3_OP_SUB:
        out = tangent(ch[0], seed, memo)
        for c in ch[1:]:
            out = out - tangent(c, seed, memo)
        return z3.simplify(out)
    if k == z3.Z3_OP_UMINUS:
        return z3.simplify(-tangent(ch[0], seed, memo))
    if k == z3.Z3_OP_MUL:
        out = zero
        for j, c in enumerate(ch):
            t = tangent(c, seed, memo)
            if _z(t):
                continue
            for q, o in enumerate(ch):
                if q != j:
                    t = t * o
            out = out + t
        return out
    if k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]):
        n = ch[1].as_fraction()
        if n.denominator == 1 and n >= 1:
            b = z3.RealVal(int(n))
            for _ in range(int(n) - 1):
                b = b * ch[0]
            return _mul(b, tangent(ch[0], seed, memo))
    if k == z3.Z3_OP_DIV:
        a, b = ch
        return rdiv(tangent(a, seed, memo), b) - _mul(rdiv(rdiv(a, b), b), tangent(b, seed, memo))
    if k == z3.Z3_OP_ITE:
        a, b = tangent(ch[1], seed, memo), tangent(ch[2], seed, memo)
        return a if a.eq(b) else z3.If(ch[0], a, b)
    if k == z3.Z3_OP_TO_REAL:
        return zero
    n = e.decl().name()
    if e.decl().eq(_sqrt):
        t = tangent(ch[0], seed, memo)
        return zero if _z(t) else rdiv(t, 2 * e)
    if e.decl().eq(_inv):
        t = tangent(ch[0], seed, memo)
        return zero if _z(t) else -t * e * e
    if n == 'log' and len(ch) == 1:
        t = tangent(ch[0], seed, memo)
        return zero if _z(t) else rdiv(t, ch[0])
    if sums.is_sum(e) and sums.REG[n]['op'] == 'sum':
        bs, body = sums.open_sum(e)
        t = tangent(body, seed, {})
        if _z(z3.simplify(t)):
            return zero
        for b, m in reversed(bs):
            inner = t
            t = sums.mk_sum(m, lambda v, inner=inner, b=b: z3.substitute(inner, (b, v)))
        return t
    for c in ch:
        if c.sort() == REAL and not _z(z3.simplify(tangent(c, seed, memo))):
            raise Unsupported('derivative of %s' % n)
    if _mentions_seed(e, seed, set()):
        raise Unsupported('derivative of %s' % n)
    return zero


def _mentions_seed(e, seed, seen):
    if e.get_id() in seen:
        return False
    seen.add(e.get_id())
    if z3.is_app(e) and e.sort() == REAL and seed(e) is not None and not _z(z3.simplify(seed(e))):
        return True
    return any(_mentions_seed(c, seed, seen) for c in e.children())


def entry(name, *at):
    """seed: the entry at[...] of the array name"""
    def seed(e):
        if e.num_args() and e.decl().name() == name:
            g = [e.arg(j) == a for j, a in enumerate(at)]
            g = z3.simplify(z3.And(*g))
            return z3.RealVal(1) if z3.is_true(g) else (z3.RealVal(0) if z3.is_false(g) else
                                                        z3.If(g, z3.RealVal(1), z3.RealVal(0)))
        return None
    return seed
