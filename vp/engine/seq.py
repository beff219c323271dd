"""Sequences of symbolic length: a list is a chain of segments, each concrete or
symbolic (length term, element function)."""
import zlib
from .core import (z3, V, INT, ctx, Unsupported, SInt, SReal, SBool, SBase, wrap, zint, ite, _isnum)
from . import core
import numpy as _np


class Seg(object):
    __slots__ = ('n', 'f', 'key')

    def __init__(self, n, f, key=None):
        self.n, self.f, self.key = n, f, key   # n: z3 Int term, f: python fn of z3 Int -> value


def _zi(n):
    return zint(n)


_ISUM = {}


def isum(k, f):
    """integer sum over 0 <= i < k of the integer term f(i)"""
    from .sums import mk_sum
    b = z3.Int('isum!b')
    body = z3.simplify(f(b))
    key = (k, body)
    S = _ISUM.get(key)
    if S is None:
        S = _ISUM[key] = z3.simplify(mk_sum(k, lambda i: z3.ToReal(z3.substitute(body, (b, i)))))
    if z3.is_rational_value(S):
        return z3.IntVal(int(S.as_fraction()))
    if z3.is_app_of(S, z3.Z3_OP_TO_REAL):
        return S.arg(0)
    t = z3.ToInt(S)
    ctx().assume(z3.ToReal(t) == S)
    return t


class Cat(Seg):
    """concatenation of the lists block(0) .. block(k-1)"""

    def __init__(self, k, block):
        self.k, self.block = k, block
        Seg.__init__(self, None, self.elem)
        self.setk(k)

    def setk(self, k):
        self.k = k
        self.n = self.off(k)
        c = ctx()
        c.assume(self.n >= 0)
        k1 = z3.simplify(k - 1)
        if not z3.is_int_value(k1) and c.must(k >= 1):
            o = self.off(k1)
            c.assume(z3.And(o >= 0, self.n == o + self.size(k1)))

    def size(self, i):
        return self.block(i).zlen()

    def off(self, k):
        return isum(k, self.size)

    def lemmas(self, j):
        """prefix sums of the block sizes: they occur in j, are non-negative and increase"""
        c = ctx()
        from .sums import sum_apps, open_sum
        cands = [z3.IntVal(0), z3.simplify(self.k - 1)]
        for a in sum_apps(z3.simplify(j)):
            bs, _ = open_sum(a)
            if len(bs) == 1:
                cands += [bs[0][1], z3.simplify(bs[0][1] - 1)]
        out, seen = [], set()
        for b in cands:
            if b.get_id() in seen or not c.must(z3.And(b >= 0, b < self.k)):
                continue
            seen.add(b.get_id())
            o, e = self.off(b), self.off(z3.simplify(b + 1))
            c.assume(z3.And(o >= 0, e == o + self.size(b), e <= self.n))
            out.append((b, o, e))
        return out

    def elem(self, j):
        """element j: the block is found among the prefix sums occurring in j"""
        c = ctx()
        j = z3.simplify(j)
        for b, o, e in self.lemmas(j):
            if c.must(z3.And(j >= o, j < e)):
                return self.block(b).at(z3.simplify(j - o))
        # some block holds it: 0 <= j < n is the callers' obligation
        ph = z3.Int('cat!ph')
        nm = '%08x' % (zlib.crc32((self.off(ph).sexpr() + '|' + z3.simplify(self.size(ph)).sexpr()).encode()))
        b, o = z3.Function('catblock:' + nm, INT, INT)(j), z3.Function('catpos:' + nm, INT, INT)(j)
        ok = z3.And(j >= 0, j < self.n)
        c.assume(z3.Implies(ok, z3.And(b >= 0, b < self.k, o >= 0, o < self.size(b), self.off(b) + o == j)))
        return self.block(b).at(o)


class VList(object):
    """mutable list"""
    __array_ufunc__ = None
    is_tuple = False
    _sets = []

    def __init__(self, items=(), segs=None):
        self.segs = segs if segs is not None else ([list(items)] if items else [])
        c = core.CTX
        if c is not None:
            c.alloc += 1
            self.uid = c.alloc
        else:
            self.uid = -1

    # -- structure
    def concrete(self):
        return all(isinstance(s, list) for s in self.segs)

    def items(self):
        if not self.concrete():
            raise Unsupported('concrete items of a symbolic list')
        return [x for s in self.segs for x in s]

    def zlen(self):
        t = z3.IntVal(0)
        for s in self.segs:
            t = t + (len(s) if isinstance(s, list) else s.n)
        return z3.simplify(t)

    def __vlen__(self):
        return wrap(self.zlen())

    def __len__(self):
        n = self.__vlen__()
        if isinstance(n, int):
            return n
        return n.__index__()

    def __bool__(self):
        n = self.__vlen__()
        return bool(n != 0)

    def _mut(self, op, *a):
        c = core.CTX
        if c is None:
            return
        for lp in c.loop_stack:
            lp.note_list(self, op, a)

    def append(self, x):
        self._mut('append', x)
        if self.segs and isinstance(self.segs[-1], list):
            self.segs = self.segs[:-1] + [self.segs[-1] + [x]]
        else:
            self.segs = self.segs + [[x]]

    def extend(self, o):
        o = as_vlist(o)
        self._mut('extend', o)
        self.segs = [s for s in self.segs + list(o.segs) if not (isinstance(s, list) and not s)]

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __add__(self, o):
        if isinstance(o, tuple):
            raise TypeError('can only concatenate list (not "tuple") to list')
        r = VList(segs=list(self.segs))
        o = as_vlist(o)
        r.segs = [s for s in r.segs + list(o.segs) if not (isinstance(s, list) and not s)]
        return r

    def __radd__(self, o):
        return as_vlist(o) + self

    def copy(self):
        return VList(segs=[list(s) if isinstance(s, list) else s for s in self.segs])

    __copy__ = copy

    def __mul__(self, n):
        if self.concrete():
            if isinstance(n, (int, _np.integer)) and not isinstance(n, SInt):
                return VList(self.items() * int(n))
            it = self.items()
            n = _zi(n)
            n = z3.If(n < 0, z3.IntVal(0), n)
            if len(it) == 1:
                x = it[0]
                return type(self)(segs=[Seg(z3.simplify(n), lambda i: x)])
        elif ctx().must(self.zlen() == 1):
            return type(self)([self.at(0)]) * n
        raise Unsupported('list repetition')

    __rmul__ = __mul__

    def at(self, i):
        """element at z3 Int index i, 0 <= i < len assumed"""
        if z3.is_expr(i):
            i = z3.simplify(i)
            if z3.is_int_value(i):
                i = i.as_long()
        if self.concrete() and isinstance(i, int):
            return self.items()[i]
        i = z3.IntVal(i) if isinstance(i, int) else i
        off = z3.IntVal(0)
        cands = []     # (guard upper bound, value thunk)
        for s in self.segs:
            if isinstance(s, list):
                for x in s:
                    cands.append((off, off + 1, (lambda x=x: x)))
                    off = z3.simplify(off + 1)
            else:
                o = off
                cands.append((off, z3.simplify(off + s.n), (lambda s=s, o=o: s.f(z3.simplify(i - o)))))
                off = z3.simplify(off + s.n)
        c = ctx()
        # drop candidates that are impossible
        live = []
        for lo, hi, th in cands:
            g = z3.simplify(z3.And(i >= lo, i < hi))
            if z3.is_false(g):
                continue
            if z3.is_true(g) or c.must(g):
                return th()
            if c.sat(g) == z3.unsat:
                continue
            live.append((g, th))
        if not live:
            if c.solver.check() == z3.unsat:
                raise core.Infeasible()
            raise Unsupported('no live segment')
        val = live[-1][1]()
        for g, th in reversed(live[:-1]):
            val = ite(g, th(), val)
        return val

    def __getitem__(self, k):
        if isinstance(k, slice):
            return self._slice(k)
        if isinstance(k, (list, tuple)):
            raise TypeError('list indices must be integers or slices')
        if isinstance(k, (_np.bool_, bool)):
            k = int(k)
        if isinstance(k, (float, SReal)):
            raise TypeError('list indices must be integers')
        n = self.zlen()
        k = _zi(k)
        c = ctx()
        for s in self.segs:
            if isinstance(s, Cat):
                s.lemmas(k)
        if c.branch(k < 0):
            k = z3.simplify(k + n)
        if not c.branch(z3.And(k >= 0, k < n)):
            raise IndexError('list index out of range')
        return self.at(k)

    def __setitem__(self, k, v):
        if isinstance(k, slice):
            raise Unsupported('slice assignment')
        self._mut('setitem', k, v)
        if self.concrete() and not isinstance(k, SBase):
            it = self.items()
            it[int(k)] = v
            self.segs = [it]
            return
        n = self.zlen()
        k = _zi(k)
        c = ctx()
        if c.branch(k < 0):
            k = z3.simplify(k + n)
        if not c.branch(z3.And(k >= 0, k < n)):
            raise IndexError('list assignment index out of range')
        old = VList(segs=list(self.segs))
        self.segs = [Seg(n, lambda i: ite(i == k, v, old.at(i)))]
        self._sets = self._sets + [(k, v)]

    def _slice(self, s):
        if s.step not in (None, 1):
            if self.concrete() and all(not isinstance(x, SBase) for x in (s.start, s.stop, s.step)):
                return VList(self.items()[s])
            raise Unsupported('strided slice')
        if self.concrete() and not isinstance(s.start, SBase) and not isinstance(s.stop, SBase):
            return VList(self.items()[s])
        n = self.zlen()

        def norm(x, dflt):
            if x is None:
                return dflt
            x = _zi(x)
            x = z3.If(x < 0, z3.If(x + n < 0, z3.IntVal(0), x + n), z3.If(x > n, n, x))
            return tidy(x)
        for q in self.segs:
            if isinstance(q, Cat):
                for x in (s.start, s.stop):
                    if x is not None:
                        q.lemmas(_zi(x))
        a, b = norm(s.start, z3.IntVal(0)), norm(s.stop, n)
        m = tidy(z3.If(b > a, b - a, z3.IntVal(0)))
        old = VList(segs=list(self.segs))
        if z3.is_int_value(m) and m.as_long() <= 8:
            return VList([old.at(z3.simplify(a + j)) for j in range(m.as_long())])
        # keep concrete prefix when possible
        return VList(segs=[Seg(m, lambda i: old.at(z3.simplify(i + a)))])

    def __iter__(self):
        if self.concrete():
            return iter(self.items())
        raise Unsupported('python iteration over a symbolic list')

    def __reversed__(self):
        return iter(reversed(self.items()))

    def __contains__(self, x):
        if not self.concrete():
            c = ctx()

            def hit(y):
                if x is None or y is None:
                    o = y if x is None else x
                    return o.__visnone__() if hasattr(o, '__visnone__') else z3.BoolVal(x is y)
                from .loops import equal_values
                return equal_values(y, x)
            k, n = z3.Int(c.fresh('pos')), self.zlen()
            i = z3.Int(c.fresh('in'))
            if c.branch(z3.Bool(c.fresh('found'))):
                c.assume(z3.And(k >= 0, k < n))
                c.assume(hit(self.at(k)))
                return True
            if len(self.segs) != 1 or isinstance(self.segs[0], Cat):
                raise Unsupported('membership in a list of several parts')
            h = z3.simplify(hit(self.segs[0].f(i)))
            if not z3.is_false(h):
                c.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.Not(h))))
            return False
        return any(bool(y == x) if not (y is x) else True for y in self.items())

    def index(self, x):
        return self.items().index(x)

    def pop(self, k=-1):
        self._mut('pop', k)
        it = self.items()
        v = it.pop(k)
        self.segs = [it]
        return v

    def insert(self, k, v):
        self._mut('insert', k, v)
        it = self.items()
        it.insert(k, v)
        self.segs = [it]

    def __eq__(self, o):
        if not isinstance(o, (VList, list)):
            return False
        o = as_vlist(o)
        if self.concrete() and o.concrete():
            return self.items() == o.items()
        raise Unsupported('== on symbolic lists')

    def __ne__(self, o):
        return not (self == o)

    __hash__ = None

    def __repr__(self):
        return '<VList %s>' % (self.segs,)

    def encode(self):
        from .opq import uf, enc
        parts = []
        for s in self.segs:
            if isinstance(s, list):
                parts += [enc(x) for x in s]
            else:
                k = z3.Int('enc!k')
                e = enc(s.f(k))
                parts.append(uf('seg', [INT, V], V)(s.n, e))
        return uf('vlist%d' % len(parts), [p.sort() for p in parts], V)(*parts)


def tidy(e):
    """simplify an integer term, deciding its If-conditions by the path condition"""
    e = z3.simplify(e)
    for _ in range(12):
        it = _find_ite(e)
        if it is None:
            return e
        c = ctx()
        g = it.arg(0)
        if c.must(g):
            e = z3.simplify(z3.substitute(e, (it, it.arg(1))))
        elif c.must(z3.Not(g)):
            e = z3.simplify(z3.substitute(e, (it, it.arg(2))))
        else:
            # decide by forking: keeps the element functions simple
            if c.branch(g):
                e = z3.simplify(z3.substitute(e, (it, it.arg(1))))
            else:
                e = z3.simplify(z3.substitute(e, (it, it.arg(2))))
    return e


def _find_ite(e):
    if z3.is_app_of(e, z3.Z3_OP_ITE) and e.sort() == INT:
        return e
    for ch in e.children():
        r = _find_ite(ch)
        if r is not None:
            return r
    return None


class VTuple(VList):
    is_tuple = True

    def append(self, *a):
        raise AttributeError('tuple')

    def _slice(self, s):
        r = VList._slice(self, s)
        return VTuple(segs=r.segs)

    def __add__(self, o):
        r = VList(segs=list(self.segs)) + (o if isinstance(o, VList) else list(o))
        return VTuple(segs=r.segs)


class VRange(object):
    """range with symbolic bounds, step 1 (or concrete)"""

    def __init__(self, a, b, step=1):
        self.a, self.b, self.step = zint(a), zint(b), zint(step)

    def seg(self):
        if not (z3.is_int_value(self.step) and self.step.as_long() == 1):
            raise Unsupported('range with a symbolic step')
        n = tidy(z3.If(self.b > self.a, self.b - self.a, z3.IntVal(0)))
        a = self.a
        return VList(segs=[Seg(n, lambda i: wrap(i + a))])


def as_vlist(o):
    if isinstance(o, VList):
        return o
    if isinstance(o, (list, tuple, range, _np.ndarray)):
        return VList(list(o))
    if isinstance(o, VRange):
        return o.seg()
    if hasattr(o, '__vseq__'):
        return o.__vseq__()
    if isinstance(o, (map, zip, enumerate, type(iter([])), type({}.values()), type({}.keys()), type({}.items()))):
        return VList(list(o))
    if hasattr(o, '__next__'):
        return VList(list(o))
    if isinstance(o, (int, float, SBase)) or o is None:
        raise TypeError('%r object is not iterable' % type(o).__name__)
    raise Unsupported('not a sequence: %r' % type(o))


def slist(name, n, elem, tup=False):
    """fresh symbolic list of n elements; elem(name, i) builds the element value"""
    cls = VTuple if tup else VList
    return cls(segs=[Seg(zint(n), lambda i: elem(i))])
