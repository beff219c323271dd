"""Builtins and numpy as seen by the code under verification.

Each function dispatches: symbolic arrays go to the array theory (tensor.py),
opaque values become uninterpreted applications, plain values go to the real
function.  What is not covered raises Unsupported (never a violation)."""
import builtins as _b
import collections.abc as _abc
import math
import hashlib
import types
import numpy as _np
from .core import (z3, V, INT, REAL, BOOL, ctx, Unsupported, SInt, SReal, SBool, SBase, wrap, zint, zreal,
                   zbool, _isnum, ite, sround, sfloor, sceil, rsqrt, un, merge_eval)
from . import core, tensor as T, sums, cplx
from .seq import VList, VTuple, VRange, Seg, Cat, as_vlist, tidy
from .opq import Opq, app, app_real, enc
from .tensor import STensor, NZ, NZInfo
from .loops import subst


def _sym(x, d=0):
    if isinstance(x, (SBase, STensor, Opq, VList, NZ)):
        return True
    if d < 3 and isinstance(x, (list, tuple)):
        return any(_sym(y, d + 1) for y in x)
    return hasattr(x, '__as_tensor__') or hasattr(x, '__np__')


def _hasopq(x, d=0):
    if isinstance(x, Opq):
        return True
    if d < 3 and isinstance(x, (list, tuple)):
        return any(_hasopq(y, d + 1) for y in x)
    if isinstance(x, VList) and x.concrete():
        return any(_hasopq(y, d + 1) for y in x.items())
    if isinstance(x, VList):
        return any(_hasopq(s.f(z3.Int('probe!')), d + 1) for s in x.segs if isinstance(s, Seg))
    return False


# ------------------------------------------------------------------ builtins
class ShimType(object):
    def __init__(self, real, conv):
        self.__real__ = real
        self.conv = conv
        self.__name__ = real.__name__

    def __call__(self, *a, **k):
        return self.conv(*a, **k)

    def __eq__(self, o):
        return unty(self) is unty(o)

    def __hash__(self):
        return hash(self.__real__)

    def __repr__(self):
        return repr(self.__real__)

    def __instancecheck__(self, x):
        return v_isinstance(x, self)

    def __getattr__(self, k):
        if k.startswith('__v'):
            raise AttributeError(k)
        return getattr(self.__dict__['__real__'], k)


def unty(t):
    if t is v_type:
        return type
    return t.__real__ if isinstance(t, ShimType) else t


def v_isinstance(x, t):
    if isinstance(t, tuple):
        return v_any([v_isinstance(x, y) for y in t])
    t = unty(t)
    if hasattr(x, '__visinst__') and not isinstance(x, Opq):
        return x.__visinst__(t)
    if t is _np.ndarray:
        return isinstance(x, (STensor, _np.ndarray)) or (isinstance(x, Opq) and getattr(x, '_tag', None) == 'array')
    if isinstance(x, Opq) and t in (list, tuple, int, float, str, dict):
        return False
    if isinstance(x, SBool):
        return t in (bool, int, object)
    if isinstance(x, SInt):
        return t in (int, object) or t.__module__ == 'numbers' and t.__name__ in ('Number', 'Real', 'Integral')
    if isinstance(x, SReal):
        return t in (float, object) or t.__module__ == 'numbers' and t.__name__ in ('Number', 'Real')
    if isinstance(x, VTuple):
        return t in (tuple, object, _abc.Iterable, _abc.Sequence, _abc.Sized, _abc.Collection)
    if isinstance(x, VList):
        return t in (list, object, _abc.Iterable, _abc.Sequence, _abc.Sized, _abc.MutableSequence, _abc.Collection)
    if isinstance(x, STensor):
        return t in (object, _abc.Iterable, _abc.Sized)
    return isinstance(x, t)


def v_type(*a):
    if len(a) != 1:
        return type(*a)
    x = a[0]
    if isinstance(x, SBool):
        return BUILTINS['bool']
    if isinstance(x, SInt):
        return BUILTINS['int']
    if isinstance(x, SReal):
        return BUILTINS['float']
    if isinstance(x, VTuple):
        return BUILTINS['tuple']
    if isinstance(x, VList):
        return BUILTINS['list']
    if isinstance(x, STensor):
        return _np.ndarray
    return type(x)


def v_is(a, b):
    a, b = unty(a), unty(b)
    if a is None or b is None:
        x = b if a is None else a
        return wrap(x.__visnone__()) if hasattr(x, '__visnone__') else a is b
    if hasattr(a, '__visobj__') and a is not b:
        # the same object only if equal, and then possibly
        return type(a) is type(b) and bool(ctx().branch(zbool(a.__visobj__(b)))) and ctx().nondet('is')
    ia = isinstance(a, (SInt, SReal)) and not isinstance(a, SBool)
    ib = isinstance(b, (SInt, SReal)) and not isinstance(b, SBool)
    na = ia or (isinstance(a, (int, float)) and not isinstance(a, bool))
    nb = ib or (isinstance(b, (int, float)) and not isinstance(b, bool))
    if (ia or ib) and na and nb:
        if a is b and not ia:
            return True
        # identity of computed numbers: small ints are cached, others are distinct objects
        eq = zreal(a) == zreal(b)
        c = ctx()
        if not c.branch(eq):
            return False
        if not isinstance(a, (SReal, float)) and c.branch(z3.And(zint(a) >= -5, zint(a) <= 256)):
            return True
        return c.nondet('is')
    if isinstance(a, str) and isinstance(b, str) and a == b and a is not b:
        return ctx().nondet('is')
    if isinstance(a, SBool) or isinstance(b, SBool):
        if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
            return wrap(zbool(a) == zbool(b))
        return False
    return a is b


def v_is_not(a, b):
    r = v_is(a, b)
    return wrap(z3.Not(r.t)) if isinstance(r, SBool) else (not r)


def v_not(a):
    if isinstance(a, SBool):
        return wrap(z3.Not(a.t))
    return not a


def v_len(x):
    if isinstance(x, VRange):
        x = x.seg()
    if hasattr(x, '__vlen__'):
        return x.__vlen__()
    return len(x)


def v_range(*a):
    if not any(isinstance(x, SInt) for x in a):
        if any(isinstance(x, (SReal, float)) for x in a):
            raise TypeError("'float' object cannot be interpreted as an integer")
        return range(*a)
    if len(a) == 1:
        return VRange(0, a[0])
    if len(a) == 2:
        return VRange(*a)
    st = a[2]
    if isinstance(st, SInt):
        if ctx().branch(zint(st) < 1):
            raise Unsupported('range with a symbolic step')
        return VRange(a[0], a[1], st)
    if st == 1:
        return VRange(a[0], a[1])
    if st > 1:
        n = z3.If(zint(a[1]) > zint(a[0]), (zint(a[1]) - zint(a[0]) + st - 1) / st, z3.IntVal(0))
        lo = zint(a[0])
        return VList(segs=[Seg(tidy(n), lambda i: wrap(lo + st * i))])
    if st == -1:
        n = z3.If(zint(a[0]) > zint(a[1]), zint(a[0]) - zint(a[1]), z3.IntVal(0))
        lo = zint(a[0])
        return VList(segs=[Seg(tidy(n), lambda i: wrap(lo - i))])
    raise Unsupported('range with a negative step')


def symseq(x):
    if isinstance(x, VRange):
        return True
    if isinstance(x, VList):
        return not x.concrete()
    if isinstance(x, STensor):
        return x.ndim > 0 and z3.is_expr(T.dprod(x.axes[0]))
    if hasattr(x, '__vseq__'):
        return not x.__vseq__().concrete()
    return False


def v_zip(*its):
    if not its or not any(symseq(x) for x in its):
        return _b.zip(*[_plain(x) for x in its])
    vs = [as_vlist(x) for x in its]
    n = vs[0].zlen()
    for v in vs[1:]:
        m = v.zlen()
        if ctx().must(n == m):
            # keep a concrete length when one is available
            if z3.is_int_value(z3.simplify(m)):
                n = m
            continue
        n = tidy(z3.If(m < n, m, n))
    n = z3.simplify(n)
    if z3.is_int_value(n):
        return VList([tuple(v.at(i) for v in vs) for i in range(n.as_long())])
    return VList(segs=_align_segs(vs, n))


def _align_segs(vs, n):
    # keep a shared concrete prefix
    k = 0
    pre = [v.segs[0] if v.segs and isinstance(v.segs[0], list) else [] for v in vs]
    k = min(len(p) for p in pre)
    c = ctx()
    while k > 0 and not c.must(n >= k):
        k -= 1
    segs = []
    if k:
        segs.append([tuple(p[j] for p in pre) for j in range(k)])
    m = z3.simplify(n - k)
    segs.append(Seg(m, lambda i: tuple(v.at(z3.simplify(i + k)) for v in vs)))
    return segs


def v_enumerate(it, start=0):
    if not symseq(it):
        return _b.enumerate(_plain(it), start)
    v = as_vlist(it)
    segs = []
    off = zint(start)
    for s in v.segs:
        if isinstance(s, list):
            segs.append([(wrap(z3.simplify(off + j)), x) for j, x in enumerate(s)])
            off = z3.simplify(off + len(s))
        else:
            segs.append(Seg(s.n, (lambda i, s=s, o=off: (wrap(z3.simplify(o + i)), s.f(i)))))
            off = z3.simplify(off + s.n)
    return VList(segs=segs)


def _plain(x):
    if isinstance(x, VList):
        return x.items()
    if isinstance(x, STensor):
        return list(x)
    if hasattr(x, '__vseq__'):
        return x.__vseq__().items()
    return x


def v_list(*a):
    if not a:
        return VList()
    x = a[0]
    if isinstance(x, (VList,)):
        return VList(segs=[list(s) if isinstance(s, list) else s for s in x.segs])
    if isinstance(x, (dict, str)):
        return VList(list(x))
    r = as_vlist(x)
    return VList(segs=list(r.segs))


def v_tuple(*a):
    if not a:
        return ()
    r = as_vlist(a[0])
    if r.concrete():
        return tuple(r.items())
    return VTuple(segs=list(r.segs))


def v_int(x=0, *r):
    if isinstance(x, SBool):
        return wrap(zint(x))
    if isinstance(x, SInt):
        return x
    if isinstance(x, STensor) and x.ndim == 0:
        x = wrap(x.at([]))
    if isinstance(x, SReal):
        t = x.t
        return wrap(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)))
    if isinstance(x, Opq):
        return core.SInt(z3.ToInt(x.__as_real__()))
    return int(x, *r)


def v_float(x=0.0):
    if isinstance(x, (SInt, SBool)):
        return wrap(zreal(x))
    if isinstance(x, SReal):
        return x
    if isinstance(x, STensor):
        return wrap(zreal(wrap(x.at([]))))
    return float(x)


def v_bool(x=False):
    if isinstance(x, SBool):
        return x
    if isinstance(x, (SInt, SReal)):
        return wrap(x.t != 0)
    return bool(x)


def v_abs(x):
    return abs(x)


def _minmax(op, a, k):
    if k:
        raise Unsupported('min/max with key')
    if len(a) == 1:
        x = a[0]
        if isinstance(x, STensor):
            if x.ndim != 1:
                raise Unsupported('min/max of array')
            return T.reduce_op(op, x)
        if symseq(x):
            v = as_vlist(x)
            return T.reduce_op(op, T.stack(v)) if len(v.segs) == 1 else _mm_segs(op, v)
        a = list(_plain(x))
    if not any(isinstance(x, SBase) for x in a):
        return (min if op == 'min' else max)(a)
    r = a[0]
    for x in a[1:]:
        r = ite(x < r if op == 'min' else x > r, x, r)
    return r


def _mm_segs(op, v):
    raise Unsupported('min/max over a mixed list')


def v_min(*a, **k):
    return _minmax('min', a, k)


def v_max(*a, **k):
    return _minmax('max', a, k)


def v_sum(it, start=0):
    if isinstance(it, STensor) and it.ndim and len(it.axes[0]) == 1:
        if it.kind == 'b' and it.ndim == 1:
            r = np_count_nonzero(it)
            if isinstance(r, SReal):
                # a count of true entries: an integer between 0 and their number
                n = z3.Int('count!%s' % hashlib.sha1(r.t.sexpr().encode()).hexdigest()[:12])
                ctx().assume(z3.And(z3.ToReal(n) == r.t, n >= 0, n <= T.zi(T.dprod(it.axes[0]))))
                r = wrap(n)
            return r + start
        return T.reduce_sum(it, 0) + start
    if symseq(it):
        v = as_vlist(it)
        tot = start
        for s in v.segs:
            if isinstance(s, list):
                for x in s:
                    tot = tot + x
            else:
                probe = s.f(z3.Int('probe!'))
                if isinstance(probe, (SBase, int, float)):
                    tot = tot + _isum(s)
                elif isinstance(probe, STensor):
                    tot = tot + T.reduce_sum(T.stack(VList(segs=[s])), 0)
                elif isinstance(probe, VList) or isinstance(probe, (list, tuple)):
                    raise Unsupported('sum of lists')
                else:
                    tot = tot + app('sum', VList(segs=[s]))
        return tot
    tot = start
    for x in _plain(it):
        tot = tot + x
    return tot


def _isum(s):
    probe = s.f(z3.Int('probe!'))
    r = sums.mk_sum(s.n, lambda j: zreal(s.f(j)))
    if isinstance(probe, (SInt, int)) and not isinstance(probe, float):
        # an integer sum
        t = z3.simplify(r)
        return SIntR(t) if not z3.is_rational_value(t) else int(t.as_fraction())
    return wrap(r)


def SIntR(t):
    x = z3.ToInt(t)
    c = ctx()
    c.assume(z3.ToReal(x) == t)
    return SInt(x)


def _allany(op, it):
    if isinstance(it, STensor) and it.ndim == 1 or symseq(it):
        v = as_vlist(it)
        acc = []
        for s in v.segs:
            if isinstance(s, list):
                acc += [zbool(v_bool(x)) for x in s]
            else:
                i = z3.Int(ctx().fresh('q'))
                b = merge_eval(lambda: v_bool(s.f(i)), [i >= 0, i < s.n])
                b = zbool(b)
                rng = z3.And(i >= 0, i < s.n)
                acc.append(z3.ForAll([i], z3.Implies(rng, b)) if op == 'all' else z3.Exists([i], z3.And(rng, b)))
        return wrap(z3.And(*acc) if op == 'all' else z3.Or(*acc))
    xs = list(_plain(it))
    if any(isinstance(x, SBase) for x in xs):
        fs = [zbool(v_bool(x)) for x in xs]
        return wrap(z3.And(*fs) if op == 'all' else z3.Or(*fs))
    return all(xs) if op == 'all' else any(xs)


def v_all(it):
    return _allany('all', it)


def v_any(it):
    return _allany('any', it)


def v_sorted(it, **k):
    if symseq(it):
        raise Unsupported('sorted of a symbolic list')
    xs = list(_plain(it))
    if any(isinstance(x, SBase) for x in xs):
        raise Unsupported('sorted of symbolic values')
    return VList(sorted(xs, **k))


def v_reversed(it):
    if symseq(it):
        v = as_vlist(it)
        segs = []
        for s in reversed(v.segs):
            if isinstance(s, list):
                segs.append(s[::-1])
            else:
                segs.append(Seg(s.n, (lambda i, s=s: s.f(z3.simplify(s.n - 1 - i)))))
        return VList(segs=segs)
    return iter(list(_plain(it))[::-1])


def v_map(f, *its):
    if len(its) == 1 and symseq(its[0]):
        return v_comp(its[0], f)
    return VList([f(*xs) for xs in v_zip(*its)])


def v_filter(f, it):
    return v_comp(it, lambda x: x, f if f is not None else (lambda x: x))


def v_round(x, nd=None):
    if isinstance(x, SReal):
        if nd is not None:
            raise Unsupported('round to digits')
        return wrap(z3.simplify(z3.ToInt(zreal(sround(x)))))
    if isinstance(x, SInt):
        return x
    return round(x) if nd is None else round(x, nd)


def v_comp(it, f, *conds):
    """list comprehension / generator expression"""
    if not symseq(it):
        out = []
        for x in _plain(it):
            if all(bool(c(x)) for c in conds):
                out.append(f(x))
        return VList(out)
    v = as_vlist(it)
    segs = []
    for s in v.segs:
        if isinstance(s, list):
            segs.append([f(x) for x in s if all(bool(c(x)) for c in conds)])
            continue
        c = ctx()
        if isinstance(s, Cat) and not conds:
            segs.append(Cat(s.k, lambda i, s=s: v_comp(s.block(i), f)))
            continue
        ph = z3.Int(c.fresh('cx'))
        rng = [ph >= 0, ph < s.n]
        if c.sat(s.n > 0) == z3.unsat:
            continue
        if conds:
            # the filter must be decided for all elements alike
            g = merge_eval(lambda: z3.And(*[zbool(v_bool(k(s.f(ph)))) for k in conds])
                           if conds else None, rng)
            c.solver.push()
            for r in rng:
                c.solver.add(r)
            alw, nev = c.must(g), c.must(z3.Not(g))
            c.solver.pop()
            if nev:
                continue
            if not alw:
                raise Unsupported('filtering comprehension over a symbolic list')
        val = merge_eval(lambda: f(s.f(ph)), rng)
        segs.append(Seg(s.n, (lambda i, val=val, ph=ph: subst(val, [(ph, i if z3.is_expr(i) else z3.IntVal(i))]))))
    return VList(segs=[s for s in segs if not (isinstance(s, list) and not s)])


def v_callable(x):
    if hasattr(x, '__vcallable__') and not isinstance(x, Opq):
        return x.__vcallable__()
    return callable(x)


def v_print(*a, **k):
    return None


class SIter(object):
    """iterator over a list of any length: how many items have been asked for"""

    def __init__(self, seq):
        self.seq, self.asked = as_vlist(seq), 0

    def take(self, n):
        L, a = self.seq.zlen(), zint(self.asked)
        n = zint(n)
        n = z3.If(n < 0, z3.IntVal(0), n)
        left = z3.If(L > a, L - a, z3.IntVal(0))
        seq = self.seq
        self.asked = wrap(z3.simplify(a + n))
        return VList(segs=[Seg(z3.simplify(z3.If(n < left, n, left)), lambda i: seq.at(z3.simplify(a + i)))])

    def __vseq__(self):
        return self.take(self.seq.zlen())


def v_iter(x, *a):
    if not a and isinstance(x, VList) and x.concrete():
        return iter(x.items())
    if not a and isinstance(x, SIter):
        return x
    if not a and symseq(x):
        return SIter(x)
    if a:
        raise Unsupported('iter of a callable')
    return iter(x)


def v_islice(it, *a):
    if isinstance(it, VList):
        it = SIter(it)
    if isinstance(it, SIter):
        if len(a) != 1:
            raise Unsupported('islice with a start')
        return it.take(a[0])
    import itertools
    return itertools.islice(it, *a)


def v_divmod(a, b):
    return (a // b, a % b)


def v_pow(a, b):
    return a ** b


BUILTINS = dict(vars(_b))
BUILTINS.update({
    'int': ShimType(int, v_int), 'float': ShimType(float, v_float), 'bool': ShimType(bool, v_bool),
    'list': ShimType(list, v_list), 'tuple': ShimType(tuple, v_tuple),
    'len': v_len, 'range': v_range, 'zip': v_zip, 'enumerate': v_enumerate, 'isinstance': v_isinstance,
    'type': v_type, 'min': v_min, 'max': v_max, 'sum': v_sum, 'all': v_all, 'any': v_any, 'sorted': v_sorted,
    'reversed': v_reversed, 'map': v_map, 'filter': v_filter, 'round': v_round, 'print': v_print,
    'iter': v_iter, 'divmod': v_divmod, 'callable': v_callable,
    '__v_list__': lambda *a: VList(list(a)), '__v_comp__': v_comp, '__v_is__': v_is, '__v_isnot__': v_is_not,
    '__v_not__': v_not,
})


# ------------------------------------------------------------------ numpy
def _t(x):
    return T.as_tensor(x)


def _unary(name, zf, realf, kind='r'):
    def f(x, *a, **k):
        if isinstance(x, Opq):
            return app('np.' + name, x)
        if isinstance(x, SBase):
            return wrap(zf(zreal(x)))
        if isinstance(x, (STensor, VList)) or _sym(x):
            x = _t(x)
            if k.get('out') is not None or a:
                raise Unsupported('out=')
            r = T.umap(lambda e: zf(zreal(wrap(e) if e.sort() == BOOL else e)), x, kind)
            return r if r.ndim else wrap(r.at([]))
        return realf(x, *a, **k)
    return f


def _abs(e):
    return z3.If(e >= 0, e, -e)


def _fl(e):
    return z3.ToReal(z3.ToInt(e))


def np_array(x, dtype=None, copy=True, ndmin=0, order=None):
    if isinstance(x, Opq):
        return Opq(x.t)
    if hasattr(x, '__np__'):
        return x.__np__()
    if isinstance(x, (list, tuple)) and not _sym(x):
        try:
            r = _np.array([_plain(y) if isinstance(y, VList) else y for y in x], dtype=unty(dtype))
        except Exception:
            raise
        if r.dtype.kind in 'fiub':
            return T.from_np(r).copy() if r.size <= 4096 else r
        return r
    if isinstance(x, VList):
        x = T.stack(x) if not _hasopq(x) else x
        if isinstance(x, VList):
            return app('np.array', x)
    elif isinstance(x, (list, tuple)):
        if _hasopq(x):
            return app('np.array', x)
        x = T.stack(VList(list(x)))
    x = _t(x)
    r = x.copy() if dtype is None else x.astype(unty(dtype))
    while r.ndim < ndmin:
        r = T.index(r, (None,), view=True)
    return r


def np_asarray(x, dtype=None, **k):
    if isinstance(x, (STensor, Opq)) and dtype is None:
        return x
    if isinstance(x, STensor):
        k0 = _np.dtype(unty(dtype)).kind
        if {'f': 'r', 'i': 'i', 'u': 'i', 'b': 'b'}.get(k0) == x.kind:
            return x
        return x.astype(unty(dtype))
    return np_array(x, dtype)


def _dk(dtype, dflt='r'):
    if dtype is None:
        return dflt
    return {'f': 'r', 'i': 'i', 'u': 'i', 'b': 'b'}[_np.dtype(unty(dtype)).kind]


def np_zeros(shape, dtype=None, **k):
    if isinstance(shape, Opq) or hasattr(shape, '__enc__') and not isinstance(shape, SBase):
        return app('np.zeros', shape)
    return T.const(shape, 0, _dk(dtype))


def np_ones(shape, dtype=None, **k):
    if isinstance(shape, Opq) or hasattr(shape, '__enc__') and not isinstance(shape, SBase):
        return app('np.ones', shape)
    return T.const(shape, 1, _dk(dtype))


def np_empty(shape, dtype=None, **k):
    """arbitrary content"""
    kd = _dk(dtype)
    return T.fresh(ctx().fresh('empty'), T.shape_axes(shape), kd)


def np_full(shape, v, dtype=None, **k):
    r = T.const(shape, 0, 'r')
    r[...] = v
    return r


def _like(f):
    def g(x, dtype=None, **k):
        if isinstance(x, Opq):
            return app('np.like', x)
        x = _t(x)
        return f(x, dtype)
    return g


np_zeros_like = _like(lambda x, d: STensor(x.axes, (lambda i: z3.RealVal(0)), 'r') if _dk(d, x.kind) == 'r'
                      else T.umap(lambda e: z3.IntVal(0), x, 'i'))
np_ones_like = _like(lambda x, d: STensor(x.axes, (lambda i: z3.RealVal(1)), 'r') if _dk(d, x.kind) == 'r'
                     else T.umap(lambda e: z3.IntVal(1), x, 'i'))
np_empty_like = _like(lambda x, d: T.fresh(ctx().fresh('empty'), x.axes, _dk(d, x.kind)))


def np_arange(*a, **k):
    if not any(_sym(x) for x in a):
        return T.from_np(_np.arange(*a, **k))
    if len(a) == 1:
        a = (0, a[0])
    if len(a) == 2:
        a = a + (1,)
    s, e, st = a
    if any(isinstance(x, Opq) for x in a):
        return app('np.arange', *a)
    if all(isinstance(x, (SInt, int)) for x in a) and not isinstance(st, SInt) and st == 1:
        n = tidy(z3.If(zint(e) > zint(s), zint(e) - zint(s), z3.IntVal(0)))
        zs = zint(s)
        return STensor([(T.dim(n),)], lambda idx: z3.simplify(zs + idx[0][0]), 'i')
    # float arange: ceil((e-s)/st) elements
    q = core.rdiv(zreal(e) - zreal(s), zreal(st))
    c = ctx()
    n = z3.Int(c.fresh('arange'))
    # n = max(0, ceil(q))
    c.assume(z3.And(n >= 0, z3.ToReal(n) >= q, z3.Or(n == 0, z3.ToReal(n) < q + 1)))
    zs, zt = zreal(s), zreal(st)
    return STensor([(n,)], lambda idx: zs + z3.ToReal(idx[0][0]) * zt, 'r')


def np_linspace(a, b, num=50, **k):
    if not any(_sym(x) for x in (a, b, num)):
        return T.from_np(_np.linspace(a, b, num, **k))
    if k:
        raise Unsupported('linspace options')
    n = zint(num)
    za, zb = zreal(a), zreal(b)
    d = z3.ToReal(n - 1)
    if ctx().must(n == 1):
        return STensor([(1,)], lambda idx: za, 'r')
    return STensor([(T.dim(n),)], lambda idx: za + z3.ToReal(idx[0][0]) * core.rdiv(zb - za, d), 'r')


def np_concatenate(ts, axis=0):
    v = as_vlist(ts)
    if any(isinstance(x, Opq) for s in v.segs for x in (s if isinstance(s, list) else [])):
        return app('np.concatenate%s' % axis, *v.items())
    if not v.concrete():
        r = T.stack(v)       # (n, a, ...) -> (n*a, ...)
        if axis == 0:
            return T.reshape(r, (T.Composite(list(r.axes[0]) + list(r.axes[1])),) + tuple(
                T.Composite(list(a)) for a in r.axes[2:]))
        r = T.moveaxis(r, 0, axis)
        # merge axes (axis, axis+1)
        shp = []
        for j, a in enumerate(r.axes):
            if j == axis:
                shp.append(T.Composite(list(a) + list(r.axes[j + 1])))
            elif j != axis + 1:
                shp.append(T.Composite(list(a)))
        return T.reshape(r, tuple(shp))
    return T.concatenate(v, axis)


def np_vstack(ts):
    v = as_vlist(ts)
    if any(isinstance(x, Opq) for s in v.segs if isinstance(s, list) for x in s):
        return app('np.vstack', *v.items())
    return np_concatenate(v_comp(v, lambda x: _atleast2(x)), 0)


def _atleast2(x):
    x = _t(x)
    if x.ndim < 2:
        while x.ndim < 1:
            x = T.index(x, (None,), view=True)
        x = T.index(x, (None,), view=True)
    return x


def np_hstack(ts):
    v = as_vlist(ts)
    if any(isinstance(x, Opq) for s in v.segs if isinstance(s, list) for x in s):
        return app('np.hstack', *v.items())
    if v.concrete():
        its = [_t(x) for x in v.items()]
        its = [T.index(x, (None,), view=True) if x.ndim == 0 else x for x in its]
        return T.concatenate(its, 0 if its[0].ndim == 1 else 1)
    pr = _t(v.at(z3.Int('probe!')))
    return np_concatenate(v, 0 if pr.ndim == 1 else 1)


def np_stack(ts, axis=0):
    r = T.stack(as_vlist(ts))
    return r if axis == 0 else T.moveaxis(r, 0, axis)


def _red(name, tf):
    def f(x, axis=None, **k):
        k.pop('dtype', None)
        if isinstance(x, Opq):
            return app('np.' + name, x, axis) if axis is not None else app_real('np.' + name, x)
        if isinstance(x, SBase):
            return x
        if hasattr(x, '__vred__'):
            return x.__vred__(name, axis, **k)
        if not _sym(x) and not isinstance(x, VList):
            return getattr(_np, name)(x, axis=axis, **k)
        if _hasopq(x):
            return app('np.' + name, x, axis)
        return tf(_t(x), axis, **k)
    return f


def np_sqrt(x, *a, **k):
    return _unary('sqrt', rsqrt, _np.sqrt)(x, *a, **k)


def np_dot(a, b):
    if isinstance(a, Opq) or isinstance(b, Opq):
        return app('np.dot', a, b)
    if hasattr(a, '__mat__') or hasattr(b, '__mat__'):
        return a.__mat__('dot', b) if hasattr(a, '__mat__') else NotImplemented
    from . import ring
    if isinstance(a, ring.Mat) or isinstance(b, ring.Mat):
        return T.dot(a, b)
    return T.dot(_t(a), _t(b))


def np_einsum(spec, *ts, **k):
    if any(isinstance(t, Opq) for t in ts):
        return app('np.einsum:' + spec, *ts)
    r = T.einsum(spec, *ts)
    return r


def np_diag(x, k=0):
    if isinstance(x, Opq):
        return app('np.diag', x)
    x = _t(x)
    if x.ndim == 1:
        e = x.frozen()
        ax = x.axes[0]
        r = STensor([ax, ax], lambda idx: z3.If(z3.And(*[i == j for i, j in zip(idx[0], idx[1])]),
                                                zreal(e([idx[0]])), z3.RealVal(0)), 'r')
        if T._bridge_on():
            from . import bridge
            bridge.note(r, 'diag', x)
        return r
    e = x.frozen()
    return STensor([x.axes[0]], lambda idx: e([idx[0], idx[0]]), x.kind)


def np_fill_diagonal(a, v):
    if isinstance(a, Opq):
        a._set(app('np.fill_diagonal', a, v).t)
        return
    val = _t(v)
    e = val.frozen()
    a._write(lambda idx: (z3.And(*[i == j for i, j in zip(idx[0], idx[1])]), e([idx[0]]) if val.ndim else e([])))


def np_eye(n, m=None, dtype=None, **k):
    if k and any(v for v in k.values() if not isinstance(v, str)):
        raise Unsupported('np.eye with an offset')
    r = T.eye(n)
    if m is not None and not T.deq(T.dim(n), T.dim(m)):
        raise Unsupported('rectangular np.eye')
    return r if dtype is None else r.astype(dtype)


def np_tile(x, reps):
    if isinstance(x, Opq):
        return app('np.tile', x, reps)
    r = T.tile(_t(x), _plain(reps) if isinstance(reps, VList) else reps)
    return r


def np_repeat(x, reps, axis=None):
    x = _t(x)
    if axis is None and x.ndim != 1:
        raise Unsupported('repeat')
    e = x.frozen()
    j = 0 if axis is None else int(axis) % x.ndim
    axes = list(x.axes)
    axes[j] = tuple(axes[j]) + (T.dim(reps),)

    def elem(idx):
        idx = list(idx)
        idx[j] = tuple(idx[j][:-1])
        return e(idx)
    return STensor(axes, elem, x.kind)


def np_reshape(x, shape, order='C'):
    return x.reshape(shape, order=order)


def np_rollaxis(x, axis, start=0):
    if isinstance(x, Opq):
        return x.view('rollaxis', axis, start)
    return T.rollaxis(_t(x), axis, start)


def np_swapaxes(x, a, b):
    return _t(x).swapaxes(a, b)


def np_transpose(x, axes=None):
    return T.transpose(_t(x), axes)


def np_asum(x):
    return x


def np_nonzero(x):
    if isinstance(x, Opq):
        return (app('np.nonzero0', x), app('np.nonzero1', x), app('np.nonzero2', x))
    x = _t(x)
    info = T.nonzero_info(x)
    return tuple(NZ(info, k) for k in range(x.ndim))


def np_flatnonzero(x):
    return np_nonzero(_t(x).ravel())[0]


def np_maximum(a, b):
    if isinstance(a, (SBase, int, float)) and isinstance(b, (SBase, int, float)):
        return ite(a > b, a, b)
    return T.bmap(lambda x, y: z3.If(x > y, x, y), a, b)


def np_minimum(a, b):
    if isinstance(a, (SBase, int, float)) and isinstance(b, (SBase, int, float)):
        return ite(a < b, a, b)
    return T.bmap(lambda x, y: z3.If(x < y, x, y), a, b)


def np_where(c, a=None, b=None):
    if a is None:
        return np_nonzero(c)
    c, a, b = _t(c), _t(a), _t(b)
    axes = T.bshape([c, a, b])
    fc, fa, fb = T.pick(c, axes), T.pick(a, axes), T.pick(b, axes)
    kind = 'r' if 'r' in (a.kind, b.kind) else a.kind

    def elem(idx):
        x, y = fa(idx), fb(idx)
        if kind == 'r':
            x, y = zreal(x), zreal(y)
        return z3.If(zbool(wrap(fc(idx))), x, y)
    r = STensor(axes, elem, kind)
    return r if axes else wrap(r.at([]))


def np_round(x, decimals=0, **k):
    if decimals:
        raise Unsupported('round to decimals')
    if isinstance(x, Opq):
        return app('np.round', x)
    if isinstance(x, SInt):
        return x
    if isinstance(x, SReal):
        return sround(x)
    if not _sym(x):
        return _np.round(x)
    return T.umap(lambda e: zreal(sround(SReal(zreal(e)))), _t(x), 'r')


def np_norm(x, ord=None, axis=None, keepdims=False):
    if isinstance(x, Opq):
        return app_real('np.norm', x) if axis is None and ord is None else app('np.norm', x, ord, axis)
    x = _t(x)
    if ord not in (None, 2, 'fro') or (ord == 2 and axis is None and x.ndim != 1):
        raise Unsupported('norm order')
    s = T.reduce_sum(x * x, axis, keepdims)
    if isinstance(s, STensor):
        return T.umap(lambda e: rsqrt(e), s, 'r')
    return wrap(rsqrt(zreal(s)))


def np_cumsum(x, axis=None, **k):
    x = _t(x)
    if x.ndim != 1:
        raise Unsupported('cumsum')
    e = x.frozen()
    return STensor(x.axes, lambda idx: sums.mk_sum(z3.simplify(idx[0][0] + 1), lambda j: zreal(e([(j,)]))), 'r')


def np_prod(x, axis=None, **k):
    if isinstance(x, Opq):
        return app('np.prod', x)
    if isinstance(x, (tuple, list)) or isinstance(x, VList) and x.concrete():
        r = 1
        for y in _plain(x):
            r = r * y
        return r
    x = _t(x)
    d = T.dprod(x.axes[0])
    if x.ndim != 1 or z3.is_expr(d):
        raise Unsupported('prod')
    r = 1
    for i in range(d):
        r = r * x[i]
    return r


def np_count_nonzero(x, *a, **k):
    if isinstance(x, Opq):
        return app('np.count_nonzero', x)
    x = _t(x)
    return T.reduce_sum(T.umap(lambda e: z3.If(zbool(wrap(e)), z3.RealVal(1), z3.RealVal(0)), x, 'r'), *a, **k)


def np_isnan(x):
    return False if isinstance(x, SBase) else T.umap(lambda e: z3.BoolVal(False), _t(x), 'b')


def np_isfinite(x):
    if isinstance(x, Opq):
        return app('np.isfinite', x)
    return True if isinstance(x, SBase) else T.umap(lambda e: z3.BoolVal(True), _t(x), 'b')


def np_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if not all(isinstance(v, (SReal, SInt, int, float)) or (isinstance(v, STensor) and v.ndim == 0) for v in (a, b)):
        raise Unsupported('allclose')
    x, y = (zreal(wrap(v.at([]))) if isinstance(v, STensor) else zreal(v) for v in (a, b))
    d = x - y
    tol = zreal(atol) + zreal(rtol) * z3.If(y >= 0, y, -y)
    return wrap(z3.And(d <= tol, -d <= tol))


np_isclose = np_allclose


def np_array_equal(a, b, equal_nan=False):
    if any(isinstance(x, Opq) for x in (a, b)):
        return app('np.array_equal', a, b)
    if a is None or b is None:
        return a is b
    a, b = _t(a), _t(b)
    if a.ndim != b.ndim:
        return False
    c = T.ctx()
    for x, y in zip(a.axes, b.axes):
        x, y = T.dprod(x), T.dprod(y)
        if not T.deq(x, y) and not c.branch(T.zi(x) == T.zi(y)):
            return False
    g = T.tensor_eq(a, b)
    from .prove import provable
    if provable(g):
        return True
    vs = [v for v in _vars_of(g) if v.decl().name() in T.LAST_EQ]
    return wrap(z3.ForAll(vs, g) if vs else g)


def _vars_of(e):
    seen, out, st = set(), [], [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.sort() == z3.IntSort():
            out.append(x)
        elif z3.is_app(x):
            st.extend(x.children())
    return out


def np_tensordot(a, b, axes=2):
    a, b = _t(a), _t(b)
    if isinstance(axes, (int, _np.integer)):
        ax, bx = list(range(a.ndim - axes, a.ndim)), list(range(axes))
    else:
        ax, bx = [[int(i) for i in v] if isinstance(v, (list, tuple, VList, VTuple)) else [int(v)] for v in axes]
    ax, bx = [i % a.ndim for i in ax], [i % b.ndim for i in bx]
    if len(ax) != len(bx):
        raise ValueError('shape-mismatch for sum')
    la = [chr(ord('a') + i) for i in range(a.ndim)]
    lb = [chr(ord('A') + i) for i in range(b.ndim)]
    for i, j in zip(ax, bx):
        lb[j] = la[i]
    out = [l for i, l in enumerate(la) if i not in ax] + [l for i, l in enumerate(lb) if i not in bx]
    return T.einsum('%s,%s->%s' % (''.join(la), ''.join(lb), ''.join(out)), a, b)


def np_median(x, axis=None):
    x = _t(x)
    if x.ndim == 1 or axis is None:
        return T.reduce_op('median', x, axis)
    raise Unsupported('median')


def np_solve(a, b):
    if not isinstance(a, Opq) and not isinstance(b, Opq) and T._bridge_on():
        from . import ring, bridge
        return ring.solve(bridge.mat(a), bridge.mat(b))
    return app('np.linalg.solve', a, b)


def np_inv(a):
    from . import ring
    if isinstance(a, ring.Mat):
        return ring.inv(a)
    if isinstance(a, STensor):
        d = a.dims()
        if d == [1, 1]:
            return T.t_div(T.const((1, 1), 1), a)
        if d == [2, 2]:
            return inv2(a)
        if d in ([3, 3], [4, 4]) and not T._bridge_on():
            return adjugate_inv(a, d[0])
        if T._bridge_on():
            from . import ring, bridge
            return ring.inv(bridge.mat(a))
        raise Unsupported('matrix inverse of symbolic size')
    return app('np.linalg.inv', a)


def adjugate_inv(a, n):
    def det(rows, cols):
        if len(rows) == 1:
            return a[rows[0], cols[0]]
        r = 0
        for k, c in enumerate(cols):
            m = a[rows[0], c] * det(rows[1:], cols[:k] + cols[k + 1:])
            r = r + m if k % 2 == 0 else r - m
        return r
    ix = list(range(n))
    d = det(ix, ix)
    out = []
    for i in ix:
        row = []
        for j in ix:
            c = det([r for r in ix if r != j], [r for r in ix if r != i])
            row.append((c if (i + j) % 2 == 0 else -c) / d)
        out.append(VList(row))
    return T.stack(VList(out))


def inv2(a):
    p, q, r, s = a[0, 0], a[0, 1], a[1, 0], a[1, 1]
    det = p * s - q * r
    return T.stack(VList([VList([s / det, -q / det]), VList([-r / det, p / det])]))


def np_delete(x, obj, axis=None):
    if isinstance(x, Opq):
        return app('np.delete', x, obj, axis)
    x = _t(x)
    if axis is None or isinstance(obj, SBase) or not isinstance(obj, (int, _np.integer, list, tuple, VList)):
        raise Unsupported('np.delete')
    n = T.dprod(x.axes[axis])
    if z3.is_expr(n):
        if isinstance(obj, (int, _np.integer)) and obj >= 0:
            if not ctx().branch(T.zi(n) > obj):
                raise IndexError('index out of bounds')
            pre = (slice(None),) * (int(axis) % x.ndim)
            return T.concatenate([x[pre + (slice(0, obj),)], x[pre + (slice(obj + 1, None),)]], axis)
        raise Unsupported('np.delete on a symbolic axis')
    drop = [int(o) for o in (_plain(obj) if not isinstance(obj, (int, _np.integer)) else [obj])]
    for o in drop:
        if not -n <= o < n:
            raise IndexError('index %d is out of bounds for axis' % o)
    drop = {o % n for o in drop}
    keep = [i for i in range(n) if i not in drop]
    return x[(slice(None),) * (int(axis) % x.ndim) + (_np.array(keep),)]


def np_argmax(x, axis=None, op='argmax'):
    """position of the largest element: an index of each axis that is reduced, a
    function of the elements compared"""
    if not _sym(x) and not isinstance(x, VList):
        return getattr(_np, op)(x, axis=axis)
    x = _t(x)
    if axis is None:
        x = T.reshape(x, (-1,))
        axis = 0
    axis = int(axis) % x.ndim
    facs = x.axes[axis]
    e = x.frozen()
    keep = [j for j in range(x.ndim) if j != axis]
    axes = [x.axes[j] for j in keep]

    def coord(idx, q):
        fix = dict(zip(keep, idx))

        def body(bs):
            return zreal(wrap(e([tuple(bs) if j == axis else fix[j] for j in range(x.ndim)])))
        if not z3.is_expr(facs[q]) and facs[q] == 1:
            return z3.IntVal(0)
        r = z3.ToInt(sums.mk_red_multi('%s%d' % (op, q), [T.zi(f) for f in facs], body))
        ctx().assume(z3.And(r >= 0, r < T.zi(facs[q])))
        return r
    parts = [STensor(axes, (lambda idx, q=q: coord(idx, q)), 'i') for q in range(len(facs))]

    def flat(idx):
        r = z3.IntVal(0)
        for q, f in enumerate(facs):
            r = r * T.zi(f) + coord(idx, q)
        return r
    if not axes:
        raise Unsupported('argmax of everything')
    r = STensor(axes, flat, 'i')
    r.meta['unravel'] = (r.version(), facs, parts)
    return r


def np_unravel_index(i, shape):
    if isinstance(i, STensor) and i.meta.get('unravel') and i.meta['unravel'][0] == i.version():
        _, facs, parts = i.meta['unravel']
        dims = list(as_vlist(shape).items())
        dz = [x.t if isinstance(x, SInt) else x for x in dims]
        k = len(dims) - 1
        out = [None] * len(dims)
        for f, p in reversed(list(zip(facs, parts))):
            if not z3.is_expr(f) and f == 1 and not (k >= 0 and T.deq(dz[k], 1)):
                continue
            if k < 0 or not T.deq(dz[k], f):
                raise Unsupported('unravel_index')
            out[k] = p
            k -= 1
        zero = STensor(i.axes, lambda idx: z3.IntVal(0), 'i')
        return VTuple([p.copy() if p is not None else zero.copy() for p in out])
    raise Unsupported('unravel_index')


def np_meshgrid(*xs, **k):
    xs = [_t(x) for x in xs]
    ij = k.get('indexing', 'xy') == 'ij'
    n = len(xs)
    axes = [x.axes[0] for x in xs]
    order = list(range(n))
    if not ij and n >= 2:
        order[0], order[1] = 1, 0
    oaxes = [axes[order[j]] for j in range(n)]
    out = VList()
    for k_, x in enumerate(xs):
        e = x.frozen()
        pos = order.index(k_)
        out.append(STensor(oaxes, (lambda idx, e=e, pos=pos: e([idx[pos]])), x.kind))
    return out


class _Linalg(object):
    norm = staticmethod(np_norm)
    solve = staticmethod(np_solve)
    inv = staticmethod(np_inv)
    LinAlgError = _np.linalg.LinAlgError

    @staticmethod
    def pinv(m, *a, **k):
        from . import ring, bridge
        if isinstance(m, (ring.Mat, STensor)) and T._bridge_on():
            return ring.pinv(bridge.mat(m))
        if isinstance(m, Opq):
            return app('np.linalg.pinv', m)
        raise Unsupported('np.linalg.pinv')

    def __getattr__(self, k):
        def f(*a, **kw):
            if any(isinstance(x, Opq) for x in a):
                r = app('np.linalg.' + k, *a)
                if k == 'svd':
                    return tuple(app('svd%d' % i, r) for i in range(3))
                return r
            raise Unsupported('np.linalg.' + k)
        return f


class _Random(object):
    """numpy.random: arbitrary values, those of rand in [0, 1)"""

    def _draw(self, kind, shape):
        c = ctx()
        t = T.fresh(c.fresh(kind), T.shape_axes(VTuple(list(shape))))
        t.name = None
        if kind == 'rand':
            e = t.frozen()

            def elem(idx):
                v = e(idx)
                c.assume(z3.And(v >= 0, v < 1))
                return v
            t = STensor(t.axes, elem, 'r')
        c.extra.setdefault('draws', []).append((kind, t))
        return t

    def rand(self, *shape):
        return self._draw('rand', shape) if shape else self._draw('rand', (1,))[0]

    def randn(self, *shape):
        return self._draw('randn', shape) if shape else self._draw('randn', (1,))[0]

    standard_normal = lambda self, size=None: self.randn(*(size if isinstance(size, (tuple, VTuple)) else (size,))) \
        if size is not None else self.randn()
    random = random_sample = sample = lambda self, size=None: self.rand(
        *(size if isinstance(size, (tuple, VTuple)) else (size,))) if size is not None else self.rand()

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self.random(size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self.standard_normal(size)

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise Unsupported('np.random.' + k)


class _Mgrid(object):
    def __getitem__(self, k):
        if not isinstance(k, tuple):
            k = (k,)
        vs = [np_arange(s.start if s.start is not None else 0, s.stop, s.step if s.step is not None else 1)
              for s in k]
        g = np_meshgrid(*vs, indexing='ij')
        return T.stack(g)


class NpShim(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, 'numpy')
        self.linalg = _Linalg()
        self.mgrid = _Mgrid()
        self.random = _Random()
        self.ndarray = _np.ndarray
        self.array = np_array
        self.asarray = np_asarray
        self.asanyarray = np_asarray
        self.ascontiguousarray = np_asarray
        self.require = lambda x, dtype=None, **k: np_asarray(x, dtype)
        self.zeros, self.ones, self.empty, self.full = np_zeros, np_ones, np_empty, np_full
        self.zeros_like, self.ones_like, self.empty_like = np_zeros_like, np_ones_like, np_empty_like
        self.arange, self.linspace = np_arange, np_linspace
        self.concatenate, self.vstack, self.hstack, self.stack = np_concatenate, np_vstack, np_hstack, np_stack
        self.sum = _red('sum', T.reduce_sum)
        self.mean = _red('mean', T.reduce_mean)
        self.std = _red('std', T.reduce_std)
        self.max = self.amax = _red('max', lambda t, a, keepdims=False: T.reduce_op('max', t, a, keepdims))
        self.min = self.amin = _red('min', lambda t, a, keepdims=False: T.reduce_op('min', t, a, keepdims))
        _any = _red('any', lambda t, a, keepdims=False: T.reduce_op('any', t, a, keepdims))
        self.any = lambda x, axis=None, **k: v_any(x) if symseq(x) and axis is None else _any(x, axis, **k)
        _all = _red('all', lambda t, a, keepdims=False: T.reduce_op('all', t, a, keepdims))
        self.all = lambda x, axis=None, **k: v_all(x) if symseq(x) and axis is None else _all(x, axis, **k)
        self.alltrue = self.all
        self.median = _red('median', lambda t, a: np_median(t, a))
        self.sqrt = np_sqrt
        self.abs = self.absolute = _unary('abs', _abs, _np.abs)
        self.exp = _unary('exp', lambda e: un('exp')(e), _np.exp)
        self.log = _unary('log', lambda e: un('log')(e), _np.log)
        self.sin = _unary('sin', lambda e: un('sin')(e), _np.sin)
        self.cos = _unary('cos', lambda e: un('cos')(e), _np.cos)
        self.square = _unary('square', lambda e: e * e, _np.square)
        self.floor = _unary('floor', _fl, _np.floor)
        self.ceil = _unary('ceil', lambda e: -_fl(-e), _np.ceil)
        self.round = self.around = self.rint = np_round
        self.real = lambda x: cplx.real(x) if not isinstance(x, Opq) else app('np.real', x)
        self.angle, self.arctan2 = cplx.angle, cplx.arctan2
        self.pad = cplx.pad
        self.lib = types.SimpleNamespace(pad=cplx.pad)
        self.dot, self.einsum, self.diag, self.eye = np_dot, np_einsum, np_diag, np_eye
        self.identity = np_eye
        self.matmul = lambda a, b: T.matmul(_t(a), _t(b))
        self.inner = lambda a, b: T.dot(_t(a), T.transpose(_t(b)))
        self.outer = lambda a, b: _t(a)[:, None] * _t(b)[None, :]
        self.tile, self.repeat, self.reshape = np_tile, np_repeat, np_reshape
        self.rollaxis, self.swapaxes, self.transpose = np_rollaxis, np_swapaxes, np_transpose
        self.moveaxis = lambda x, s, d: T.moveaxis(_t(x), s, d)
        self.ravel = lambda x: _t(x).ravel()
        self.squeeze = lambda x: _t(x).squeeze()
        self.expand_dims = lambda x, axis: _expand(x, axis)
        self.nonzero, self.where = np_nonzero, np_where
        self.flatnonzero = np_flatnonzero
        self.maximum, self.minimum = np_maximum, np_minimum
        self.cumsum, self.prod = np_cumsum, np_prod
        self.count_nonzero = np_count_nonzero
        self.array_equal, self.tensordot = np_array_equal, np_tensordot
        self.diagonal = lambda x, offset=0, axis1=0, axis2=1: _t(x).diagonal(offset, axis1, axis2)
        self.isnan, self.isfinite, self.allclose = np_isnan, np_isfinite, np_allclose
        self.fill_diagonal = np_fill_diagonal
        self.floor_divide = lambda a, b: a // b
        self.remainder = self.mod = lambda a, b: a % b
        self.logical_not = lambda x: ~x if not isinstance(x, bool) else (not x)
        self.subtract = lambda a, b: a - b
        self.add = lambda a, b: a + b
        self.multiply = lambda a, b: a * b
        self.divide = self.true_divide = lambda a, b: a / b
        self.power = lambda a, b: a ** b
        self.negative = lambda a: -a
        self.meshgrid = np_meshgrid
        self.argmax = np_argmax
        self.argmin = lambda x, axis=None: np_argmax(x, axis, 'argmin')
        self.unravel_index = np_unravel_index
        self.clip = lambda x, lo, hi: np_minimum(np_maximum(x, lo), hi)
        self.atleast_2d = _atleast2
        self.atleast_1d = lambda x: _t(x) if _t(x).ndim else T.index(_t(x), (None,), view=True)
        self.shape = lambda x: x.shape
        self.ndim = lambda x: x.ndim
        self.size = lambda x: x.size
        self.isscalar = lambda x: isinstance(x, SBase) or _np.isscalar(x)
        self.copy = lambda x: x.copy()
        self.delete = np_delete
        self.copyto = lambda dst, src, casting='same_kind': dst.__setitem__(Ellipsis, src)
        self.iscomplexobj = lambda x: isinstance(x, cplx.CTensor)
        self.newaxis = None
        self.trace = lambda x: T.trace(_t(x))
        for k in ('inf', 'Inf', 'nan', 'NaN', 'pi', 'e', 'float64', 'float32', 'int64', 'int32', 'uint8', 'bool_',
                  'integer', 'floating', 'number', 'generic', 'dtype', 'errstate', 'seterr', 'finfo'):
            if hasattr(_np, k):
                setattr(self, k, getattr(_np, k))
        self.extra = {}

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        if not hasattr(_np, k):
            raise AttributeError("module 'numpy' has no attribute %r" % k)

        def f(*a, **kw):
            if any(isinstance(x, Opq) for x in a):
                return app('np.' + k, *a)
            raise Unsupported('np.' + k)
        return f


def _unsup(s):
    raise Unsupported(s)


def _expand(x, axis):
    x = _t(x)
    axis = int(axis) % (x.ndim + 1)
    return T.index(x, tuple([slice(None)] * axis + [None]), view=True)


def v_ceil(x):
    if isinstance(x, SReal):
        return wrap(-z3.ToInt(-x.t))
    if isinstance(x, SInt):
        return x
    return math.ceil(x)
