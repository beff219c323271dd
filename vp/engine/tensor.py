"""Arrays of symbolic shape in index notation.

An axis is a tuple of factors (each an integer or z3 Int term); its index is the
tuple of the factor indices, so reshape/ravel of symbolic sizes is exact.  The
content is a function from factor indices to a z3 scalar.  In-place writes
update the base array through views (frame conditions are visible).
"""
import numpy as _np
from .core import (z3, V, INT, REAL, BOOL, ctx, Unsupported, SInt, SReal, SBool, SBase, wrap, zint, zreal,
                   zbool, rdiv, rsqrt, un, _isnum, to_frac, ite)
from . import core, sums


def dim(x):
    """python int or simplified z3 Int"""
    if isinstance(x, SInt):
        x = x.t
    if z3.is_expr(x):
        x = z3.simplify(x, som=True)
        if z3.is_int_value(x):
            return x.as_long()
        return x
    return int(x)


def dprod(fs):
    r = 1
    for f in fs:
        if z3.is_expr(r) or z3.is_expr(f):
            r = (r if z3.is_expr(r) else z3.IntVal(r)) * f
        else:
            r = r * f
    return dim(r)


def deq(a, b):
    """provably equal dimensions?"""
    if not z3.is_expr(a) and not z3.is_expr(b):
        return a == b
    e = (a if z3.is_expr(a) else z3.IntVal(a)) == b
    e = z3.simplify(e, som=True)
    if z3.is_true(e):
        return True
    d = z3.simplify((a if z3.is_expr(a) else z3.IntVal(a)) - b, som=True)
    if z3.is_int_value(d):
        return d.as_long() == 0
    return ctx().must(e)


def zi(x):
    return x if z3.is_expr(x) else z3.IntVal(int(x))


def sortof(t):
    return t.sort()


_ver = [0]
_depth = [0]


def at_placeholders(e, idx, pairs):
    """e(idx) with pairs substituted in e but not in idx"""
    ph = [tuple(z3.Int('sph!%d!%d!%d!%d' % (_depth[0], k, j, len(t))) for j in range(len(t))) for k, t in enumerate(idx)]
    _depth[0] += 1
    try:
        v = e(ph)
    finally:
        _depth[0] -= 1
    back = [(p, zi(i)) for pt, t in zip(ph, idx) for p, i in zip(pt, t)]
    return z3.substitute(v, *(list(pairs) + back)) if back or pairs else v


class STensor(object):
    __array_priority__ = 3000
    __array_ufunc__ = None

    def __init__(self, axes, elem, kind='r', name=None):
        # axes: list of tuples of factors ; elem: f(list of tuples of z3 ints) -> z3 term
        self.axes = [tuple(a) for a in axes]
        self._elem = elem
        self.kind = kind            # r real, i int, b bool
        self.base = None            # (parent, tofwd) for views
        self._log = []
        self.name = name
        self._v = 0
        self.meta = {}

    @property
    def flags(self):
        f = self.__dict__.get('_flags')
        if f is None:
            import types
            f = self._flags = types.SimpleNamespace(writeable=True)
        return f

    def _check_writeable(self):
        t = self
        f = t.__dict__.get('_flags')
        if f is not None and not f.writeable:
            raise ValueError('assignment destination is read-only')

    # ---- shape
    @property
    def shape(self):
        return tuple((Composite(a) if len(a) > 1 else wrap(zi(dprod(a)))) if z3.is_expr(dprod(a)) else dprod(a)
                     for a in self.axes)

    @property
    def ndim(self):
        return len(self.axes)

    @property
    def size(self):
        d = dprod([f for a in self.axes for f in a])
        return wrap(zi(d)) if z3.is_expr(d) else d

    @property
    def dtype(self):
        return _np.dtype({'r': float, 'i': int, 'b': bool}[self.kind])

    def dims(self):
        return [dprod(a) for a in self.axes]

    def __vlen__(self):
        if not self.axes:
            raise TypeError('len() of unsized object')
        return self.shape[0]

    def __len__(self):
        n = self.__vlen__()
        return n if isinstance(n, int) else n.__index__()

    def __repr__(self):
        return '<STensor %s %s>' % (self.kind, self.axes)

    def version(self):
        return self._v if self.base is None else (self._v, self.base[0].version())

    # ---- elements
    def diagonal(self, offset=0, axis1=0, axis2=1):
        if int(offset):
            raise Unsupported('diagonal with an offset')
        a, b = int(axis1) % self.ndim, int(axis2) % self.ndim
        x, y = self.axes[a], self.axes[b]
        if unify_axis(x, y) is None:
            raise Unsupported('diagonal of different axes')
        e = self.frozen()
        rest = [k for k in range(self.ndim) if k not in (a, b)]

        def elem(idx):
            full = [None] * self.ndim
            for k, i in zip(rest, idx):
                full[k] = i
            full[a] = full[b] = idx[-1]
            return e(full)
        return STensor([self.axes[k] for k in rest] + [x], elem, self.kind)

    def at(self, idx):
        """idx: list (per axis) of tuples of z3 ints"""
        return self._elem(idx)

    def get(self, *ids):
        """element at one z3 int per axis (splits composite axes when possible)"""
        return self.at([self._split(a, i) for a, i in zip(self.axes, ids)])

    @staticmethod
    def _split(axis, i):
        if isinstance(i, tuple):
            return i
        if len(axis) == 1:
            return (zi(i),)
        if len(axis) == 0:
            return ()
        # all trailing factors concrete -> div/mod, else only a concrete zero
        i = zi(i)
        out = []
        rest = axis[1:]
        st = dprod(rest)
        if z3.is_int_value(z3.simplify(i)):
            v = z3.simplify(i).as_long()
            if v == 0:
                return tuple(z3.IntVal(0) for _ in axis)
        if z3.is_expr(st):
            raise Unsupported('index into a composite symbolic axis')
        q, r = i / st, i % st
        return (z3.simplify(q),) + STensor._split(rest, z3.simplify(r))

    def real(self, idx):
        return zreal(self.at(idx))

    def _like(self, elem, kind=None, axes=None):
        return STensor(self.axes if axes is None else axes, elem, kind or self.kind)

    def copy(self, *a, **k):
        e = self.frozen()
        r = STensor(self.axes, e, self.kind)
        r.meta = dict(self.meta)
        r.name = self.name
        if _bridge_on() and getattr(self, 'prov', None) is not None:
            from . import bridge
            pr = bridge._prov(self)
            if pr:
                bridge.note(r, pr[0], *pr[1])
        return r

    __copy__ = copy

    def __deepcopy__(self, m):
        return self.copy()

    def frozen(self):
        """element function of the current content (immune to later writes)"""
        if self.base is None:
            return self._elem
        parent, fwd = self.base[0], self.base[1]
        pe = parent.frozen()
        return lambda idx: pe(fwd(idx))

    def astype(self, t, copy=True):
        t = getattr(t, '__real__', t)
        k = _np.dtype(t).kind
        e = self.frozen()
        if k == 'f':
            return self._like(lambda i: zreal(e(i)), 'r')
        if k in 'iu':
            if self.kind == 'r':
                def tr(x):
                    return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
                return self._like(lambda i: tr(e(i)), 'i')
            return self._like(lambda i: zint(wrap(e(i))) if self.kind == 'b' else e(i), 'i')
        if k == 'b':
            return self._like(lambda i: zbool(e(i)) if self.kind == 'b' else e(i) != 0, 'b')
        raise Unsupported('astype %r' % (t,))

    # ---- views
    def _view(self, axes, fwd, inv=None):
        """view whose element idx is self[fwd(idx)]; inv(parent idx) -> (guard, idx)"""
        r = STensor(axes, None, self.kind)
        src = self
        r._elem = lambda idx: src._elem(fwd(idx))
        r.base = (self, fwd, inv)
        return r

    def _write(self, guard_val):
        """guard_val(idx) -> (guard z3 bool, value z3) : new content"""
        if self.base is not None:
            parent, fwd, inv = self.base
            if inv is None:
                raise Unsupported('write through a view')

            def gv(pidx):
                g, idx = inv(pidx)
                if z3.is_false(z3.simplify(g)):
                    return z3.BoolVal(False), None
                g2, v = guard_val(idx)
                return z3.And(g, g2), v
            parent._write(gv)
            self._v += 1
            return
        old = self._elem
        kind = self.kind

        def new(idx):
            g, v = guard_val(idx)
            g = z3.simplify(g)
            if z3.is_false(g):
                return old(idx)
            v = zreal(v) if kind == 'r' else (zint(wrap(v)) if kind == 'i' else zbool(_coerce(v, 'b')))
            if z3.is_true(g):
                return v
            return z3.If(g, v, old(idx))
        self._elem = new
        self._v += 1
        _ver[0] += 1
        c = core.CTX
        if c is not None:
            c.events.append(('tensor-write', self))

    # ---- loops support
    def __vite__(self, c, b):
        b = as_tensor(b)
        if len(self.axes) != len(b.axes) or any(len(x) != len(y) for x, y in zip(self.axes, b.axes)):
            raise Unsupported('one of two arrays of different dimensionality')
        cc = ctx()
        axes = []
        for x, y in zip(self.axes, b.axes):
            ax = []
            for p, q in zip(x, y):
                p, q = dim(p), dim(q)
                zp, zq = zi(p), zi(q)
                ax.append(p if cc.must(zp == zq) else z3.simplify(z3.If(c, zp, zq)))
            axes.append(tuple(ax))
        ea, eb = self.frozen(), b.frozen()
        kind = self.kind if self.kind == b.kind else ('r' if 'r' in self.kind + b.kind else 'i')

        def elem(idx):
            u, v = wrap(ea(idx)), wrap(eb(idx))
            if kind == 'b':
                return z3.If(c, zbool(u), zbool(v))
            if kind == 'i':
                return z3.If(c, zint(u), zint(v))
            return z3.If(c, zreal(u), zreal(v))
        return STensor(axes, elem, kind)

    def fresh_like(self, name):
        r = fresh(name, self.axes, self.kind)
        return r

    def _assign_from(self, o):
        if self.base is not None:
            raise Unsupported('havoc of a view')
        self._elem = o._elem
        self._v += 1

    def with_rows(self, rows, n):
        """self with the rows (prefix, e0) .. (prefix, e0 + n - 1) of the first axis replaced"""
        prefix, e0, rowf = rows
        e = self.frozen()
        k = len(prefix)
        if len(self.axes[0]) <= k:
            raise Unsupported('row writes on a smaller axis')

        def elem(idx):
            i = idx[0][k]
            g = z3.simplify(z3.And(i >= e0, i < e0 + n, *[x == y for x, y in zip(idx[0], prefix)]))
            if z3.is_false(g):
                return e(idx)
            v = rowf(z3.simplify(i - e0), idx[0][k + 1:], idx[1:])
            if z3.is_true(g):
                return v
            return z3.If(g, v, e(idx))
        return STensor(self.axes, elem, self.kind)

    def log_row(self, ids, valf, before):
        """the rows whose leading indices are ids were rewritten since version `before`"""
        if self._log and self._log[-1][3] != before:
            self._log.clear()
        self._log.append((tuple(ids), valf, before, self._v))

    def row_write(self, headver, T):
        """if the only rows changed since version headver are those at index (prefix, e0 + T)
        -> (prefix, e0, rowf)"""
        v, es = self._v, []
        for e in reversed(self._log):
            if e[3] != v:
                return None
            es.append(e)
            v = e[2]
            if v == headver:
                break
        if not es or v != headver or self.base is not None:
            return None
        idx, valf = es[0][:2]
        if any(len(e[0]) != len(idx) or not all(z3.simplify(x - y).eq(z3.IntVal(0)) for x, y in zip(e[0], idx))
               for e in es[1:]):
            return None
        if not idx:
            return None
        d = z3.simplify(idx[-1] - T)
        if any(sums.contains(x, {T.get_id()}) for x in tuple(idx[:-1]) + (d,)):
            return None

        def rowf(j, more, rest):
            return z3.simplify(at_placeholders(lambda ph: valf(ph[0], list(ph[1:])), [tuple(more)] + list(rest), [(T, j)]))
        return tuple(idx[:-1]), d, rowf

    def same_row(self, w, w2, T, c):
        if len(w[0]) != len(w2[0]):
            return False
        more = tuple(z3.Int(c.fresh('ri')) for _ in self.axes[0][len(w[0]) + 1:])
        ids = [tuple(z3.Int(c.fresh('ri')) for _ in a) for a in self.axes[1:]]
        rng = [z3.And(i >= 0, i < zi(f)) for t, a in zip([more] + ids, [self.axes[0][len(w[0]) + 1:]] + self.axes[1:])
               for i, f in zip(t, a)]
        from . import prove as PV
        g = z3.And(w[1] == w2[1], *[x == y for x, y in zip(w[0], w2[0])])
        return PV.check(c.pc + rng, z3.And(g, w[2](T, more, ids) == w2[2](T, more, ids)))[0] == 'proved'

    def _refactor(self, src, fs):
        """see axis src as the composite axis fs of the same extent"""
        old, e = self.axes[src], self._elem
        fs = tuple(fs)

        def elem(idx):
            i = idx[src]
            if len(i) == len(fs) and len(fs) != len(old):
                i = (join(i, fs),)
            return e(list(idx[:src]) + [i] + list(idx[src + 1:]))
        self.axes[src] = fs
        self._elem = elem

    def __vsubst__(self, pairs):
        e = self.frozen()
        axes = [tuple(dim(z3.substitute(f, *pairs)) if z3.is_expr(f) else f for f in a) for a in self.axes]

        def elem(idx):
            return at_placeholders(e, idx, pairs)
        return STensor(axes, elem, self.kind)

    # ---- indexing
    def __getitem__(self, k):
        return index(self, k)

    def __setitem__(self, k, v):
        self._check_writeable()
        if isinstance(k, STensor) and k.kind == 'b' and k.ndim == self.ndim:
            m = k.frozen()
            if isinstance(v, STensor) and v.ndim:
                raise Unsupported('masked write of an array')
            val = v.at([]) if isinstance(v, STensor) else scalar_term(v)
            self._write(lambda idx: (zbool(m(_align_idx(idx, self.axes, k.axes))), val))
            return
        if isinstance(k, MaskIdx):
            raise Unsupported('write through a mask')
        kt = unmask(k if isinstance(k, tuple) else (k,))
        if len(kt) == 1 and self.ndim == 1 and member_write(self, kt[0], v):
            return
        if any(isinstance(x, (STensor, _np.ndarray)) for x in kt):
            self._log.clear()
            return scatter(self, kt, v)
        target = index(self, k, view=True)
        if isinstance(target, SBase) or not isinstance(target, STensor):
            target = index(self, k, view=True, keep=True)
        v = as_tensor(v)
        b = broadcast_to(v, target.axes)
        e = b.frozen()
        # row log
        kk = k[0] if isinstance(k, tuple) else k
        full = all(isinstance(x, slice) and x == slice(None) for x in (k[1:] if isinstance(k, tuple) else ()))
        before = self._v
        target._write(lambda idx: (z3.BoolVal(True), e(idx)))
        if isinstance(kk, (SInt, int, RowIx)) and not isinstance(kk, bool) and full and self.base is None:
            ids = composite_index(self.axes[0], kk)
            if ids is not None:
                self.log_row(ids, lambda more, rest: _coerce(e(rest), self.kind), before)
                return
        self._log.clear()

    def __iter__(self):
        d = dprod(self.axes[0]) if self.axes else None
        if d is None:
            raise TypeError('iteration over a 0-d array')
        if z3.is_expr(d):
            raise Unsupported('python iteration over a symbolic axis')
        return iter([self[i] for i in range(d)])

    def __vseq__(self):
        from .seq import VList, Seg
        d = dprod(self.axes[0])
        if not z3.is_expr(d):
            return VList([self[i] for i in range(d)])
        e = self
        return VList(segs=[Seg(zi(d), lambda i: e[SInt(i) if not z3.is_int_value(i) else i.as_long()])])

    def __bool__(self):
        if self.ndim == 0:
            return ctx().branch(zbool(wrap(self.at([]))))
        d = self.dims()
        if all((not z3.is_expr(x)) and x == 1 for x in d):
            return ctx().branch(zbool(wrap(self.at([tuple(z3.IntVal(0) for _ in a) for a in self.axes]))))
        raise ValueError('The truth value of an array with more than one element is ambiguous')

    # ---- arithmetic
    def __neg__(self):
        if _bridge_on() and self.kind == 'r' and self.ndim in (1, 2):
            return self * -1
        return umap(lambda x: -x, self)

    def __pos__(self):
        return self

    def __abs__(self):
        return umap(lambda x: z3.If(x >= 0, x, -x), self)

    def __invert__(self):
        return umap(z3.Not, self)

    def __eq__(self, o):
        if o is None:
            return False
        return bmap(lambda x, y: x == y, self, o, 'b')

    def __ne__(self, o):
        if o is None:
            return True
        return bmap(lambda x, y: x != y, self, o, 'b')

    __hash__ = object.__hash__

    @property
    def T(self):
        return transpose(self)

    # ---- methods
    def ravel(self, order='C'):
        return reshape(self, (-1,), order)

    def flatten(self, order='C'):
        return reshape(self, (-1,), order).copy()

    def reshape(self, *shape, **kw):
        if len(shape) == 1 and not isinstance(shape[0], (int, SInt, _np.integer)):
            shape = shape[0]
            if hasattr(shape, 'items') and not isinstance(shape, (tuple, list)):
                shape = shape.items()
        return reshape(self, tuple(shape), kw.get('order', 'C'))

    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = axes[0]
        return transpose(self, axes or None)

    def swapaxes(self, a, b):
        p = list(range(self.ndim))
        p[a], p[b] = p[b], p[a]
        return transpose(self, p)

    def dot(self, o):
        return dot(self, o)

    def __matmul__(self, o):
        return dot(self, o)

    def __rmatmul__(self, o):
        return dot(o, self)

    def sum(self, axis=None, keepdims=False, **k):
        return reduce_sum(self, axis, keepdims)

    def mean(self, axis=None, keepdims=False, **k):
        return reduce_mean(self, axis, keepdims)

    def max(self, axis=None, **k):
        return reduce_op('max', self, axis)

    def min(self, axis=None, **k):
        return reduce_op('min', self, axis)

    def any(self, axis=None):
        return reduce_op('any', self, axis)

    def all(self, axis=None):
        return reduce_op('all', self, axis)

    def std(self, axis=None, **k):
        return reduce_std(self, axis)

    def squeeze(self):
        keep = [i for i, d in enumerate(self.dims()) if z3.is_expr(d) or d != 1]
        k = tuple(slice(None) if i in keep else 0 for i in range(self.ndim))
        return index(self, k, view=True)

    def fill(self, v):
        self[...] = v

    def tolist(self):
        return [x.tolist() if isinstance(x, STensor) else x for x in self.__vseq__()]

    def item(self):
        if self.ndim == 0:
            return wrap(self.at([]))
        raise Unsupported('item')

    def conj(self):
        return self.copy()


def _coerce(t, kind):
    if kind == 'b' and z3.is_arith(t):
        return t != 0
    return zreal(t) if kind == 'r' else t


def _align_idx(idx, axes, maxes):
    out = []
    for i, a, m in zip(idx, axes, maxes):
        if len(a) == len(m):
            out.append(i)
        else:
            raise Unsupported('mask factorisation')
    return out


# ------------------------------------------------------------ construction
def fresh(name, axes, kind='r', params=()):
    """arbitrary tensor; with params (Int terms) a family of tensors"""
    axes = [tuple(a) if isinstance(a, (tuple, list)) else (a,) for a in axes]
    axes = [tuple(dim(f) for f in a) for a in axes]
    nf = sum(len(a) for a in axes)
    srt = {'r': REAL, 'i': INT, 'b': BOOL}[kind]
    ps = [zi(q) for q in params]
    if nf == 0 and not ps:
        c = z3.Const(name, srt)
        return STensor(axes, lambda idx: c, kind, name)
    F = z3.Function(name, *([INT] * (nf + len(ps)) + [srt]))
    t = STensor(axes, lambda idx: F(*(ps + [zi(i) for t in idx for i in t])), kind, name)
    t.meta['decl'] = F
    return t


def scalar_term(v):
    if isinstance(v, SBase):
        return v.t
    if z3.is_expr(v):
        return v
    if isinstance(v, STensor) and v.ndim == 0:
        return v.at([])
    if isinstance(v, (bool, _np.bool_)):
        return z3.BoolVal(bool(v))
    if isinstance(v, (int, _np.integer)):
        return z3.IntVal(int(v))
    if hasattr(v, '__as_real__'):
        return v.__as_real__()
    return to_frac(v)


def as_tensor(v):
    from .seq import VList
    if isinstance(v, STensor):
        return v
    if isinstance(v, SBase) or _isnum(v):
        t = scalar_term(v)
        return STensor([], lambda idx: t, {REAL: 'r', INT: 'i', BOOL: 'b'}[t.sort()])
    if isinstance(v, _np.ndarray):
        return from_np(v)
    if isinstance(v, VList):
        return stack(v)
    if isinstance(v, (list, tuple)):
        return stack(VList(list(v)))
    if hasattr(v, '__as_tensor__'):
        return v.__as_tensor__()
    if hasattr(v, '__as_real__'):
        t = v.__as_real__()
        return STensor([], lambda idx: t, 'r')
    raise Unsupported('as_tensor: %r' % type(v))


def from_np(a):
    a = _np.asarray(a)
    if a.dtype.kind not in 'fiub':
        raise Unsupported('array of dtype %s' % a.dtype)
    kind = {'f': 'r', 'i': 'i', 'u': 'i', 'b': 'b'}[a.dtype.kind]
    conv = {'r': lambda x: to_frac(float(x)), 'i': lambda x: z3.IntVal(int(x)), 'b': lambda x: z3.BoolVal(bool(x))}[kind]
    axes = [(int(n),) for n in a.shape]

    def elem(idx):
        ids = [z3.simplify(zi(t[0])) for t in idx]
        if all(z3.is_int_value(i) for i in ids):
            return conv(a[tuple(i.as_long() for i in ids)])
        flat = a.ravel()
        if flat.size and (flat == flat[0]).all():
            return conv(flat[0])
        # nested If over the symbolic positions
        if a.size > 200:
            raise Unsupported('symbolic index into a large constant')

        def rec(pre, rest):
            if not rest:
                return conv(a[tuple(pre)])
            i = rest[0]
            if z3.is_int_value(i):
                return rec(pre + [i.as_long()], rest[1:])
            n = a.shape[len(pre)]
            r = rec(pre + [n - 1], rest[1:])
            for j in range(n - 2, -1, -1):
                r = z3.If(i == j, rec(pre + [j], rest[1:]), r)
            return r
        return rec([], ids)
    t = STensor(axes, elem, kind)
    t.meta['const'] = a
    return t


def under(conds, f):
    """f() evaluated under conditions"""
    c = ctx()
    n0 = len(c.pc)
    c.solver.push()
    for g in conds:
        c.pc.append(g)
        c.solver.add(g)
    try:
        return f()
    finally:
        c.solver.pop()
        del c.pc[n0:]


def stack(lst):
    """np.array(list of equal-shaped things)"""
    from .seq import VList
    if lst.concrete():
        its = lst.items()
        if not its:
            return STensor([(0,)], lambda idx: z3.RealVal(0), 'r')
        ts = [as_tensor(x) for x in its]
        ax = ts[0].axes
        for t in ts[1:]:
            if t.ndim != len(ax):
                raise ValueError('inhomogeneous array')
        ts = [broadcast_to(t, ax) if i else t for i, t in enumerate(ts)]
        kind = 'r' if any(t.kind == 'r' for t in ts) else ('i' if any(t.kind == 'i' for t in ts) else 'b')
        es = [t.frozen() for t in ts]
        n = len(ts)

        def cv(x):
            return zreal(x) if kind == 'r' else (zint(wrap(x)) if kind == 'i' else x)

        def elem(idx):
            i = z3.simplify(zi(idx[0][0]))
            if z3.is_int_value(i):
                return cv(es[i.as_long()](idx[1:]))
            r = cv(es[n - 1](idx[1:]))
            for j in range(n - 2, -1, -1):
                r = z3.If(i == j, cv(es[j](idx[1:])), r)
            return r
        return STensor([(n,)] + list(ax), elem, kind)
    from .seq import Cat
    segs = [x for x in lst.segs if not (isinstance(x, list) and not x)]
    if len(segs) == 1 and isinstance(segs[0], Cat):
        # equal blocks: one factor for the block, one for the position in it
        cat = segs[0]
        c = ctx()
        i, j = z3.Int(c.fresh('blk')), z3.Int(c.fresh('blkj'))
        m = dim(cat.size(i))
        if not (z3.is_expr(m) and sums.contains(m, {i.get_id()})):
            def block(i, j):
                b = cat.block(i)
                return as_tensor(b.at(j))
            with_range = [i >= 0, i < cat.k, j >= 0, j < zi(m)]
            probe = under(with_range, lambda: block(i, j))

            def belem(idx):
                v = block(zi(idx[0][0]), zi(idx[0][1])).at(idx[1:])
                return zreal(v) if probe.kind == 'r' else v
            return STensor([(dim(cat.k), m)] + list(probe.axes), belem, probe.kind)
    n = dim(lst.zlen())
    probe = as_tensor(lst.at(z3.Int(ctx().fresh('probe'))))
    kind = probe.kind

    def elem(idx):
        t = as_tensor(lst.at(idx[0][0]))
        v = t.at(idx[1:])
        return zreal(v) if kind == 'r' else v
    return STensor([(n,)] + list(probe.axes), elem, kind)


def const(shape, val, kind='r'):
    axes = shape_axes(shape)
    t = to_frac(val) if kind == 'r' else (z3.IntVal(int(val)) if kind == 'i' else z3.BoolVal(bool(val)))
    return STensor(axes, lambda idx: t, kind)


def shape_axes(shape):
    from .seq import VList
    if isinstance(shape, (int, SInt, _np.integer)):
        shape = (shape,)
    if isinstance(shape, VList):
        shape = shape.items()
    if isinstance(shape, STensor):
        shape = list(shape)
    out = []
    for s in shape:
        if isinstance(s, Composite):
            out.append(tuple(s.factors))
        else:
            out.append((dim(s),))
    return out


class Composite(SInt):
    """integer known as a product of factors"""
    __slots__ = ('factors',)

    def __init__(self, factors):
        self.factors = [dim(f) for f in factors]
        SInt.__init__(self, zi(dprod(self.factors)))


# ------------------------------------------------------------ broadcasting
def is1(a):
    d = dprod(a)
    return not z3.is_expr(d) and d == 1


def unify_axis(a, b):
    """common factorisation of two axes of equal extent, or None"""
    if len(a) == len(b) and all(deq(x, y) for x, y in zip(a, b)):
        return a
    return None


def bshape(ts):
    nd = max(t.ndim for t in ts)
    out = []
    for k in range(nd):
        cur = None
        for t in ts:
            j = k - (nd - t.ndim)
            if j < 0:
                continue
            ax = t.axes[j]
            if cur is None or (is1(cur) and not is1(ax)):
                if cur is None or is1(cur):
                    cur = ax
                continue
            if is1(ax):
                continue
            if unify_axis(cur, ax) is None:
                if not deq(dprod(cur), dprod(ax)):
                    da, db = dprod(cur), dprod(ax)
                    if ctx().sat((zi(da) == zi(db))) == z3.unsat:
                        raise ValueError('operands could not be broadcast together')
                    raise Unsupported('broadcast of %s and %s' % (cur, ax))
                # same extent, different factorisation: prefer the finer
                if len(ax) > len(cur):
                    cur = ax
        out.append(cur)
    return out


def pick(t, axes):
    """element function of t as broadcast to `axes`"""
    e = t.frozen()
    nd = len(axes)
    off = nd - t.ndim
    plan = []
    for j, ax in enumerate(t.axes):
        tgt = axes[off + j]
        if is1(ax) and not is1(tgt):
            plan.append(('one', len(ax)))
        elif len(ax) == len(tgt):
            plan.append(('same', 0))
        elif is1(ax):
            plan.append(('one', len(ax)))
        elif all(not z3.is_expr(f) for f in tgt) or len(ax) < len(tgt):
            plan.append(('join', ax, tgt))
        else:
            raise Unsupported('refactor axis')

    def f(idx):
        out = []
        for j, p in enumerate(plan):
            i = idx[off + j]
            if p[0] == 'one':
                out.append(tuple(z3.IntVal(0) for _ in range(p[1])))
            elif p[0] == 'same':
                out.append(i)
            else:
                flat = join(i, p[2])
                out.append(STensor._split(p[1], flat))
        return e(out)
    return f


def join(idx, factors):
    """flat index of a factored index"""
    r = zi(0)
    for i, f in zip(idx, factors):
        r = r * zi(f) + zi(i)
    return z3.simplify(r)


def broadcast_to(t, axes):
    if t.ndim > len(axes):
        # numpy allows leading 1s in assignment
        ex = t.ndim - len(axes)
        if all(is1(a) for a in t.axes[:ex]):
            t = index(t, tuple([0] * ex + [slice(None)] * len(axes)), view=True)
            t = as_tensor(t)
        else:
            raise ValueError('could not broadcast')
    off = len(axes) - t.ndim
    for j, a in enumerate(t.axes):
        tgt = axes[off + j]
        if not is1(a) and not deq(dprod(a), dprod(tgt)):
            if ctx().sat(zi(dprod(a)) == zi(dprod(tgt))) == z3.unsat:
                raise ValueError('could not broadcast input array')
            raise Unsupported('broadcast_to %s -> %s' % (a, tgt))
    return STensor(axes, pick(t, axes), t.kind)


def umap(f, t, kind=None):
    e = t.frozen()
    return STensor(t.axes, lambda idx: f(e(idx)), kind or t.kind)


def bmap(f, a, b, kind=None, arith=True):
    a, b = as_tensor(a), as_tensor(b)
    axes = bshape([a, b])
    fa, fb = pick(a, axes), pick(b, axes)
    if kind is None:
        kind = 'r' if 'r' in (a.kind, b.kind) else 'i'
        rr = kind == 'r'
    else:
        rr = 'r' in (a.kind, b.kind)

    def elem(idx):
        x, y = fa(idx), fb(idx)
        if rr:
            x, y = zreal(x), zreal(y)
        else:
            x = zint(wrap(x)) if x.sort() == BOOL and y.sort() != BOOL else x
            y = zint(wrap(y)) if y.sort() == BOOL and x.sort() != BOOL else y
            if kind == 'i' and x.sort() == BOOL:
                x, y = zint(wrap(x)), zint(wrap(y))
        return f(x, y)
    r = STensor(axes, elem, kind)
    if not axes:
        return wrap(r.at([]))
    return r


def _bridge_on():
    c = core.CTX
    return c is not None and c.extra.get('bridge')


def _note(r, name, a, b):
    """remember linear operations (see bridge.py)"""
    from . import bridge
    if not isinstance(r, STensor) or r.ndim not in (1, 2):
        return r
    if name in ('add', 'sub'):
        if isinstance(a, STensor) and isinstance(b, STensor) and a.ndim == b.ndim == r.ndim and all(
                deq(dprod(x), dprod(y)) for x, y in zip(a.axes, b.axes)):
            bridge.note(r, name, a, b)
    elif name == 'mul':
        for x, y in ((a, b), (b, a)):
            if isinstance(x, STensor) and bridge.scalar(y):
                bridge.note(r, 'mul', x, y)
    elif name == 'div' and isinstance(a, STensor) and bridge.scalar(b):
        bridge.note(r, 'div', a, b)
    return r


def _mkop(name, f, kind=None):
    def op(self, o):
        if isinstance(o, complex):
            return _complex(self, name, o, False)
        if not _operand(o):
            return NotImplemented
        r = bmap(f, self, o, kind)
        return _note(r, name, self, o) if _bridge_on() else r

    def rop(self, o):
        if isinstance(o, complex):
            return _complex(self, name, o, True)
        if not _operand(o):
            return NotImplemented
        r = bmap(lambda x, y: f(y, x), self, o, kind)
        return _note(r, name, o, self) if _bridge_on() else r

    def iop(self, o):
        self._check_writeable()
        r = bmap(f, self, o, kind)
        r = as_tensor(r)
        b = broadcast_to(r, self.axes)
        e = b.frozen()
        old = None
        if _bridge_on() and self.ndim in (1, 2):
            old = self.copy()
            if hasattr(self, 'prov'):
                from . import bridge
                pr = bridge._prov(self)
                if pr:
                    bridge.note(old, pr[0], *pr[1])
        self._write(lambda idx: (z3.BoolVal(True), e(idx)))
        if old is not None:
            _note(self, name, old, o)
        return self
    setattr(STensor, '__%s__' % name, op)
    setattr(STensor, '__r%s__' % name, rop)
    setattr(STensor, '__i%s__' % name, iop)


def _complex(t, name, o, swap):
    from . import cplx
    if name == 'mul':
        return cplx.CTensor(as_tensor(t * o.real), as_tensor(t * o.imag))
    z = STensor(t.axes, lambda idx: zreal(o.imag), 'r')
    if name == 'add':
        return cplx.CTensor(as_tensor(t + o.real), z)
    return cplx.CTensor(as_tensor(o.real - t), z) if swap else cplx.CTensor(as_tensor(t - o.real), -z)


def _operand(o):
    from .seq import VList
    return isinstance(o, (STensor, SBase, _np.ndarray, list, tuple, VList)) or _isnum(o)


_mkop('add', lambda x, y: x + y)
_mkop('sub', lambda x, y: x - y)
_mkop('mul', lambda x, y: x * y)


def _pow(x, n):
    r = None
    for _ in range(n):
        r = x if r is None else r * x
    return z3.RealVal(1) if r is None else r


def t_div(a, b):
    a, b = as_tensor(a), as_tensor(b)
    return bmap(lambda x, y: rdiv(zreal(x), zreal(y)), a, b, 'r')


def _truediv(self, o):
    if not _operand(o):
        return NotImplemented
    r = t_div(self, o)
    return _note(r, 'div', self, o) if _bridge_on() else r


def _rtruediv(self, o):
    if not _operand(o):
        return NotImplemented
    return t_div(o, self)


def _itruediv(self, o):
    if self.kind != 'r':
        raise TypeError('Cannot cast ufunc true_divide output')
    r = as_tensor(t_div(self, o))
    e = broadcast_to(r, self.axes).frozen()
    self._write(lambda idx: (z3.BoolVal(True), e(idx)))
    return self


STensor.__truediv__ = _truediv
STensor.__rtruediv__ = _rtruediv
STensor.__itruediv__ = _itruediv


def t_pow(a, n):
    if isinstance(n, (float, _np.floating)) and float(n) == int(n):
        n = int(n)
    if isinstance(n, (float, _np.floating)) and float(n) == 0.5:
        return umap(lambda x: rsqrt(zreal(x)), a, 'r')
    if isinstance(n, (int, _np.integer)) and 0 <= n <= 6:
        return umap(lambda x: _pow(x, int(n)), a)
    if isinstance(n, (int, _np.integer)) and -4 <= n < 0:
        return umap(lambda x: rdiv(z3.RealVal(1), _pow(zreal(x), -int(n))), a, 'r')
    raise Unsupported('array power')


STensor.__pow__ = lambda self, n: t_pow(self, n)


def _mod(self, o):
    if self.kind != 'i':
        raise Unsupported('float modulo')
    return bmap(lambda x, y: x % y, self, o, 'i')


def _fdiv(self, o):
    if self.kind == 'i':
        return bmap(lambda x, y: x / y, self, o, 'i')
    raise Unsupported('float floor division')


STensor.__mod__ = _mod
STensor.__floordiv__ = _fdiv
for _nm, _f in (('lt', lambda x, y: x < y), ('le', lambda x, y: x <= y), ('gt', lambda x, y: x > y),
                ('ge', lambda x, y: x >= y)):
    def _mk(f):
        def c(self, o):
            if not _operand(o):
                return NotImplemented
            return bmap(f, self, o, 'b')
        return c
    setattr(STensor, '__%s__' % _nm, _mk(_f))
for _nm, _f in (('and', z3.And), ('or', z3.Or)):
    def _mk2(f):
        def c(self, o):
            return bmap(lambda x, y: f(x, y), self, o, 'b')
        return c
    setattr(STensor, '__%s__' % _nm, _mk2(_f))
    setattr(STensor, '__r%s__' % _nm, _mk2(_f))


# ------------------------------------------------------------ indexing
def unmask(k):
    """boolean index arrays with known entries as their index vectors"""
    out = []
    for x in k:
        if isinstance(x, STensor) and x.kind == 'b' and x.ndim and not any(z3.is_expr(d) for a in x.axes for d in a):
            ds = [int(dprod(a)) for a in x.axes]
            m = _np.zeros(ds, dtype=bool)
            for ix in _np.ndindex(*ds):
                b = z3.simplify(zbool(wrap(x.get(*[z3.IntVal(int(i)) for i in ix]))))
                if z3.is_true(b):
                    m[ix] = True
                elif not z3.is_false(b):
                    raise Unsupported('boolean fancy index with unknown entries')
            out.extend(_np.nonzero(m))
        else:
            out.append(x)
    return tuple(out)


def scatter(t, k, v):
    """t[k] = v for index arrays: later entries win"""
    k = list(k)
    nspec = sum(1 for x in k if x is not None and x is not Ellipsis)
    el = [i for i, x in enumerate(k) if x is Ellipsis]
    if el:
        k = k[:el[0]] + [slice(None)] * (t.ndim - nspec) + k[el[0] + 1:]
    else:
        k = k + [slice(None)] * (t.ndim - nspec)
    if not all((isinstance(x, slice) and x == slice(None)) or isinstance(x, (STensor, _np.ndarray)) for x in k):
        raise Unsupported('write through this index')
    fts = [as_tensor(x) for x in k if not isinstance(x, slice)]
    fax = bshape(fts)
    fs = [pick(f, fax) for f in fts]
    axes = index(t, tuple(k)).axes
    e = broadcast_to(as_tensor(v), axes).frozen()
    src = [j for j, x in enumerate(k) if not isinstance(x, slice)]
    start = src[0]
    ph = [z3.Int(ctx().fresh('sc')) for _ in fax]
    phi = [(p,) if len(a) == 1 else None for p, a in zip(ph, fax)]
    solve = {}
    conc = []
    for q, a in enumerate(fax):
        d = dprod(a)
        if not z3.is_expr(d):
            conc.append((q, int(d)))
            continue
        if len(a) != 1:
            raise Unsupported('write through a fancy index')
        for j, f in enumerate(fs):
            full = [p if p is not None else None for p in phi]
            if any(p is None for p in full):
                raise Unsupported('write through a fancy index')
            if z3.simplify(f(full)).eq(ph[q]) and len(t.axes[src[j]]) == 1:
                solve[q] = j
                break
        else:
            raise Unsupported('write through a fancy index')
    combos = [[]]
    for q, d in conc:
        combos = [c + [(q, i)] for c in combos for i in range(d)]
        if len(combos) > 400:
            raise Unsupported('write through a long fancy index')

    def guard_val(pidx):
        g_, v_ = z3.BoolVal(False), None
        for c in combos:
            fi = [None] * len(fax)
            for q, i in c:
                fi[q] = STensor._split(fax[q], z3.IntVal(i))
            for q, j in solve.items():
                fi[q] = pidx[src[j]]
            g = []
            for q, j in solve.items():
                g.append(fi[q][0] < zi(dprod(fax[q])))
            for j, f in enumerate(fs):
                if j in solve.values():
                    continue
                n = zi(dprod(t.axes[src[j]]))
                w = z3.simplify(f(fi))
                g.append(join(pidx[src[j]], t.axes[src[j]]) == z3.simplify(z3.If(w < 0, w + n, w)))
            g = z3.simplify(z3.And(*g)) if g else z3.BoolVal(True)
            if z3.is_false(g):
                continue
            rest = [pidx[j] for j in range(t.ndim) if j not in src]
            val = e(rest[:start] + fi + rest[start:])
            v_ = val if v_ is None or z3.is_true(g) else z3.If(g, val, v_)
            g_ = z3.simplify(z3.Or(g_, g))
        return g_, v_
    t._write(guard_val)


def member_write(t, k, v):
    """t[k] = number for a range or an array of positions of a vector"""
    from .seq import VRange, VList
    if isinstance(v, STensor) and v.ndim or isinstance(v, (list, tuple, VList)):
        return False
    n = zi(dprod(t.axes[0]))
    if isinstance(k, range):
        k = VRange(k.start, k.stop, k.step)
    if isinstance(k, VRange):
        if not ctx().must(k.step >= 1):
            return False
        g = lambda j: z3.And(j >= k.a, j < k.b, (j - k.a) % k.step == 0)
        if not ctx().must(z3.And(k.a >= 0, k.b <= n)):
            return False
    else:
        if isinstance(k, VList):
            if k.concrete():
                return False
            k = as_tensor(k)
        if not (isinstance(k, STensor) and k.kind == 'i' and k.ndim == 1):
            return False
        m, e = zi(dprod(k.axes[0])), k.frozen()
        if len(k.axes[0]) != 1 or not z3.is_expr(k.axes[0][0]):
            return False
        q = z3.Int('member!')

        def g(j):
            w = e([(q,)])
            return z3.Exists([q], z3.And(q >= 0, q < m, z3.Or(w == j, w + n == j)))
    val = v.at([]) if isinstance(v, STensor) else scalar_term(v)
    t._log.clear()
    ax = t.axes[0]
    t._write(lambda idx: (z3.simplify(g(join(idx[0], ax))), _coerce(val, t.kind)))
    return True


class MaskIdx(object):
    """index vector produced by nonzero() of a mask: one factored axis per
    leading (mask independent) axis, and one axis enumerating the true entries"""

    def __init__(self, axes, maps, axis):
        self.axes, self.maps, self.axis = axes, maps, axis


def index(t, k, view=False, keep=False):
    from .seq import VList, VTuple
    if isinstance(k, VTuple) and k.concrete():
        k = tuple(k.items())
    if not isinstance(k, tuple):
        k = (k,)
    k = list(unmask(k))
    if any(isinstance(x, NZ) or (isinstance(x, STensor) and x.kind == 'b' and x.ndim) for x in k):
        if view:
            raise Unsupported('write through a mask')
        return nz_index(t, k)
    # fancy lists
    for j, x in enumerate(k):
        if isinstance(x, (list, VList)):
            k[j] = as_tensor(x)
    nspec = sum(1 for x in k if x is not None and x is not Ellipsis)
    if Ellipsis in [x for x in k if not isinstance(x, (STensor, SBase, _np.ndarray))]:
        p = [i for i, x in enumerate(k) if x is Ellipsis][0]
        k = k[:p] + [slice(None)] * (t.ndim - nspec) + k[p + 1:]
    else:
        k = k + [slice(None)] * (t.ndim - nspec)
    fancy = [x for x in k if isinstance(x, (STensor, _np.ndarray))]
    axes = []       # new axes
    plan = []       # per source axis: how to build its index from new idx
    src = 0
    c = ctx()
    fancy_axes = None
    if fancy:
        fts = [as_tensor(x) for x in fancy]
        if any(f.kind == 'b' for f in fts):
            raise Unsupported('boolean fancy index')
        fancy_axes = bshape(fts)
        fpos = [i for i, x in enumerate(k) if isinstance(x, (STensor, _np.ndarray))]
        if fpos[-1] - fpos[0] != len(fpos) - 1:
            raise Unsupported('separated fancy indices')
    fancy_done = False
    invplan = []
    for x in k:
        if x is None:
            axes.append((1,))
            invplan.append(('one',))
            continue
        ax = t.axes[src]
        n = dprod(ax)
        if isinstance(x, slice):
            if x == slice(None):
                plan.append(('axis', len(axes)))
                invplan.append(('id', src))
                axes.append(ax)
            else:
                a, m, st = slice_bounds(x, n)
                if len(ax) != 1 and not (_is0(a) and deq(m, n) and st == 1):
                    if all(not z3.is_expr(f) for f in ax):
                        pass
                    else:
                        got = composite_slice(ax, a, m, st)
                        if got is None:
                            raise Unsupported('slice of a composite axis')
                        # leading block of a composite axis
                        na, nf = got
                        plan.append(('coff', len(axes), nf))
                        invplan.append(('ucoff', src, nf, na))
                        axes.append(na)
                        src += 1
                        continue
                plan.append(('slice', len(axes), a, st, ax))
                invplan.append(('unslice', src, a, m, st, ax))
                axes.append((m,))
            src += 1
        elif isinstance(x, (STensor, _np.ndarray)):
            f = pick(as_tensor(x), fancy_axes)
            if not fancy_done:
                fstart = len(axes)
                axes.extend(fancy_axes)
                fancy_done = True
            plan.append(('fancy', fstart, len(fancy_axes), f, ax, n))
            src += 1
        elif composite_index(ax, x, t, src) is not None:
            i = composite_index(ax, x, t, src)
            ax = t.axes[src]
            plan.append(('int', i, ax))
            invplan.append(('unint', src, i, ax))
            src += 1
        else:
            if isinstance(x, (float, SReal)) :
                raise IndexError('only integers are valid indices')
            i = zint(x)
            if isinstance(x, (int, _np.integer)) and x < 0:
                i = z3.simplify(i + zi(n))
            elif not isinstance(x, (int, _np.integer)):
                if c.branch(i < 0):
                    i = z3.simplify(i + zi(n))
            bad = z3.simplify(z3.Or(i < 0, i >= zi(n)))
            if z3.is_true(bad) or (not z3.is_false(bad) and c.branch(bad)):
                raise IndexError('index out of bounds')
            plan.append(('int', i, ax))
            invplan.append(('unint', src, i, ax))
            src += 1
    if src != t.ndim:
        raise IndexError('too many indices for array')

    def fwd(idx):
        out = []
        for p in plan:
            if p[0] == 'axis':
                out.append(idx[p[1]])
            elif p[0] == 'slice':
                i = idx[p[1]][0]
                j = z3.simplify(zi(p[2]) + (zi(i) * p[3] if p[3] != 1 else zi(i)))
                out.append(STensor._split(p[4], j))
            elif p[0] == 'coff':
                i = idx[p[1]]
                out.append(p[2][0](i))
            elif p[0] == 'int':
                out.append(STensor._split(p[2], p[1]))
            else:
                v = p[3](idx[p[1]:p[1] + p[2]])
                n = zi(p[5])
                v = z3.simplify(z3.If(v < 0, v + n, v))
                out.append(STensor._split(p[4], v))
        return out

    def inv(pidx):
        g = []
        idx = []
        for p in invplan:
            if p[0] == 'one':
                idx.append((z3.IntVal(0),))
            elif p[0] == 'id':
                idx.append(pidx[p[1]])
            elif p[0] == 'unint':
                if isinstance(p[2], tuple):
                    g += [x == y for x, y in zip(pidx[p[1]], p[2])]
                    continue
                j = join(pidx[p[1]], p[3])
                g.append(j == p[2])
            elif p[0] == 'ucoff':
                gg, ii = p[2][1](pidx[p[1]])
                g.append(gg)
                idx.append(ii)
            else:
                j = join(pidx[p[1]], p[5])
                a, m, st = p[2], p[3], p[4]
                if st == 1:
                    g.append(z3.And(j >= zi(a), j < zi(a) + zi(m)))
                    idx.append((z3.simplify(j - zi(a)),))
                else:
                    q = (j - zi(a)) / st
                    g.append(z3.And(j >= zi(a), (j - zi(a)) % st == 0, q < zi(m)))
                    idx.append((z3.simplify(q),))
        return (z3.And(*g) if len(g) > 1 else (g[0] if g else z3.BoolVal(True))), idx
    if fancy:
        e = t.frozen()
        r = STensor(axes, lambda idx: e(fwd(idx)), t.kind)
        if view:
            # writes through a fancy index: supported for constant index vectors
            raise Unsupported('write through a fancy index')
        return r if axes else wrap(r.at([]))
    r = t._view(axes, fwd, inv)
    if not axes and not keep:
        return wrap(r.at([]))
    return r


class RowIx(object):
    """index of a row of a composite axis, one number per factor"""

    def __init__(self, ids):
        self.ids = tuple(ids)


def divide(x, f):
    """x == q * f + r for a symbol f, from the polynomial x"""
    if ctx().exits:
        x = z3.substitute(x, *ctx().exits)
    x = z3.simplify(x, som=True)
    q, r = [], []
    for mon in (x.children() if z3.is_add(x) else [x]):
        fs = mon.children() if z3.is_mul(mon) else [mon]
        k = [j for j, y in enumerate(fs) if y.eq(f)]
        if k:
            rest = fs[:k[0]] + fs[k[0] + 1:]
            q.append(z3.Product(rest) if len(rest) > 1 else (rest[0] if rest else z3.IntVal(1)))
        else:
            r.append(mon)
    return z3.simplify(z3.Sum(q)) if q else z3.IntVal(0), z3.simplify(z3.Sum(r)) if r else z3.IntVal(0)


def composite_index(ax, x, t=None, src=None):
    """a number as the index into an axis: one number per factor, or None.  A single
    factor that is a product is split (in t) the way the number shows"""
    if isinstance(x, RowIx):
        return x.ids
    if not isinstance(x, (SInt, int, _np.integer)) or isinstance(x, bool):
        return None
    if len(ax) == 1:
        if t is None:
            return (zint(x),)
        if not (z3.is_expr(ax[0]) and z3.is_mul(ax[0])) or t.base is not None or not isinstance(x, SInt):
            return None
        fs = ax[0].children()
        if any(z3.is_int_value(f) for f in fs):
            return None
        for k, f in enumerate(fs):
            if not z3.is_const(f) or z3.is_int_value(f):
                continue
            rest = fs[:k] + fs[k + 1:]
            got = composite_index((dprod(rest), f), x)
            if got is not None:
                t._refactor(src, (dprod(rest), dim(f)))
                return got
        return None
    if len(ax) != 2 or not z3.is_expr(ax[1]) or not z3.is_const(ax[1]):
        return None
    q, r = divide(zint(x), ax[1])
    if ctx().must(z3.And(r >= 0, r < ax[1], q >= 0, q < zi(ax[0]))):
        return (q, r)
    return None


def _is0(a):
    return (not z3.is_expr(a)) and a == 0


def composite_slice(ax, a, m, st):
    """slice [a : a+m] of a composite axis (f0, rest...) with a, m multiples of the rest"""
    rest = dprod(ax[1:])
    if st != 1 and not z3.is_expr(rest) and st == rest and not z3.is_expr(a) and 0 <= a < rest and len(ax) == 2 \
            and deq(m, ax[0]):
        # every rest-th entry: one column
        return (ax[0],), (lambda i: (i[0], z3.IntVal(int(a))), lambda pi: (zi(pi[1]) == int(a), (pi[0],)))
    if st != 1:
        return None
    # find q0, q with a == q0*rest and m == q*rest
    def div(x):
        if _is0(x):
            return 0
        if not z3.is_expr(rest) and not z3.is_expr(x):
            return x // rest if x % rest == 0 else None
        if not z3.is_expr(x):
            return None
        for q in range(0, 9):
            if deq(x, dprod([q, rest])):
                return q
        # x == f * rest for a symbolic f: try the factors
        q = ax[0]
        if deq(x, dprod([q, rest])):
            return q
        for dlt in range(1, 9):
            if z3.is_expr(q) and deq(x, dprod([q - dlt, rest])):
                return dim(q - dlt)
        if not z3.is_expr(rest):
            return linear_quotient(x, rest)
        return None
    q0, q = div(a), div(m)
    if q0 is None or q is None:
        return None
    na = (q,) + tuple(ax[1:])

    def f(i):
        return (z3.simplify(zi(i[0]) + zi(q0)),) + tuple(i[1:])

    def g(pi):
        j = z3.simplify(zi(pi[0]) - zi(q0))
        return z3.And(j >= 0, j < zi(q)), (j,) + tuple(pi[1:])
    return na, (f, g)


def linear_quotient(x, r):
    """x / r for a linear expression all of whose coefficients r divides"""
    def go(e, c):
        if z3.is_int_value(e):
            v = c * e.as_long()
            return z3.IntVal(v // r) if v % r == 0 else None
        if z3.is_add(e):
            q = [go(a, c) for a in e.children()]
            return None if any(a is None for a in q) else z3.Sum(q)
        if z3.is_mul(e) and len(e.children()) == 2 and z3.is_int_value(e.arg(0)):
            return go(e.arg(1), c * e.arg(0).as_long())
        return e * (c // r) if c % r == 0 else None
    q = go(z3.simplify(x), 1)
    return None if q is None else z3.simplify(q)


def slice_bounds(s, n):
    """-> (start, length, step) with numpy clipping"""
    st = 1 if s.step is None else int(s.step)
    c = ctx()
    if st == -1 and s.start is None and s.stop is None:
        return (dim(zi(n) - 1), n, -1)
    if st < 1:
        raise Unsupported('negative step')
    if not z3.is_expr(n) and all(not isinstance(x, SBase) for x in (s.start, s.stop)):
        a, b, _ = slice(_ci(s.start), _ci(s.stop), st).indices(n)
        return a, max(0, (b - a + st - 1) // st), st
    from .seq import tidy

    def norm(x, d):
        if x is None:
            return zi(d)
        x = zint(x)
        nn = zi(n)
        return tidy(z3.If(x < 0, z3.If(x + nn < 0, z3.IntVal(0), x + nn), z3.If(x > nn, nn, x)))
    a, b = norm(s.start, 0), norm(s.stop, n)
    m = tidy(z3.If(b > a, b - a, z3.IntVal(0)))
    if st != 1:
        m = z3.simplify((m + (st - 1)) / st)
    return dim(a), dim(m), st


def _ci(x):
    if x is None:
        return None
    if isinstance(x, (float, _np.floating)):
        raise TypeError('slice indices must be integers')
    return int(x)


class NZ(object):
    """one coordinate vector of np.nonzero(mask)"""
    __vatomic__ = True

    def __init__(self, info, k):
        self.info, self.k = info, k

    def tensor(self):
        info, k = self.info, self.k
        ax = info.mask_axes[k]
        return STensor([info.out_axis()], lambda idx: join(info.position(idx[0])[k], ax), 'i')

    size = property(lambda s: s.tensor().size)
    shape = property(lambda s: s.tensor().shape)
    ndim = 1

    def __vlen__(self):
        return self.size

    def __getitem__(self, j):
        return self.tensor()[j]

    def __vsubst__(self, pairs):
        return self


def nz_expand(k):
    """boolean masks as the coordinate vectors of their true entries"""
    out = []
    for x in k:
        if isinstance(x, STensor) and x.kind == 'b':
            info = nonzero_info(x)
            out += [NZ(info, j) for j in range(x.ndim)]
        else:
            out.append(x)
    return out


def nz_index(t, k):
    k = nz_expand(k)
    ks = [j for j, x in enumerate(k) if isinstance(x, NZ)]
    info = k[ks[0]].info
    nd = len(info.mask_axes)
    if any(k[j].info is not info for j in ks) or [k[j].k for j in ks] != list(range(nd)) or \
            ks != list(range(ks[0], ks[0] + nd)):
        raise Unsupported('partial nonzero index')
    pre, post = k[:ks[0]], k[ks[0] + nd:]
    for x in pre + post:
        if not (x is Ellipsis or (isinstance(x, slice) and x == slice(None))):
            raise Unsupported('nonzero index beside others')
    if Ellipsis in pre:
        lead = t.ndim - nd - len(post)
    else:
        lead = len(pre)
    if lead < 0 or lead + nd > t.ndim:
        raise IndexError('too many indices for array')
    e = t.frozen()
    axis = info.out_axis()
    first, mid, rest = t.axes[:lead], t.axes[lead:lead + nd], t.axes[lead + nd:]
    for a, b in zip(mid, info.mask_axes):
        if not deq(dprod(a), dprod(b)):
            raise Unsupported('mask shape')

    def elem(idx):
        pos = info.position(idx[lead])
        src = []
        for p, a, b in zip(pos, mid, info.mask_axes):
            if len(a) == len(b) and all(deq(x, y) for x, y in zip(a, b)):
                src.append(p)
            else:
                src.append(STensor._split(a, join(p, b)))
        return e(list(idx[:lead]) + src + list(idx[lead + 1:]))
    return STensor(list(first) + [axis] + list(rest), elem, t.kind)


class NZInfo(object):
    """the true entries of a mask that depends on the factors [l, r) of its axes only, in
    order: every index of the leading factors, the selected ones, every trailing index"""

    def __init__(self, mask_axes, fs, l, r, count, sels):
        self.mask_axes, self.fs, self.l, self.r, self.count, self.sels = mask_axes, fs, l, r, count, sels

    def out_axis(self):
        if self.sels is None:
            return tuple(self.fs)
        return tuple(self.fs[:self.l]) + (self.count,) + tuple(self.fs[self.r:])

    def position(self, i):
        if self.sels is None:
            flat = list(i)
        else:
            k = i[self.l]
            flat = list(i[:self.l]) + [s(k) for s in self.sels] + list(i[self.l + 1:])
        out, p = [], 0
        for a in self.mask_axes:
            out.append(tuple(flat[p:p + len(a)]))
            p += len(a)
        return out


def occurs(e):
    seen, out, st = set(), set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        elif z3.is_quantifier(x):
            st.append(x.body())
        else:
            st.extend(x.children())
    return out


def nonzero_info(mask):
    mask = as_tensor(mask)
    fs = [f for a in mask.axes for f in a]
    vs = [z3.Int('nzv!%d' % j) for j in range(len(fs))]
    idx, p = [], 0
    for a in mask.axes:
        idx.append(tuple(z3.IntVal(0) if is1((f,)) else v for f, v in zip(a, vs[p:p + len(a)])))
        p += len(a)
    v = mask.at(idx)
    v = z3.simplify(v if v.sort() == BOOL else zreal(wrap(v)) != 0)
    rng = [z3.And(x >= 0, x < zi(f)) for x, f in zip(vs, fs)]
    if ctx().must(z3.Implies(z3.And(*rng), v)):
        return NZInfo(mask.axes, fs, 0, 0, None, None)
    used = occurs(v)
    dep = [j for j in range(len(fs)) if 'nzv!%d' % j in used]
    if not dep:
        raise Unsupported('nonzero of a constant mask')
    l, r = dep[0], dep[-1] + 1
    names = [z3.Int('nzd!%d' % j) for j in range(r - l)]
    key = z3.simplify(z3.substitute(v, *[(vs[l + j], names[j]) for j in range(r - l)]))
    dims = [zi(f) for f in fs[l:r]]
    c = ctx()
    tab = c.extra.setdefault('nonzero', [])
    rng = z3.And(*[z3.And(x >= 0, x < d) for x, d in zip(names, dims)])
    for kd, kx, count, sels in tab:
        if len(kd) == len(dims) and all(deq(x, y) for x, y in zip(kd, dims)) and (
                kx.eq(key) or c.must(z3.Implies(rng, kx == key))):
            return NZInfo(mask.axes, fs, l, r, count, sels)
    name = c.fresh('nz')
    count = z3.Int('nnz:' + name)
    fns = [z3.Function('sel%d:%s' % (j, name), INT, INT) for j in range(r - l)]
    c.assume(count >= 0)

    def at_(k, j):
        inside = z3.And(k >= 0, k < count)
        ctx().assume(z3.Implies(inside, z3.And(*[z3.And(f(k) >= 0, f(k) < d) for f, d in zip(fns, dims)])))
        ctx().assume(z3.Implies(inside, z3.substitute(key, *[(n_, f(k)) for n_, f in zip(names, fns)])))
        return fns[j](k)
    sels = [(lambda k, j=j: at_(k, j)) for j in range(r - l)]
    tab.append((dims, key, count, sels))
    return NZInfo(mask.axes, fs, l, r, count, sels)


# ------------------------------------------------------------ reshape etc.
def reshape(t, shape, order='C'):
    if order == 'F':
        r = transpose(t)
        shp = tuple(reversed(list(shape)))
        return transpose(reshape(r, shp))
    if order not in ('C', 'A', 'K'):
        raise Unsupported('order')
    fs = [f for a in t.axes for f in a if not (not z3.is_expr(f) and f == 1)]
    pos = [(j, q) for j, a in enumerate(t.axes) for q, f in enumerate(a) if not (not z3.is_expr(f) and f == 1)]
    shape = list(shape)
    dims_ = []
    for s in shape:
        if isinstance(s, Composite):
            dims_.append(s)
        else:
            dims_.append(dim(s))
    # split of factors for concrete sizes may be needed: work list
    plan = []          # list of (axis factors, [source spec])
    work = list(zip(fs, pos))
    splits = {}

    def take(target):
        """consume factors whose product equals target"""
        got = []
        cur = 1
        while not deq(cur, target):
            if not work:
                return None
            f, p = work[0]
            nxt = dprod([cur, f])
            if not z3.is_expr(nxt) and not z3.is_expr(target):
                if nxt > target:
                    # split a concrete factor
                    if target % cur == 0 and not z3.is_expr(f) and f % (target // cur) == 0:
                        a = target // cur
                        b = f // a
                        work[0] = (b, ('lo', p, a, b))
                        got.append((a, ('hi', p, a, b)))
                        cur = target
                        continue
                    return None
            work.pop(0)
            got.append((f, p))
            cur = nxt
            if len(got) > 12:
                return None
        return got
    out = [None] * len(dims_)
    neg = [i for i, d in enumerate(dims_) if not isinstance(d, Composite) and not z3.is_expr(d) and d == -1]
    if len(neg) > 1:
        raise ValueError('can only specify one unknown dimension')
    stop = neg[0] if neg else len(dims_)
    for i in range(stop):
        d = dims_[i]
        g = take(dprod(d.factors) if isinstance(d, Composite) else d)
        if g is None:
            g = _split_symbolic(work, d, take)
        if g is None:
            raise Unsupported('reshape %s -> %s' % (t.axes, shape))
        out[i] = g
    if neg:
        # trailing ones are consumed from the end
        tail = []
        rest = work[:]
        saved = None
        for i in range(len(dims_) - 1, stop, -1):
            d = dims_[i]
            target = dprod(d.factors) if isinstance(d, Composite) else d
            got = []
            cur = 1
            while not deq(cur, target):
                if not rest:
                    raise Unsupported('reshape -1 tail %s -> %s' % (t.axes, shape))
                f, p = rest[-1]
                nxt = dprod([f, cur])
                if not z3.is_expr(nxt) and not z3.is_expr(target) and nxt > target:
                    if target % cur == 0 and f % (target // cur) == 0:
                        b = target // cur
                        a = f // b
                        rest[-1] = (a, ('hi', p, a, b))
                        got.insert(0, (b, ('lo', p, a, b)))
                        cur = target
                        continue
                    raise Unsupported('reshape')
                rest.pop()
                got.insert(0, (f, p))
                cur = nxt
            out[i] = got
        out[stop] = rest
        work = []
    if work:
        raise ValueError('cannot reshape array')
    axes = [tuple(f for f, _ in g) or (1,) for g in out]
    srcs = [[p for _, p in g] for g in out]

    def fwd(idx):
        vals = {}
        for ids, ps in zip(idx, srcs):
            for i, p in zip(ids, ps):
                vals[p] = i

        def val(p):
            if p in vals:
                return vals[p]
            # recombine splits
            for q in list(vals):
                if q[0] in ('hi', 'lo') and q[1] == p:
                    a, b = q[2], q[3]
                    hi = val(('hi', p, a, b))
                    lo = val(('lo', p, a, b))
                    return z3.simplify(zi(hi) * b + zi(lo))
            for q in list(vals):
                # nested split
                r = q
                while isinstance(r[0], str):
                    if r[1] == p and r != q:
                        a, b = r[2], r[3]
                        return z3.simplify(zi(val(('hi', p, a, b))) * b + zi(val(('lo', p, a, b))))
                    if r[1] == p:
                        break
                    r = r[1]
            raise Unsupported('reshape index')
        res = []
        for j, a in enumerate(t.axes):
            res.append(tuple(val((j, q)) if not (not z3.is_expr(f) and f == 1) else z3.IntVal(0)
                             for q, f in enumerate(a)))
        return res

    def inv(pidx):
        res = []

        def val(p):
            if isinstance(p[0], str):
                base = val(p[1])
                return z3.simplify(zi(base) / p[3] if p[0] == 'hi' else zi(base) % p[3])
            return pidx[p[0]][p[1]]
        for ax, ps in zip(axes, srcs):
            res.append(tuple(val(p) for p in ps) or (z3.IntVal(0),))
        return z3.BoolVal(True), res
    return t._view(axes, fwd, inv)


def _split_symbolic(work, d, take):
    return None


def transpose(t, axes=None):
    n = t.ndim
    p = list(range(n))[::-1] if axes is None else [int(a) % n for a in axes]
    if sorted(p) != list(range(n)):
        raise ValueError("axes don't match array")
    new = [t.axes[k] for k in p]

    def fwd(idx):
        out = [None] * n
        for j, k in enumerate(p):
            out[k] = idx[j]
        return out

    def inv(pidx):
        return z3.BoolVal(True), [pidx[k] for k in p]
    r = t._view(new, fwd, inv)
    if _bridge_on() and n in (1, 2):
        from . import bridge
        bridge.note(r, 'T' if p == [1, 0] else 'same', t)
    return r


def rollaxis(t, axis, start=0):
    n = t.ndim
    axis = int(axis) % n
    start = int(start)
    if start < 0:
        start += n
    if axis < start:
        start -= 1
    p = list(range(n))
    p.remove(axis)
    p.insert(start, axis)
    return transpose(t, p)


def moveaxis(t, s, d):
    n = t.ndim
    s, d = int(s) % n, int(d) % n
    p = [i for i in range(n) if i != s]
    p.insert(d, s)
    return transpose(t, p)


def concatenate(ts, axis=0):
    from .seq import VList
    if isinstance(ts, VList):
        ts = ts.items()
    ts = [as_tensor(t) for t in ts]
    n = ts[0].ndim
    axis = int(axis) % n
    kind = 'r' if any(t.kind == 'r' for t in ts) else ts[0].kind
    sizes = [dprod(t.axes[axis]) for t in ts]
    offs = [0]
    for s in sizes:
        offs.append(dim(zi(offs[-1]) + zi(s)))
    for t in ts:
        if t.ndim != n:
            raise ValueError('all the input array dimensions must match')
    axes = []
    for j in range(n):
        if j == axis:
            axes.append((offs[-1],))
        else:
            a = ts[0].axes[j]
            for t in ts[1:]:
                if unify_axis(a, t.axes[j]) is None:
                    if deq(dprod(a), dprod(t.axes[j])):
                        if len(t.axes[j]) > len(a):
                            a = t.axes[j]
                    elif ctx().sat(zi(dprod(a)) == zi(dprod(t.axes[j]))) == z3.unsat:
                        raise ValueError('all the input array dimensions except for the concatenation axis must match')
                    else:
                        raise Unsupported('concatenate factorisation')
            axes.append(a)
    es = []
    for t in ts:
        ta = [axes[j] if j != axis else t.axes[axis] for j in range(n)]
        es.append(pick(t, ta))

    def elem(idx):
        i = zi(idx[axis][0])
        r = None
        for k in range(len(ts) - 1, -1, -1):
            lo = zi(offs[k])
            g = z3.simplify(z3.And(i >= lo, i < zi(offs[k + 1])))
            if r is not None and z3.is_false(g):
                continue
            sub = list(idx)
            sub[axis] = STensor._split(ts[k].axes[axis], z3.simplify(i - lo))
            v = es[k](sub)
            if kind == 'r':
                v = zreal(v)
            if z3.is_true(g):
                return v
            r = v if r is None else z3.If(i < zi(offs[k + 1]), v, r)
        return r
    return STensor(axes, elem, kind)


def tile(t, reps):
    t = as_tensor(t)
    if isinstance(reps, (int, SInt)):
        reps = (reps,)
    reps = [dim(r) for r in reps]
    while len(reps) < t.ndim:
        reps.insert(0, 1)
    while t.ndim < len(reps):
        t = index(t, (None,), view=True)
    axes, plan = [], []
    for a, r in zip(t.axes, reps):
        if not z3.is_expr(r) and r == 1:
            axes.append(a)
            plan.append('same')
        else:
            axes.append(((r,) if is1(a) else (r,) + tuple(a)))
            plan.append('rep1' if is1(a) else 'rep')
    e = t.frozen()

    def elem(idx):
        out = []
        for p, i, a in zip(plan, idx, t.axes):
            if p == 'same':
                out.append(i)
            elif p == 'rep1':
                out.append(tuple(z3.IntVal(0) for _ in a))
            else:
                out.append(tuple(i[1:]))
        return e(out)
    r = STensor(axes, elem, t.kind)
    return r


# ------------------------------------------------------------ reductions
def _axes(t, axis):
    if axis is None:
        return list(range(t.ndim))
    if isinstance(axis, (tuple, list)):
        return sorted(int(a) % t.ndim for a in axis)
    a = int(axis)
    if not -t.ndim <= a < t.ndim:
        raise ValueError('axis out of bounds')
    return [a % t.ndim]


def reduce_sum(t, axis=None, keepdims=False, weight=None):
    t = as_tensor(t)
    red = _axes(t, axis)
    e = t.frozen()
    keep = [j for j in range(t.ndim) if j not in red]
    axes = [t.axes[j] for j in keep] if not keepdims else [t.axes[j] if j in keep else (1,) for j in range(t.ndim)]

    def elem(idx):
        fix = {}
        if keepdims:
            for j in keep:
                fix[j] = idx[j]
        else:
            for j, i in zip(keep, idx):
                fix[j] = i
        facs = [(j, q, f) for j in red for q, f in enumerate(t.axes[j])]

        def rec(m, vals):
            if m == len(facs):
                src = []
                for j in range(t.ndim):
                    if j in fix:
                        src.append(fix[j])
                    else:
                        src.append(tuple(vals[(j, q)] for q in range(len(t.axes[j]))))
                v = e(src)
                return zreal(v if v.sort() != BOOL else wrap(v))
            j, q, f = facs[m]
            return sums.mk_sum(f, lambda b: rec(m + 1, dict(vals, **{}) | {(j, q): b}))
        return rec(0, {})
    kind = 'r'
    if t.kind in ('i', 'b'):
        # integer sums are kept as reals with integer value
        kind = 'r'
    r = STensor(axes, elem, kind)
    return r if axes else wrap(r.at([]))


def reduce_mean(t, axis=None, keepdims=False):
    t = as_tensor(t)
    red = _axes(t, axis)
    n = dprod([f for j in red for f in t.axes[j]])
    s = reduce_sum(t, axis, keepdims)
    d = z3.ToReal(zi(n)) if z3.is_expr(n) else z3.RealVal(n)
    if not z3.is_expr(n) and n == 0:
        raise Unsupported('mean of empty')
    if isinstance(s, STensor):
        return umap(lambda x: rdiv(x, d), s, 'r')
    return wrap(rdiv(zreal(s), d))


def reduce_std(t, axis=None):
    t = as_tensor(t)
    m = reduce_mean(t, axis, keepdims=True) if axis is not None else reduce_mean(t)
    d = t - m
    v = reduce_mean(d * d, axis)
    if isinstance(v, STensor):
        return umap(lambda x: rsqrt(x), v, 'r')
    return wrap(rsqrt(zreal(v)))


def reduce_op(op, t, axis=None, keepdims=False):
    t = as_tensor(t)
    red = _axes(t, axis)
    e = t.frozen()
    keep = [j for j in range(t.ndim) if j not in red]
    axes = [t.axes[j] for j in keep] if not keepdims else [t.axes[j] if j in keep else (1,) for j in range(t.ndim)]
    rk = t.kind

    def elem(idx):
        fix = dict(zip(keep, idx)) if not keepdims else {j: idx[j] for j in keep}
        facs = [(j, q, f) for j in red for q, f in enumerate(t.axes[j])]
        conc = all(not z3.is_expr(f) for _, _, f in facs)

        def body(vals):
            src = []
            for j in range(t.ndim):
                if j in fix:
                    src.append(fix[j])
                else:
                    src.append(tuple(vals[(j, q)] for q in range(len(t.axes[j]))))
            return e(src)
        if conc and dprod([f for _, _, f in facs]) <= 16 and op in ('max', 'min', 'any', 'all'):
            import itertools
            vs = [body({(j, q): z3.IntVal(x) for (j, q, _), x in zip(facs, xs)})
                  for xs in itertools.product(*[range(f) for _, _, f in facs])]
            if op == 'any':
                return z3.Or(*[zbool(wrap(v)) for v in vs])
            if op == 'all':
                return z3.And(*[zbool(wrap(v)) for v in vs])
            vs = [zreal(wrap(v)) for v in vs]
            r = vs[0]
            for v in vs[1:]:
                r = z3.If(v > r, v, r) if op == 'max' else z3.If(v < r, v, r)
            return r
        r = sums.mk_red_multi(op, [zi(f) for _, _, f in facs],
                              lambda bs: zreal(wrap(body({(j, q): b for (j, q, _), b in zip(facs, bs)}))))
        if op in ('any', 'all'):
            return r != 0
        return r
    r = STensor(axes, elem, 'b' if op in ('any', 'all') else 'r')
    return r if axes else wrap(r.at([]))


# ------------------------------------------------------------ products
def einsum(spec, *ts):
    spec = spec.replace(' ', '')
    ts = [as_tensor(t) for t in ts]
    if '->' in spec:
        lhs, rhs = spec.split('->')
    else:
        lhs = spec
        allc = lhs.replace(',', '')
        rhs = ''.join(sorted(ch for ch in set(allc) if allc.count(ch) == 1))
    ins = lhs.split(',')
    if '...' in spec:
        letters = [ch for ch in 'ZYXWVUTS']
        # expand the ellipsis by broadcasting dims
        nell = max(t.ndim - len(s.replace('...', '')) for s, t in zip(ins, ts) if '...' in s)
        el = ''.join(letters[:nell])
        new = []
        for s, t in zip(ins, ts):
            if '...' in s:
                k = t.ndim - len(s.replace('...', ''))
                new.append(s.replace('...', el[nell - k:]))
            else:
                new.append(s)
        ins = new
        rhs = rhs.replace('...', el) if '->' in spec else el + rhs.replace('...', '')
    if len(ins) != len(ts):
        raise ValueError('einsum operands')
    dims_ = {}
    for s, t in zip(ins, ts):
        if len(s) != t.ndim:
            raise ValueError('einstein sum subscripts string contains too many/few subscripts for operand')
        for ch, a in zip(s, t.axes):
            if ch in dims_:
                if is1(dims_[ch]) and not is1(a):
                    dims_[ch] = a
                elif is1(a):
                    pass
                elif unify_axis(dims_[ch], a) is None:
                    if deq(dprod(dims_[ch]), dprod(a)):
                        if len(a) > len(dims_[ch]):
                            dims_[ch] = a
                    elif ctx().sat(zi(dprod(dims_[ch])) == zi(dprod(a))) == z3.unsat:
                        raise ValueError('operands could not be broadcast together')
                    else:
                        raise Unsupported('einsum axis %s: %s vs %s' % (ch, dims_[ch], a))
            else:
                dims_[ch] = a
    for ch in rhs:
        if ch not in dims_:
            raise ValueError('einstein sum subscripts string included output subscript not in input')
    if len(set(rhs)) != len(rhs):
        raise ValueError('einstein sum subscripts string includes output subscript multiple times')
    summed = [ch for ch in dims_ if ch not in rhs]
    es = []
    for s, t in zip(ins, ts):
        es.append((s, pick(t, [dims_[ch] for ch in s])))

    def elem(idx):
        env = dict(zip(rhs, idx))
        facs = [(ch, q, f) for ch in summed for q, f in enumerate(dims_[ch])]

        def rec(m, vals):
            if m == len(facs):
                e2 = dict(env)
                for ch in summed:
                    e2[ch] = tuple(vals[(ch, q)] for q in range(len(dims_[ch])))
                r = None
                for s, f in es:
                    v = zreal(wrap(f([e2[ch] for ch in s])))
                    r = v if r is None else r * v
                return r
            ch, q, f = facs[m]
            return sums.mk_sum(f, lambda b: rec(m + 1, dict(vals) | {(ch, q): b}))
        return rec(0, {})
    axes = [dims_[ch] for ch in rhs]
    r = STensor(axes, elem, 'r')
    return r if axes else wrap(r.at([]))


def dot(a, b):
    if _bridge_on() and not isinstance(a, Opq0) and not isinstance(b, Opq0):
        from . import ring, bridge
        if isinstance(a, ring.Mat) or isinstance(b, ring.Mat):
            return bridge.mat(a).dot(bridge.mat(b))
        r = _dot(a, b)
        if isinstance(r, STensor) and r.ndim in (1, 2):
            bridge.note(r, 'dot', as_tensor(a), as_tensor(b))
        return r
    return _dot(a, b)


class Opq0(object):
    pass


def _dot(a, b):
    if hasattr(b, 'spatial') and not hasattr(a, 'spatial'):
        return type(b)(_dot(a, b.re), _dot(a, b.im))
    a, b = as_tensor(a), as_tensor(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    L = 'abcdefgh'
    M = 'ijklmnop'
    sa = L[:a.ndim - 1] + 'z'
    if b.ndim == 1:
        sb, out = 'z', L[:a.ndim - 1]
    else:
        sb = M[:b.ndim - 2] + 'z' + M[b.ndim - 2]
        out = L[:a.ndim - 1] + M[:b.ndim - 2] + M[b.ndim - 2]
    try:
        return einsum('%s,%s->%s' % (sa, sb, out), a, b)
    except ValueError:
        raise ValueError('shapes not aligned')


def matmul(a, b):
    a, b = as_tensor(a), as_tensor(b)
    if a.ndim <= 2 and b.ndim <= 2:
        return dot(a, b)
    if b.ndim == 2:
        return dot(a, b)
    raise Unsupported('batched matmul')


def eye(n, kind='r'):
    n = dim(n)

    def elem(idx):
        g = z3.simplify(zi(idx[0][0]) == zi(idx[1][0]))
        return z3.If(g, z3.RealVal(1), z3.RealVal(0))
    return STensor([(n,), (n,)], elem, 'r')


def trace(t):
    d = t.axes[0]
    e = t.frozen()
    if len(d) != 1:
        raise Unsupported('trace')
    return wrap(sums.mk_sum(d[0], lambda b: zreal(e([(b,), (b,)]))))


LAST_EQ = set()    # names of the index variables of the last tensor_eq


def tensor_eq(a, b, pc_index=True):
    """formula: equal shapes and equal elements at arbitrary indices"""
    a, b = as_tensor(a), as_tensor(b)
    LAST_EQ.clear()
    if a.ndim != b.ndim:
        return z3.BoolVal(False)
    c = ctx()
    gs, idx, rng = [], [], []
    ia, ib = [], []
    for k, (x, y) in enumerate(zip(a.axes, b.axes)):
        if not deq(dprod(x), dprod(y)):
            gs.append(zi(dprod(x)) == zi(dprod(y)))
        fine = x if len(x) >= len(y) else y
        ids = tuple(z3.IntVal(0) if (not z3.is_expr(f) and f == 1) else z3.Int(c.fresh('e%d_%d' % (k, q)))
                    for q, f in enumerate(fine))
        for i, f in zip(ids, fine):
            rng.append(z3.And(i >= 0, i < zi(f)))
            LAST_EQ.add(str(i))
        for ax, lst in ((x, ia), (y, ib)):
            if len(ax) == len(fine):
                lst.append(ids)
            else:
                lst.append(STensor._split(ax, join(ids, fine)))
    if gs:
        return z3.And(*gs)     # shapes not provably equal: report the shape obligation
    va, vb = a.at(ia), b.at(ib)
    if va.sort() != vb.sort():
        va, vb = zreal(wrap(va)), zreal(wrap(vb))
    if va.sort() == REAL:
        va, vb = sums.expand(va), sums.expand(vb)
    g = va == vb
    return z3.Implies(z3.And(*rng), g) if rng else g


def prove_eq(name, a, b, want=('eq', 'sign')):
    """obligation: arrays a and b are equal.  Axes of small concrete extent are
    enumerated, symbolic axes get one arbitrary index."""
    from . import prove as PV
    import itertools
    a, b = as_tensor(a), as_tensor(b)
    c = ctx()
    if a.ndim != b.ndim:
        PV.fail(name, 'rank %d instead of %d' % (a.ndim, b.ndim))
        return False
    for x, y in zip(a.axes, b.axes):
        if not deq(dprod(x), dprod(y)):
            return PV.prove(name, zi(dprod(x)) == zi(dprod(y)))
    choices = []
    for k, (x, y) in enumerate(zip(a.axes, b.axes)):
        fine = x if len(x) >= len(y) else y
        per = []
        for q, f in enumerate(fine):
            if not z3.is_expr(f) and f <= 6:
                per.append([z3.IntVal(v) for v in range(f)])
            else:
                per.append([z3.Int(c.fresh('e%d_%d' % (k, q)))])
        choices.append((fine, list(itertools.product(*per))))
    ok = True
    npc = len(c.pc)
    c.solver.push()
    try:
        for fine, combos in choices:
            for combo in combos:
                for i, f in zip(combo, fine):
                    if not z3.is_int_value(i):
                        r = z3.And(i >= 0, i < zi(f))
                        c.pc.append(r)
                        c.solver.add(r)
        for combo in itertools.product(*[cb for _, cb in choices]):
            ia, ib = [], []
            for ids, (fine, _), x, y in zip(combo, choices, a.axes, b.axes):
                for ax, lst in ((x, ia), (y, ib)):
                    lst.append(ids if len(ax) == len(fine) else STensor._split(ax, join(ids, fine)))
            va, vb = a.at(ia), b.at(ib)
            if va.sort() != vb.sort() or va.sort() == BOOL and vb.sort() != BOOL:
                va, vb = zreal(wrap(va)), zreal(wrap(vb))
            if va.sort() == REAL:
                va, vb = sums.expand(va), sums.expand(vb)
            ok &= PV.prove(name, va == vb, want)
    finally:
        c.solver.pop()
        del c.pc[npc:]
    return ok
