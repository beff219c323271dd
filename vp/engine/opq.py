"""Opaque mutable values: boxes over terms of an uninterpreted sort.

Any operation the contracts say nothing about is a deterministic function of its
operands (an assumed contract on numpy/menpo); arrays are mutable boxes so that
in-place updates and aliases (views) are tracked.
"""
from .core import (z3, V, INT, REAL, BOOL, ctx, Unsupported, SInt, SReal, SBool, SBase, wrap,
                   zreal, zint, zbool, _isnum, to_frac)
from . import core
import numpy as _np

_UF = {}


def uf(name, argsorts, ret):
    key = name + '/' + ','.join(s.name() for s in argsorts) + '>' + ret.name()
    if key not in _UF:
        _UF[key] = z3.Function(key, *(list(argsorts) + [ret]))
    return _UF[key]


_ofint = z3.Function('ofInt', INT, V)
_ofreal = z3.Function('ofReal', REAL, V)
_ofbool = z3.Function('ofBool', BOOL, V)
_toreal = z3.Function('toReal', V, REAL)
_tobool = z3.Function('toBool', V, BOOL)
_consts = {}
_identity = {}


def const(name):
    if name not in _consts:
        _consts[name] = z3.Const('c:' + name, V)
    return _consts[name]


def enc(x):
    """encode any value as a term of sort Val"""
    from .seq import VList
    if isinstance(x, Opq):
        return x.t
    if isinstance(x, SInt):
        return _ofint(x.t)
    if isinstance(x, SReal):
        return _ofreal(x.t)
    if isinstance(x, SBool):
        return _ofbool(x.t)
    if hasattr(x, '__enc__'):
        return x.__enc__()
    if x is None:
        return const('None')
    if isinstance(x, (bool, _np.bool_)):
        return _ofbool(z3.BoolVal(bool(x)))
    if isinstance(x, (int, _np.integer)):
        return _ofint(z3.IntVal(int(x)))
    if isinstance(x, (float, _np.floating)):
        if x != x or x in (float('inf'), float('-inf')):
            return const('float:%r' % float(x))
        return _ofreal(to_frac(x))
    if isinstance(x, str):
        return const('str:' + x)
    if isinstance(x, (tuple, list)):
        return mk('tuple%d' % len(x), *[enc(e) for e in x])
    if isinstance(x, VList):
        if x.concrete():
            return mk('tuple%d' % len(x.items()), *[enc(e) for e in x.items()])
        return x.encode()
    if isinstance(x, slice):
        return mk('slice', enc(x.start), enc(x.stop), enc(x.step))
    if x is Ellipsis:
        return const('Ellipsis')
    if isinstance(x, dict):
        return mk('dict%d' % len(x), *[e for k, v in sorted(x.items(), key=lambda kv: str(kv[0]))
                                       for e in (enc(k), enc(v))])
    if isinstance(x, _np.ndarray):
        return const('nd:%s:%s:%s' % (x.dtype, x.shape, x.tobytes().hex()[:400]))
    if isinstance(x, type) or callable(x):
        nm = getattr(x, '__qualname__', None) or getattr(x, '__name__', None)
        if nm and '<locals>' not in nm and '<lambda>' not in nm:
            return const('fn:%s.%s' % (getattr(x, '__module__', ''), nm))
    # identity
    k = id(x)
    if k not in _identity:
        _identity[k] = (const('obj:%d' % len(_identity)), x)
    return _identity[k][0]


def mk(name, *terms):
    return uf(name, [t.sort() for t in terms], V)(*terms) if terms else const(name)


def app(name, *args):
    return Opq(mk(name, *[enc(a) for a in args]))


def app_real(name, *args):
    ts = [enc(a) for a in args]
    return SReal(uf(name, [t.sort() for t in ts], REAL)(*ts))


def app_int(name, *args):
    ts = [enc(a) for a in args]
    return SInt(uf(name, [t.sort() for t in ts], INT)(*ts))


def app_bool(name, *args):
    ts = [enc(a) for a in args]
    return wrap(uf(name, [t.sort() for t in ts], BOOL)(*ts))


class Opq(object):
    """mutable box"""
    __array_priority__ = 2000
    __array_ufunc__ = None
    _slots = ('_t', '_parent', '_view', '_tag', '_ver')

    def __init__(self, t, parent=None, view=None, tag=None):
        d = object.__setattr__
        d(self, '_t', t)
        d(self, '_parent', parent)
        d(self, '_view', view)
        d(self, '_tag', tag)

    @property
    def t(self):
        if self._parent is not None:
            name, args = self._view
            return mk(name, self._parent.t, *args)
        return self._t

    def _set(self, t):
        if self._parent is not None:
            name, args = self._view
            self._parent._set(mk('upd_' + name, self._parent.t, t, *args))
        else:
            object.__setattr__(self, '_t', t)
            c = core.CTX
            if c is not None:
                c.events.append(('mutated', self))

    def __enc__(self):
        return self.t

    def __repr__(self):
        return '<Opq %s>' % (self.t,)

    def __copy__(self):
        return Opq(self.t)

    def __deepcopy__(self, memo):
        return Opq(self.t)

    def copy(self):
        return Opq(self.t)

    def view(self, name, *args):
        return Opq(None, parent=self, view=(name, [enc(a) for a in args]))

    def __hash__(self):
        return id(self)

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        if k in ('T', 'flat'):
            return self.view('attr_' + k)
        if k in _INT_ATTR:
            return app_int('attr_' + k, self)
        if k in _REAL_METH or k in _METH or k in MUTATORS:
            return _Method(self, k)
        if k == 'shape':
            return OShape(self)
        return _Lazy(self, k)

    def __setattr__(self, k, v):
        self._set(mk('setattr_' + k, self.t, enc(v)))

    def __getitem__(self, k):
        if isinstance(k, slice) or k is Ellipsis or (isinstance(k, tuple) and any(
                isinstance(e, slice) or e is Ellipsis or e is None for e in k)):
            return self.view('getitem', k)
        return self.view('getitem', k)

    def __setitem__(self, k, v):
        self._set(mk('setitem', self.t, enc(k), enc(v)))

    def __iter__(self):
        raise Unsupported('iteration over an opaque value')

    def __len__(self):
        raise Unsupported('len of opaque value')

    def __vlen__(self):
        n = uf('len', [V], INT)(self.t)
        ctx().assume(n >= 0)
        return wrap(n)

    def __bool__(self):
        return ctx().branch(_tobool(self.t))

    def __as_real__(self):
        return _toreal(self.t)

    def __vite__(self, c, b):
        return Opq(z3.If(c, self.t, enc(b)))

    def __call__(self, *a, **k):
        return app('call', self, *_flat(a, k))

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return app('eq', self, o)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return app('ne', self, o)


_INT_ATTR = {'n_points', 'n_dims', 'n_parameters', 'n_active_components', 'n_features', 'n_channels',
             'ndim', 'size', 'n_components', 'n_landmarks', 'n_elements', 'n_samples'}
_METH = {'dot', 'as_vector', 'apply', 'ravel', 'reshape', 'flatten', 'transpose', 'astype', 'mean', 'sum',
         'from_vector', 'project', 'instance', 'project_out', 'pseudoinverse', 'compose_before',
         'compose_after', 'as_unmasked', 'tolil', 'tobsr', 'max', 'min', 'conj', 'copy', 'squeeze', 'range',
         'norm', 'reconstruct', 'mahalanobis_distance'}
_REAL_METH = set()
MUTATORS = {'fill', 'sort', 'set_target', '_from_vector_inplace', 'from_vector_inplace'}


def _flat(a, k):
    out = list(a)
    for key in sorted(k):
        out.append('kw:' + key)
        out.append(k[key])
    return out


class _Method(object):
    def __init__(self, box, k):
        self.box, self.k = box, k

    def __call__(self, *a, **kw):
        k = self.k
        if k in MUTATORS:
            self.box._set(mk('after_' + k, self.box.t, *[enc(x) for x in _flat(a, kw)]))
            return None
        if k == 'copy':
            return Opq(self.box.t)
        if k in ('ravel', 'reshape', 'transpose', 'squeeze'):
            return self.box.view('m_' + k, *_flat(a, kw))
        return app('m_' + k, self.box, *_flat(a, kw))


class _Lazy(Opq):
    """attribute of an opaque value: a value, or a method when called"""

    def __init__(self, box, k):
        Opq.__init__(self, None, parent=box, view=('attr_' + k, []), tag=k)

    def __call__(self, *a, **kw):
        return app('m_' + self._tag, self._parent, *_flat(a, kw))


class OShape(object):
    def __init__(self, box):
        self.box = box

    def __getitem__(self, k):
        if isinstance(k, slice):
            return app('shape_slice', self.box, k)
        n = uf('dim', [V, V], INT)(self.box.t, enc(k))
        ctx().assume(n >= 0)
        return wrap(n)

    def __enc__(self):
        return mk('attr_shape', self.box.t)

    def __iter__(self):
        raise Unsupported('iteration over an opaque shape')

    def __add__(self, o):
        return app('add', Opq(self.__enc__()), o)

    def __radd__(self, o):
        return app('add', o, Opq(self.__enc__()))


def _binop(name):
    def f(self, o):
        return app(name, self, o)

    def r(self, o):
        return app(name, o, self)

    def i(self, o):
        self._set(mk(name, self.t, enc(o)))
        return self
    return f, r, i


for _n in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow', 'matmul', 'and', 'or', 'xor'):
    _f, _r, _i = _binop(_n)
    setattr(Opq, '__%s__' % _n, _f)
    setattr(Opq, '__r%s__' % _n, _r)
    setattr(Opq, '__i%s__' % _n, _i)


def _zero(o):
    return _isnum(o) and o == 0


def _add(self, o):
    if _zero(o):
        return Opq(self.t)
    return app('add', *sorted((self, o), key=lambda v: enc(v).sexpr()))


Opq.__add__ = _add
Opq.__radd__ = _add
Opq.__neg__ = lambda self: app('neg', self)
Opq.__abs__ = lambda self: app('abs', self)


def _iadd(self, o):
    self._set(_add(self, o).t)
    return self


Opq.__iadd__ = _iadd
for _n in ('lt', 'le', 'gt', 'ge'):
    def _mkc(n):
        def c(self, o):
            return app(n, self, o)
        return c
    setattr(Opq, '__%s__' % _n, _mkc(_n))


def opq(name):
    return Opq(z3.Const(name, V))


def same(a, b):
    """formula: values a and b are equal as abstract values"""
    if isinstance(a, (SReal, SInt)) or isinstance(b, (SReal, SInt)):
        if (isinstance(a, SBase) or _isnum(a)) and (isinstance(b, SBase) or _isnum(b)):
            return core.zreal(a) == core.zreal(b)
    return enc(a) == enc(b)
