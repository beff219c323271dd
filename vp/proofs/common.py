"""Contract units: registration, running, shared contracts of dependencies."""
import os
import time
import traceback
from ..engine import core, prove as PV, tensor as T, sums, shim, loops
from ..engine.core import (z3, ctx, Unsupported, SInt, SReal, SBool, wrap, zint, zreal, zbool, sint, sreal, sbool,
                           explore, Report, INT, REAL, BOOL, V, rdiv, rsqrt)
from ..engine.seq import VList, VTuple, Seg, as_vlist, slist
from ..engine.opq import Opq, app, app_real, app_int, app_bool, enc, opq, same
from ..engine.tensor import STensor, fresh, prove_eq, tensor_eq
from ..engine.prove import prove, provable, fail, cover
from ..engine.loader import World, Stub
from ..engine.loops import equal_values, subst
import numpy as np

UNITS = {}


class Unit(object):
    def __init__(self, pid, name, fn, functions, assumes, budget, max_paths, critical):
        self.pid, self.name, self.fn = pid, name, fn
        self.functions, self.assumes, self.budget, self.max_paths = functions, assumes, budget, max_paths


def unit(pid, name, functions=(), assumes=(), budget=60, max_paths=300):
    def deco(fn):
        UNITS.setdefault(pid, []).append(Unit(pid, name, fn, list(functions), list(assumes), budget, max_paths, True))
        return fn
    return deco


class UnitResult(object):
    def __init__(self, u):
        self.unit = u
        self.status = 'proved'     # proved | failed | undecided
        self.reason = ''
        self.obl = []
        self.paths = 0
        self.secs = 0.0


def run_unit(u, deadline=None):
    rep = Report()
    t0 = time.time()
    dl = t0 + u.budget
    if deadline:
        dl = min(dl, deadline)
    r = UnitResult(u)
    try:
        explore(u.fn, rep, max_paths=u.max_paths, deadline=dl)
    except Unsupported as e:
        r.status, r.reason = 'undecided', 'outside the verifier: %s' % e
        if os.environ.get('VP_DEBUG'):
            traceback.print_exc()
    except AssertionError:
        r.status, r.reason = 'undecided', traceback.format_exc()[-600:]
    except Exception as e:
        r.status, r.reason = 'undecided', 'exception %s' % traceback.format_exc()[-1500:]
    r.secs = time.time() - t0
    r.paths = rep.paths
    for k in rep.order:
        o = rep.obl[k]
        r.obl.append(dict(name='%s/%s' % (u.name, o['name']), status=o['status'], vcs=o['vcs'],
                          backends=sorted(o['backends']), secs=round(o['secs'], 3), detail=o['detail'][:1500]))
    if r.status == 'proved':
        if not r.obl:
            r.status, r.reason = 'undecided', 'no obligation generated'
        elif any(o['status'] == 'failed' for o in r.obl):
            r.status = 'failed'
            r.reason = '; '.join(o['name'] + ' :: ' + o['detail'][:200] for o in r.obl if o['status'] == 'failed')
        elif any(o['status'] == 'unknown' for o in r.obl):
            r.status = 'undecided'
            r.reason = '; '.join(o['name'] + ' :: ' + o['detail'][:200] for o in r.obl if o['status'] == 'unknown')
    return r


def expect_raises(name, exc, f):
    try:
        f()
    except exc:
        prove(name, True)
        return
    fail(name, 'no %s raised' % exc.__name__)


class Frame(object):
    """frame condition: tensors keep their content"""

    def __init__(self, **ts):
        self.ts = {k: (t, t.frozen(), t.version()) for k, t in ts.items()}

    def check(self, name='arguments unmodified'):
        for k, (t, e, v) in self.ts.items():
            if t.version() == v:
                prove(name, True)
            else:
                prove_eq('%s (%s)' % (name, k), t, STensor(t.axes, e, t.kind))


class Tok(object):
    """arbitrary python object; its membership in the given types is arbitrary too"""
    __vatomic__ = True

    def __init__(self, t, kinds=None, callable_=None):
        self.t, self.kinds, self.c = t, kinds or {}, callable_

    def __enc__(self):
        return self.t

    def __vite__(self, c, b):
        return Tok(z3.If(c, self.t, enc(b)), self.kinds, self.c)

    def __vsubst__(self, pairs):
        return Tok(z3.substitute(self.t, *pairs), self.kinds, self.c)

    def __visinst__(self, t):
        if t in self.kinds:
            p = self.kinds[t]
            return wrap(p(self.t)) if not isinstance(p, bool) else p
        return t is object

    def __vcallable__(self):
        if self.c is None:
            return False
        return self.c if isinstance(self.c, bool) else wrap(self.c(self.t))


def tok(name, kinds=None, callable_=None):
    return Tok(z3.Const(name, V), kinds, callable_)


def toklist(name, n, kinds=None, callable_=None, tup=False):
    f = z3.Function(name, INT, V)
    return slist(name, n, lambda i: Tok(f(i), kinds, callable_), tup=tup)


def pred(name):
    return z3.Function(name, V, BOOL)


def list_eq(name, a, b):
    prove(name, equal_values(a, b))


def repl(x, n):
    """specification: n copies of x"""
    n = n.t if isinstance(n, SInt) else z3.IntVal(n)
    return VList(segs=[Seg(n, lambda i: x)])


def outcome(f, *excs):
    """('ok', value) or ('raised', exception)"""
    try:
        return 'ok', f()
    except excs as e:
        return 'raised', e


# ------------------------------------------------------------ menpo contracts
class SPointCloud(object):
    """contract of menpo.shape.PointCloud"""
    __vtrusted__ = 'menpo.shape.PointCloud: points container; copy() is deep, from_vector/as_vector are C-order ' \
                   'reshapes of points'

    def __init__(self, points, copy=True):
        if isinstance(points, (list, VList)):
            points = T.as_tensor(points)
        self.points = points.copy() if (copy and hasattr(points, 'copy')) else points
        self.landmarks = {}

    @property
    def n_points(self):
        return self.points.shape[0]

    @property
    def n_dims(self):
        return self.points.shape[1]

    @property
    def n_parameters(self):
        return self.points.size

    def copy(self):
        r = object.__new__(type(self))
        r.__dict__.update(self.__dict__)
        r.points = self.points.copy()
        return r

    __copy__ = copy

    def as_vector(self, **k):
        return self.points.copy().ravel()

    def from_vector(self, v):
        r = self.copy()
        r._from_vector_inplace(v)
        return r

    def _from_vector_inplace(self, v):
        v = T.as_tensor(v)
        self.points = v.reshape((-1, self.n_dims)) if len(self.points.axes[1]) == 1 else \
            v.reshape(tuple(T.Composite(list(a)) for a in self.points.axes))

    def from_vector_inplace(self, v):
        self._from_vector_inplace(v)

    def _transform(self, f):
        r = self.copy()
        r.points = f(self.points)
        return r

    def centre(self):
        return T.reduce_mean(self.points, 0)

    def norm(self, **k):
        return shim.np_norm(self.points - T.reduce_mean(self.points, 0))

    def bounds(self, boundary=0):
        return (T.reduce_op('min', self.points, 0) - boundary, T.reduce_op('max', self.points, 0) + boundary)

    def range(self, boundary=0):
        a, b = self.bounds(boundary)
        return b - a

    def __enc__(self):
        raise Unsupported('PointCloud as an opaque value')

    def __veq__(self, o):
        return T.tensor_eq(self.points, o.points)


def axes_of(*ds):
    return [(d.t if isinstance(d, SInt) else d,) for d in ds]


def pts(name, n, d):
    return fresh(name, axes_of(n, d))


def ssum(n, f):
    """spec-level sum over 0 <= i < n"""
    n = n.t if isinstance(n, SInt) else n
    return sums.mk_sum(n, f)


def at(t, *idx):
    return zreal(wrap(t.get(*[i if z3.is_expr(i) else z3.IntVal(i) for i in idx])))


def val(x):
    """z3 real term of a scalar result"""
    if isinstance(x, STensor):
        if x.ndim:
            raise Unsupported('scalar expected')
        return zreal(wrap(x.at([])))
    return zreal(x)


MENPO_SHAPE = {'PointCloud': SPointCloud}
