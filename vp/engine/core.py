"""pyvc core: symbolic scalars, path exploration, obligations.

Every symbolic scalar is a z3 term (Int, Real, Bool).  Code under verification
is the real source of menpofit executed by CPython on these values; a branch on
a symbolic condition forks the path (by re-execution with a decision trace).
Floating point is treated as mathematical reals (stated assumption).
"""
import sys
import time
import fractions

_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _VT not in sys.path:
    sys.path.append(_VT)
import z3  # noqa: E402
import numpy as _np  # noqa: E402

z3.set_param('smt.random_seed', 1)


class Unsupported(BaseException):
    """The construct is outside the verifier's reach (never a violation)."""


class PathEnd(BaseException):
    """End of a path that proves a loop body and does not continue."""


class Restart(BaseException):
    """Loop knowledge changed: re-run the path."""


class Infeasible(BaseException):
    pass


V = z3.DeclareSort('Val')

REAL, INT, BOOL = z3.RealSort(), z3.IntSort(), z3.BoolSort()


class Ctx(object):
    def __init__(self, decisions, knowledge, report):
        self.decisions = list(decisions)
        self.pos = 0
        self.loose = False
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set('timeout', 4000)
        self.counter = {}
        self.heaps = {}
        self.exits = []
        self.open = []       # numbers of the iterations being executed, outermost first
        self.pending = []
        self.knowledge = knowledge
        self.report = report
        self.loop_stack = []
        self.loop_ordinal = 0
        self.alloc = 0
        self.merge_depth = 0
        self.axioms = []
        self.events = []
        self.extra = {}
        self.definitional = []
        self.obls = []
        self.local = []
        self.merging = 0

    def fresh(self, base):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return '%s!%d' % (base, n)

    def assume(self, c):
        c = z3.simplify(c) if z3.is_expr(c) else z3.BoolVal(bool(c))
        if z3.is_true(c):
            return
        self.pc.append(c)
        self.solver.add(c)

    def sat(self, c):
        self.solver.push()
        self.solver.add(c)
        r = self.solver.check()
        self.solver.pop()
        return r

    def must(self, c):
        """pc |- c, quickly"""
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return self.solver.check() == z3.unsat
        return self.sat(z3.Not(c)) == z3.unsat

    def branch(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        can_t = self.sat(c) != z3.unsat
        can_f = self.sat(z3.Not(c)) != z3.unsat
        if can_t and not can_f:
            return True
        if can_f and not can_t:
            return False
        if not can_t and not can_f:
            raise Infeasible()
        if self.local:
            fr = self.local[-1]
            if fr['pos'] < len(fr['dec']):
                d = fr['dec'][fr['pos']]
            else:
                d = True
                fr['pending'].append(fr['dec'][:fr['pos']] + [False])
                fr['dec'].append(True)
            fr['pos'] += 1
            fr['conds'].append(c if d else z3.Not(c))
            self.assume(c if d else z3.Not(c))
            return d
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
        else:
            d = True
            self.pending.append(self.decisions[:self.pos] + [False])
            self.decisions.append(True)
        self.pos += 1
        self.assume(c if d else z3.Not(c))
        return d

    def nondet(self, base='nd'):
        return self.branch(z3.Bool(self.fresh(base)))


CTX = None
TRACE = bool(__import__('os').environ.get('VP_TRACE'))


def merge_eval(f, assume=(), max_paths=40):
    """evaluate f() exploring its branches locally and merging the values with ite;
    the assumptions hold during the evaluation only"""
    c = ctx()
    stack = [[]]
    outs = []
    while stack:
        dec = stack.pop()
        if len(outs) > max_paths:
            raise Unsupported('too many local paths')
        fr = dict(dec=list(dec), pos=0, pending=[], conds=[])
        n0 = len(c.pc)
        c.solver.push()
        c.local.append(fr)
        try:
            for a in assume:
                c.assume(a)
            try:
                v = f()
                outs.append((fr['conds'], v))
            except Infeasible:
                pass
            except (PathEnd, Restart):
                raise Unsupported('loop inside a comprehension')
            except Unsupported:
                raise
            except Exception as e:
                raise Unsupported('exception inside a symbolic comprehension: %r' % (e,))
        finally:
            c.local.pop()
            c.solver.pop()
            del c.pc[n0:]
        stack.extend(fr['pending'])
    if not outs:
        raise Infeasible()
    val = outs[-1][1]
    c.merging += 1
    try:
        for conds, v in reversed(outs[:-1]):
            val = ite(z3.And(*conds) if conds else z3.BoolVal(True), v, val)
    finally:
        c.merging -= 1
    return val


def ctx():
    if CTX is None:
        raise Unsupported('no active path')
    return CTX


class PathResult(object):
    def __init__(self, c, value=None, exc=None):
        self.ctx, self.value, self.exc = c, value, exc


class Report(object):
    """Obligations of one property, aggregated by name over paths."""

    def __init__(self):
        self.obl = {}
        self.order = []
        self.paths = 0
        self.solver_s = 0.0
        self.unsupported = []
        self.functions = set()
        self.assumptions = set()
        self.cur = None

    def record(self, name, status, backend='', secs=0.0, detail=''):
        if self.cur:
            name = self.cur + ':' + name
        o = self.obl.get(name)
        if o is None:
            o = self.obl[name] = dict(name=name, vcs=0, status='proved',
                                      backends=set(), secs=0.0, detail='')
            self.order.append(name)
        o['vcs'] += 1
        o['secs'] += secs
        self.solver_s += secs
        if backend:
            o['backends'].add(backend)
        rank = {'proved': 0, 'unknown': 1, 'failed': 2}
        if rank[status] > rank[o['status']]:
            o['status'] = status
            o['detail'] = detail


def explore(fn, report, max_paths=400, deadline=None):
    """Run fn on every feasible path.  Yields PathResult."""
    global CTX
    stack = [[]]
    n = 0
    knowledge = {}
    restarts = 0
    out = []
    while stack:
        dec = stack.pop()
        n += 1
        if n > max_paths:
            raise Unsupported('more than %d paths' % max_paths)
        if deadline and time.time() > deadline:
            raise Unsupported('time budget of the function exhausted')
        c = Ctx(dec, knowledge, report)
        prev, CTX = CTX, c
        try:
            try:
                v = fn()
                res = PathResult(c, value=v)
            except PathEnd:
                res = PathResult(c, value=PathEnd)
            except Infeasible:
                res = None
            except Restart:
                restarts += 1
                knowledge.pop('again', None)
                if restarts > 250:
                    raise Unsupported('loop invariant inference diverged')
                # knowledge changed: previous results may rely on it
                stack = [[]]
                n = 0
                out = []
                continue
            except Unsupported:
                raise
            except (RecursionError, MemoryError):
                raise Unsupported('resource limit')
        finally:
            CTX = prev
        if res is not None:
            # a path whose assumptions contradict each other proves nothing
            if c.solver.check() != z3.unsat:
                out.append(res)
        stack.extend(c.pending)
        again = None if stack else knowledge.pop('again', None)
        if again == 'may' and all(o[1] == 'proved' for r in out for o in r.ctx.obls):
            again = None
        if again:
            restarts += 1
            if restarts > 250:
                raise Unsupported('loop invariant inference diverged')
            stack, n, out = [[]], 0, []
    report.paths += n
    for r in out:
        for o in r.ctx.obls:
            if o[1] == 'failed' and (knowledge.get('weak') or r.ctx.loose):
                # an invariant was given up for lack of time, or the contents of an array or a
                # list are not described after a loop: no refutation
                o = (o[0], 'unknown') + tuple(o[2:])
            report.record(*o)
    return out


# ---------------------------------------------------------------- scalars
def is_sym(x):
    return isinstance(x, (SInt, SReal, SBool))


def to_frac(x):
    if isinstance(x, (bool, _np.bool_)):
        return z3.RealVal(int(x))
    if isinstance(x, (int, _np.integer)):
        return z3.RealVal(int(x))
    if isinstance(x, (float, _np.floating)):
        x = float(x)
        if x != x or x in (float('inf'), float('-inf')):
            raise Unsupported('non finite constant')
        f = fractions.Fraction(repr(x)) if 'e' not in repr(x) and 'E' not in repr(x) \
            else fractions.Fraction(x).limit_denominator(10 ** 30)
        return z3.RealVal(str(f))
    if isinstance(x, fractions.Fraction):
        return z3.RealVal(str(x))
    raise Unsupported('not a number: %r' % type(x))


def zreal(x):
    if isinstance(x, SReal):
        return x.t
    if isinstance(x, SInt):
        return z3.ToReal(x.t)
    if isinstance(x, SBool):
        return z3.If(x.t, z3.RealVal(1), z3.RealVal(0))
    if z3.is_expr(x):
        if x.sort() == REAL:
            return x
        if x.sort() == INT:
            return z3.ToReal(x)
        if x.sort() == BOOL:
            return z3.If(x, z3.RealVal(1), z3.RealVal(0))
        raise Unsupported('not a real term')
    if hasattr(x, '__as_real__'):
        return x.__as_real__()
    return to_frac(x)


def zint(x):
    if isinstance(x, SInt):
        return x.t
    if isinstance(x, SBool):
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if z3.is_expr(x) and x.sort() == INT:
        return x
    if isinstance(x, (bool, _np.bool_, int, _np.integer)):
        return z3.IntVal(int(x))
    if isinstance(x, (float, _np.floating)) and float(x) == int(x):
        return z3.IntVal(int(x))
    if hasattr(x, '__as_int__'):
        return x.__as_int__()
    raise Unsupported('not an integer: %r' % (type(x),))


def zbool(x):
    if isinstance(x, SBool):
        return x.t
    if z3.is_expr(x) and x.sort() == BOOL:
        return x
    if isinstance(x, (bool, _np.bool_)):
        return z3.BoolVal(bool(x))
    if isinstance(x, SInt):
        return x.t != 0
    if isinstance(x, SReal):
        return x.t != 0
    raise Unsupported('not a bool: %r' % (type(x),))


def wrap(t):
    """z3 scalar -> symbolic scalar or python constant when it is one"""
    t = z3.simplify(t)
    if t.sort() == BOOL:
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        return SBool(t)
    if t.sort() == INT:
        if z3.is_int_value(t):
            return t.as_long()
        return SInt(t)
    return SReal(t)


_inv = z3.Function('recip', REAL, REAL)
_sqrt = z3.Function('sqrt', REAL, REAL)
_UN = {}


def un(name):
    """uninterpreted Real->Real function (exp, log, ...)"""
    if name not in _UN:
        _UN[name] = z3.Function(name, REAL, REAL)
    return _UN[name]


def rdiv(a, b):
    b = z3.simplify(b)
    if z3.is_rational_value(b):
        if b.as_fraction() == 0:
            raise Unsupported('division by zero constant')
        return a / b
    # split a product denominator so that recip is multiplicative
    if z3.is_app_of(b, z3.Z3_OP_MUL):
        r = a
        for ch in b.children():
            r = rdiv(r, ch)
        return r
    if z3.is_app(b) and b.decl().eq(_inv):
        return a * b.arg(0)
    return a * _inv(b)


def rsqrt(a):
    a = z3.simplify(a, som=True)
    if z3.is_rational_value(a):
        f = a.as_fraction()
        import math
        if f >= 0:
            n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if n * n == f.numerator and d * d == f.denominator:
                return z3.RealVal(str(fractions.Fraction(n, d)))
    return _sqrt(a)


def _isnum(x):
    return isinstance(x, (int, float, _np.integer, _np.floating, bool, _np.bool_, fractions.Fraction))


def _inf(x):
    return isinstance(x, (float, _np.floating)) and (x == float('inf') or x == float('-inf'))


class SBase(object):
    __slots__ = ('t',)
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return '<%s %s>' % (type(self).__name__, self.t)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    # numpy scalar look-alikes
    @property
    def dtype(self):
        return _np.dtype(float if isinstance(self, SReal) else int)

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    def item(self):
        return self


def _num2(a, b):
    """coerce both to the same sort; returns (za, zb, isint)"""
    ia = isinstance(a, (SInt, SBool, int, bool, _np.integer, _np.bool_))
    ib = isinstance(b, (SInt, SBool, int, bool, _np.integer, _np.bool_))
    if ia and ib:
        return zint(a), zint(b), True
    return zreal(a), zreal(b), False


def _ok(x):
    return isinstance(x, (SInt, SReal, SBool)) or _isnum(x)


class _Arith(SBase):
    __slots__ = ()

    def _bin(self, o, f, rev=False):
        if not _ok(o):
            if isinstance(self, SReal) and hasattr(o, 'zlen'):
                # list with numpy scalar: numpy converts the list
                from .tensor import as_tensor
                return f(as_tensor(o), self) if rev else f(self, as_tensor(o))
            return NotImplemented
        a, b = (o, self) if rev else (self, o)
        x, y, i = _num2(a, b)
        return wrap(f(x, y))

    def __add__(self, o):
        return self._bin(o, lambda x, y: x + y)

    def __radd__(self, o):
        return self._bin(o, lambda x, y: x + y, True)

    def __sub__(self, o):
        return self._bin(o, lambda x, y: x - y)

    def __rsub__(self, o):
        return self._bin(o, lambda x, y: x - y, True)

    def __mul__(self, o):
        if isinstance(o, (list, tuple, str)):
            return NotImplemented
        return self._bin(o, lambda x, y: x * y)

    def __rmul__(self, o):
        return self._bin(o, lambda x, y: x * y, True)

    def __truediv__(self, o):
        if not _ok(o):
            return NotImplemented
        return wrap(rdiv(zreal(self), zreal(o)))

    def __rtruediv__(self, o):
        if not _ok(o):
            return NotImplemented
        return wrap(rdiv(zreal(o), zreal(self)))

    def __floordiv__(self, o):
        if not _ok(o):
            return NotImplemented
        return floordiv(self, o)

    def __rfloordiv__(self, o):
        if not _ok(o):
            return NotImplemented
        return floordiv(o, self)

    def __mod__(self, o):
        if not _ok(o):
            return NotImplemented
        return smod(self, o)

    def __rmod__(self, o):
        if not _ok(o):
            return NotImplemented
        return smod(o, self)

    def __neg__(self):
        return wrap(-zint(self) if not isinstance(self, SReal) else -self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        t = self.t if not isinstance(self, SBool) else zint(self)
        return wrap(z3.If(t >= 0, t, -t))

    def __pow__(self, o):
        return spow(self, o)

    def __rpow__(self, o):
        return spow(o, self)

    def _cmp(self, o, f):
        if _inf(o):
            return bool(f(0.0, float(o)))
        if not _ok(o):
            if isinstance(self, SReal) and hasattr(o, 'zlen'):
                from .tensor import as_tensor
                return f(self, as_tensor(o))
            return NotImplemented
        x, y, i = _num2(self, o)
        return wrap(f(x, y))

    def __lt__(self, o):
        return self._cmp(o, lambda x, y: x < y)

    def __le__(self, o):
        return self._cmp(o, lambda x, y: x <= y)

    def __gt__(self, o):
        return self._cmp(o, lambda x, y: x > y)

    def __ge__(self, o):
        return self._cmp(o, lambda x, y: x >= y)

    def __eq__(self, o):
        if o is None or isinstance(o, (str, tuple, list)):
            return False
        return self._cmp(o, lambda x, y: x == y)

    def __ne__(self, o):
        if o is None or isinstance(o, (str, tuple, list)):
            return True
        return self._cmp(o, lambda x, y: x != y)

    def __hash__(self):
        return hash(self.t)

    def __bool__(self):
        t = self.t
        if t.sort() != BOOL:
            t = t != 0
        return ctx().branch(t)


class SBool(_Arith):
    __slots__ = ()

    def __and__(self, o):
        return wrap(z3.And(self.t, zbool(o)))

    __rand__ = __and__

    def __or__(self, o):
        return wrap(z3.Or(self.t, zbool(o)))

    __ror__ = __or__

    def __invert__(self):
        return wrap(z3.Not(self.t))


class SInt(_Arith):
    __slots__ = ()

    def __index__(self):
        # only legal if determined by the path condition
        c = ctx()
        if c.solver.check() == z3.sat:
            v = c.solver.model().eval(self.t, model_completion=True)
            if c.must(self.t == v):
                return v.as_long()
        raise Unsupported('symbolic integer used as a concrete index')

    def __int__(self):
        return self.__index__()


class SReal(_Arith):
    __slots__ = ()

    def __round__(self, nd=None):
        return sround(self)

    def __float__(self):
        raise Unsupported('float() of a symbolic real')


def floordiv(a, b):
    x, y, i = _num2(a, b)
    if i:
        # python floor division for positive divisors equals z3 div
        c = ctx()
        if not c.must(y > 0):
            raise Unsupported('floor division by a possibly non-positive value')
        return wrap(x / y)
    return wrap(z3.ToReal(z3.ToInt(rdiv(x, y))))


def smod(a, b):
    x, y, i = _num2(a, b)
    if not i:
        raise Unsupported('float modulo')
    if not ctx().must(y > 0):
        raise Unsupported('modulo by a possibly non-positive value')
    return wrap(x % y)


def spow(a, b):
    if isinstance(b, (int, _np.integer)) or (isinstance(b, (float, _np.floating)) and float(b) == int(b)):
        b = int(b)
        if 0 <= b <= 8:
            x = a.t if not isinstance(a, SBool) else zint(a)
            r = z3.IntVal(1) if x.sort() == INT else z3.RealVal(1)
            for _ in range(b):
                r = r * x
            return wrap(r)
        if -8 <= b < 0:
            return 1.0 / spow(a, -b)
    if isinstance(b, (float, _np.floating)) and float(b) == 0.5:
        return wrap(rsqrt(zreal(a)))
    raise Unsupported('symbolic power')


def sround(a):
    """numpy/python round-half-even of a real, as an integer-valued real"""
    t = zreal(a)
    f = z3.ToInt(t)
    d = t - z3.ToReal(f)
    r = z3.If(d < z3.Q(1, 2), f, z3.If(d > z3.Q(1, 2), f + 1, z3.If(f % 2 == 0, f, f + 1)))
    return wrap(z3.ToReal(r))


def sfloor(a):
    return wrap(z3.ToReal(z3.ToInt(zreal(a))))


def sceil(a):
    return wrap(z3.ToReal(-z3.ToInt(-zreal(a))))


def sint(name, lo=None, hi=None):
    x = z3.Int(name)
    if lo is not None:
        ctx().assume(x >= lo)
    if hi is not None:
        ctx().assume(x <= hi)
    return SInt(x)


def sreal(name):
    return SReal(z3.Real(name))


def sbool(name):
    return SBool(z3.Bool(name))


def ite(c, a, b):
    """value-level if-then-else"""
    c = z3.simplify(zbool(c))
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a is b:
        return a
    if _ok(a) and _ok(b):
        if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
            return wrap(z3.If(c, zbool(a), zbool(b)))
        x, y, i = _num2(a, b)
        return wrap(z3.If(c, x, y))
    if hasattr(a, '__vite__'):
        return a.__vite__(c, b)
    if hasattr(b, '__vite__'):
        return b.__vite__(z3.Not(c), a)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    if ctx().merging:
        # values of a comprehension: no fork on its bound variable
        if type(a) is type(b) and hasattr(a, '__dict__') and not isinstance(a, type) \
                and set(a.__dict__) == set(b.__dict__):
            r = object.__new__(type(a))
            r.__dict__.update({k: ite(c, a.__dict__[k], b.__dict__[k]) for k in a.__dict__})
            return r
        if isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b):
            return {k: ite(c, a[k], b[k]) for k in a}
        if type(a) is type(b) and isinstance(a, (str, type(None))) and a == b:
            return a
        raise Unsupported('comprehension over different kinds of values')
    # fall back to forking the path on the condition
    return a if ctx().branch(c) else b


def as_int_list(xs):
    return [x if isinstance(x, SInt) else int(x) for x in xs]
