"""C01: per-scale options become exactly one valid value per scale."""
from functools import partial
from .common import *

PID = 'C01'
M = 'menpofit.checks'
REJ = (ValueError, TypeError)


class TriMesh(object):
    pass


class PiecewiseAffine(object):
    pass


def mod():
    return World(stubs={'menpo.base': {'name_of_callable': lambda c: 'callable'}, 'menpo.shape': {'TriMesh': TriMesh},
                        'menpo.transform': {'PiecewiseAffine': PiecewiseAffine}}).load(M)


def rejected(name, f, excs=ValueError):
    try:
        r = f()
    except excs:
        prove(name, True)
        return
    fail(name, 'accepted, returned %r' % (r,))


def number_list(name, n, tup=False):
    f = z3.Function(name, INT, REAL)
    return slist(name, n, lambda i: SReal(f(i)), tup=tup)


def nscales():
    return sint('n_scales', 1)


# ------------------------------------------------------------------ check_scales
@unit(PID, 'check_scales', [M + ':check_scales'],
      ['induction on the number of scales: the recursive calls are replaced by the contract being proved'])
def scales():
    m = mod()
    f = m.check_scales

    def contract(x):
        """numbers -> [x]; a non-empty sequence of numbers -> list(x)"""
        if isinstance(x, (SReal, SInt, int, float)):
            return VList([x])
        v = as_vlist(x)
        if not ctx().branch(v.zlen() >= 1):
            raise ValueError('scales')
        return VList(segs=list(v.segs))
    m.check_scales = contract
    r, k = sreal('s'), sint('k')
    list_eq('a float', f(r), VList([r]))
    list_eq('an int', f(k), VList([k]))
    n = sint('n')
    ctx().assume(n.t >= 0)
    for tup in (False, True):
        x = number_list('xs', n, tup)
        k, v = outcome(lambda: f(x), ValueError)
        if k == 'raised':
            prove('only an empty sequence is rejected', n.t == 0)
        else:
            prove('an empty sequence is rejected', n.t >= 1)
            list_eq('a sequence of numbers, one per scale', v, x)
            prove('the result is a new list', v is not x and not v.is_tuple)
    m.check_scales = f
    for bad in ('a', ['a'], [1.0, 'b'], [[]], []):
        rejected('not numbers', lambda: f(VList(bad) if isinstance(bad, list) else bad), REJ)


# --------------------------------------------- replicate or pass through, by type
@unit(PID, 'check_multi_scale_param', [M + ':check_multi_scale_param'])
def multi():
    m = mod()
    n = nscales()
    ok = pred('is_T')

    class TY(object):
        __name__ = 'T'
    kinds = {TY: ok, float: False}
    for types in (TY, (TY, float)):
        x = tok('x', {TY: True})
        list_eq('one value serves every scale', m.check_multi_scale_param(n, types, 'p', x), repl(x, n))
        L = sint('L', 0)
        xs = toklist('xs', L, kinds)
        before = list(xs.segs)
        k, v = outcome(lambda: m.check_multi_scale_param(n, types, 'p', xs), ValueError)
        i = z3.Int('qi')
        allok = z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < L.t), ok(z3.Function('xs', INT, V)(i))))
        good = z3.And(z3.Or(L.t == 1, L.t == n.t), allok)
        if k == 'raised':
            prove('rejects only wrong lengths or types', z3.Not(good))
        else:
            prove('accepts only right lengths and types', good)
            if ctx().branch(L.t == n.t):
                list_eq('a list per scale is used in order', v, xs)
            else:
                list_eq('a one-entry list serves every scale', v, repl(xs.at(0), n))
            prove('a new list is returned', v is not xs)
        prove('argument not modified', all(a is b for a, b in zip(before, xs.segs)) and len(before) == len(xs.segs))
        rejected('not a T and not a list', lambda: m.check_multi_scale_param(n, types, 'p', None))
        rejected('not a T and not a list', lambda: m.check_multi_scale_param(n, types, 'p', 3))


@unit(PID, 'check_callable', [M + ':check_callable'])
def calls():
    m = mod()
    n = nscales()
    ok = pred('is_callable')
    x = tok('x', callable_=True)
    list_eq('one callable serves every scale', m.check_callable(x, n), repl(x, n))
    L = sint('L', 0)
    for tup in (False, True):
        xs = toklist('xs', L, {}, ok, tup)
        before = list(xs.segs)
        k, v = outcome(lambda: m.check_callable(xs, n), ValueError)
        i = z3.Int('qi')
        good = z3.And(z3.Or(L.t == 1, L.t == n.t), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < L.t), ok(
            z3.Function('xs', INT, V)(i)))))
        if k == 'raised':
            prove('rejects only wrong lengths or non-callables', z3.Not(good))
        else:
            prove('accepts only right lengths and callables', good)
            if ctx().branch(L.t == n.t):
                list_eq('a list per scale is used in order', v, xs)
            else:
                list_eq('a one-entry list serves every scale', v, repl(xs.at(0), n))
        prove('argument not modified', all(a is b for a, b in zip(before, xs.segs)) and len(before) == len(xs.segs))


COMP = {int: pred('is_int'), float: pred('is_float')}


def comp_ok(t):
    return z3.Or(COMP[int](t), COMP[float](t))


@unit(PID, 'check_max_components, one value', [M + ':check_max_components'])
def comps1():
    m = mod()
    n = nscales()
    w = ctx().nondet('w')
    for x in ((None, sint('c')) if w else (sreal('f'),)):
        list_eq('one value serves every scale', m.check_max_components(x, n, 'v'), repl(x, n))


@unit(PID, 'check_max_components, any one value', [M + ':check_max_components'])
def comps2():
    m = mod()
    n = nscales()
    y = tok('y', COMP)
    k, v = outcome(lambda: m.check_max_components(y, n, 'v'), ValueError)
    prove('one value of a wrong type is rejected', comp_ok(y.t) if k == 'ok' else z3.Not(comp_ok(y.t)))
    if k == 'ok':
        list_eq('one value serves every scale', v, repl(y, n))


def comps_list(tup):
    m = mod()
    n = nscales()
    L = sint('L', 0)
    f = z3.Function('xs', INT, V)
    xs = toklist('xs', L, COMP, None, tup)
    before = list(xs.segs)
    k, v = outcome(lambda: m.check_max_components(xs, n, 'v'), ValueError)
    i = z3.Int('qi')
    good = z3.And(z3.Or(L.t == 1, L.t == n.t),
                  z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < L.t), comp_ok(f(i)))))
    if k == 'raised':
        prove('a rejected list has a wrong length or entry', z3.Not(good))
    else:
        prove('an accepted list has an allowed length and only valid entries', good)
        if ctx().branch(L.t == n.t):
            list_eq('a list per scale is used in order', v, xs)
        else:
            list_eq('a one-entry list serves every scale', v, repl(xs.at(0), n))
    prove('argument not modified', all(a is b for a, b in zip(before, xs.segs)) and len(before) == len(xs.segs))


for _t in (False, True):
    unit(PID, 'check_max_components, %s' % ('tuple' if _t else 'list'), [M + ':check_max_components'])(
        lambda t=_t: comps_list(t))


@unit(PID, 'check_max_components entry types', [M + ':check_max_components'])
def comps_types():
    m = mod()
    for L in (1, 2, 3):
        for bad in range(L):
            xs = VList([None if j % 2 else sint('c%d' % j) for j in range(L)])
            list_eq('valid', m.check_max_components(xs, L, 'v'), xs)
            for b in ('3', VList([1]), {}):
                ys = VList([b if j == bad else xs.at(j) for j in range(L)])
                rejected('wrong type', lambda: m.check_max_components(ys, L, 'v'))
                rejected('wrong type', lambda: m.check_max_components(VTuple(ys.items()), L, 'v'))


@unit(PID, 'check_sampling', [M + ':check_sampling'])
def samp():
    m = mod()
    n = nscales()
    a = pts('mask', sint('ma'), sint('mb'))
    for x in (None, sint('step'), a):
        list_eq('one value serves every scale', m.check_sampling(x, n), repl(x, n))
    isarr, isint, isnone = pred('is_array'), pred('is_int'), pred('is_None')
    kinds = {np.ndarray: isarr, int: isint, np.int64: False, np.integer: False}
    L = sint('L', 0)
    f = z3.Function('xs', INT, V)
    for tup in (False, True):
        xs = toklist('xs', L, kinds, None, tup)
        k, v = outcome(lambda: m.check_sampling(xs, n), ValueError)
        i = z3.Int('qi')
        good = z3.And(z3.Or(L.t == 1, L.t == n.t), z3.ForAll([i], z3.Implies(
            z3.And(i >= 0, i < L.t), z3.Or(isarr(f(i)), isint(f(i))))))
        if k == 'raised':
            prove('rejects only wrong lengths or types', z3.Not(good))
        else:
            prove('accepts only right lengths and types', good)
            if ctx().branch(L.t == n.t):
                list_eq('a list per scale is used in order', v, xs)
            else:
                list_eq('a one-entry list serves every scale', v, repl(xs.at(0), n))
    for xs in ([None], [None, 3], [4, None], [None, None], [a, None], [2, a]):
        for w in (VList(xs), VTuple(xs)):
            nn = len(xs) if len(xs) > 1 else 3
            list_eq('None entries', m.check_sampling(w, nn), VList(xs * 3 if len(xs) == 1 else xs))
    for bad in ('a', 1.5, VList([1.5]), VList(['x', 1])):
        rejected('wrong kind', lambda: m.check_sampling(bad, 2))


@unit(PID, 'check_patch_shape', [M + ':check_patch_shape'],
      ['induction on the number of scales: the recursive calls are replaced by the contract being proved'])
def patch():
    m = mod()
    f = m.check_patch_shape
    n = nscales()
    fa, fb = z3.Function('pa', INT, INT), z3.Function('pb', INT, INT)

    class Pair(VTuple):
        pass

    def pair(i):
        i = z3.IntVal(i) if isinstance(i, int) else i
        return VTuple([SInt(fa(i)), SInt(fb(i))])

    def ispair(x):
        return isinstance(x, VTuple) and x.concrete() and len(x.items()) == 2 and isinstance(x.items()[0], (SInt, int))

    def contract(x, k):
        if ispair(x):
            return VList([x]) * k
        v = as_vlist(x)
        kz = zint(k)
        c = ctx()
        if c.branch(z3.And(v.zlen() == 1)):
            return VList([v.at(0)]) * k
        if c.branch(z3.And(v.zlen() == kz, kz >= 1)):
            return VList(segs=list(v.segs))
        raise ValueError('patch_shape')
    m.check_patch_shape = contract
    p = pair(0)
    list_eq('one patch shape serves every scale', f(p, n), repl(p, n))
    L = sint('L', 0)
    for tup in (False, True):
        xs = slist('ps', L, pair, tup=tup)
        k, v = outcome(lambda: f(xs, n), ValueError)
        good = z3.Or(L.t == 1, L.t == n.t)
        if k == 'raised':
            prove('rejects only wrong lengths', z3.Not(good))
        else:
            prove('accepts only right lengths', good)
            if ctx().branch(L.t == n.t):
                list_eq('a list per scale is used in order', v, xs)
            else:
                list_eq('a one-entry list serves every scale', v, repl(xs.at(0), n))


@unit(PID, 'check_max_iters', [M + ':check_max_iters'], budget=90)
def iters():
    m = mod()
    n = nscales()
    t = sint('total', 0)
    i = z3.Int('i')
    ctx().assume(z3.And(i >= 0, i < n.t))

    def share(name, r, total):
        r = as_vlist(r) if not isinstance(r, STensor) else r
        L = r.zlen() if isinstance(r, VList) else zint(r.shape[0])
        prove('%s: one budget per scale' % name, L == n.t)
        x = zreal(r.at(i)) if isinstance(r, VList) else at(r, i)
        q = rdiv(zreal(total), zreal(n))
        prove('%s: divided evenly' % name, z3.And(x - q <= z3.Q(1, 2), q - x <= z3.Q(1, 2)))
    share('total', m.check_max_iters(t, n), t)
    f = z3.Function('xs', INT, INT)
    L = sint('L', 0)
    for tup in (False, True):
        xs = slist('xs', L, lambda j: SInt(f(j)), tup=tup)
        k, v = outcome(lambda: m.check_max_iters(xs, n), ValueError)
        if k == 'raised':
            prove('rejects only wrong lengths', z3.And(L.t != 1, L.t != n.t))
        else:
            prove('accepts only right lengths', z3.Or(L.t == 1, L.t == n.t))
            if ctx().branch(L.t == n.t):
                prove('a budget per scale is used as given',
                      z3.And(zint(v.shape[0] if isinstance(v, STensor) else v.__vlen__()) == n.t,
                             at(v, i) == z3.ToReal(f(i)) if isinstance(v, STensor) else
                             zreal(v.at(i)) == z3.ToReal(f(i))))
            else:
                share('one-entry list', v, SInt(f(z3.IntVal(0))))


class Model(object):
    n_active_components = None


@unit(PID, 'set_models_components', [M + ':set_models_components'])
def setc():
    m = mod()
    for L in (1, 2, 3, 4):
        def run(nc):
            ms = VList([Model() for _ in range(L)])
            m.set_models_components(ms, nc)
            return [x.n_active_components for x in ms.items()]
        prove('None leaves the models as they are', run(None) == [None] * L)
        for x in (sint('k'), sreal('v')):
            prove('one value reaches every model', z3.And(*[zbool(y is x or same(y, x)) for y in run(x)]))
            for w in (VList, VTuple):
                prove('a one-entry list reaches every model',
                      z3.And(*[zbool(y is x or same(y, x)) for y in run(w([x]))]))
        for w in (VList, VTuple):
            xs = [sint('k%d' % j) if j % 2 else sreal('r%d' % j) for j in range(L)]
            got = run(w(xs))
            prove('each value reaches the model of its own scale', all(a is b for a, b in zip(got, xs)))
            rejected('wrong number of values', lambda: run(w([sint('q%d' % j) for j in range(L + 1)])))
            if L > 2:
                rejected('wrong number of values', lambda: run(w([sint('q%d' % j) for j in range(L - 1)])))


@unit(PID, 'set_models_components unbounded', [M + ':set_models_components'])
def setc_n():
    """any number of scales: each iteration of the loop assigns value i to model i"""
    m = mod()
    n = nscales()
    log = []

    class Mod(object):
        __vatomic__ = True

        def __init__(self, i):
            object.__setattr__(self, 'i', i)

        def __setattr__(self, k, v):
            log.append((self.i, k, v))

        def __vsubst__(self, pairs):
            return Mod(z3.substitute(self.i, *pairs))
    ms = slist('models', n, lambda i: Mod(i if z3.is_expr(i) else z3.IntVal(i)))
    f = z3.Function('nc', INT, INT)
    which = ctx().nondet('form')
    if which:
        m.set_models_components(ms, sint('k'))
        for i, k, v in log:
            prove('one value', z3.And(zbool(k == 'n_active_components'), zint(v) == z3.Int('k')))
    else:
        m.set_models_components(ms, slist('nc', n, lambda i: SInt(f(i))))
        for i, k, v in log:
            prove('value i goes to model i', z3.And(zbool(k == 'n_active_components'), zint(v) == f(i)))
    if n is not None and ctx().must(n.t > 0):
        pass
    prove('ran', True)


class Base(object):
    pass


class A1(Base):
    pass


class A2(Base):
    pass


class Other(object):
    pass


@unit(PID, 'check_algorithm_cls', [M + ':check_algorithm_cls'], ['the number of scales is at most 4 in this unit'])
def algs():
    m = mod()
    pa = partial(A2, 3)
    for n in (1, 2, 3, 4):
        for x in (A1, A2, Base, pa):
            list_eq('one class', m.check_algorithm_cls(x, n, Base), VList([x] * n))
            for w in (VList, VTuple):
                list_eq('one-entry list', m.check_algorithm_cls(w([x]), n, Base), VList([x] * n))
        xs = [A1, pa, A2, Base][:n]
        for w in (VList, VTuple):
            list_eq('one class per scale, in order', m.check_algorithm_cls(w(xs), n, Base), VList(xs))
            for j in range(n):
                ys = list(xs)
                ys[j] = Other
                rejected('a wrong class is rejected', lambda: m.check_algorithm_cls(w(ys), n, Base), REJ)
            rejected('wrong length', lambda: m.check_algorithm_cls(w([A1] * (n + 1)), n, Base), ValueError)


class G1(object):
    pass


class G2(object):
    pass


@unit(PID, 'check_graph', [M + ':check_graph'], ['the number of scales is at most 4 in this unit'])
def graphs():
    m = mod()
    for ty in (G1, VList([G1, G2])):
        for n in (1, 2, 3, 4):
            g = G1()
            list_eq('one graph', m.check_graph(g, ty, 'g', n), VList([g] * n))
            list_eq('no graph', m.check_graph(None, ty, 'g', n), VList([None] * n))
            list_eq('one-entry list', m.check_graph(VList([g]), ty, 'g', n), VList([g] * n))
            gs = [G1() if j % 2 else None for j in range(n)]
            list_eq('one graph per scale', m.check_graph(VList(gs), ty, 'g', n), VList(gs))
            rejected('wrong type', lambda: m.check_graph(Other(), ty, 'g', n))
            rejected('wrong type', lambda: m.check_graph(VList(gs[:-1] + [Other()]), ty, 'g', n))
            rejected('wrong length', lambda: m.check_graph(VList([g] * (n + 1)), ty, 'g', n))


@unit(PID, 'diagonal and model checks', [M + ':check_diagonal', M + ':check_model'])
def diag():
    m = mod()
    d = sreal('d')
    k, v = outcome(lambda: m.check_diagonal(d), ValueError)
    prove('diagonal accepted iff >= 20', d.t >= 20 if k == 'ok' else d.t < 20)
    if k == 'ok':
        prove('diagonal unchanged', v is d)
    prove('None', m.check_diagonal(None) is None)
    rejected('wrong model', lambda: m.check_model(Other(), Base))
    m.check_model(A1(), Base)
