from .common import *
from functools import partial
import warnings
from menpofit import checks as C

PID = 'C01'


def eqlist(a, b):
    a, b = list(a), list(b)
    return len(a) == len(b) and all(x is y or (type(x) in (int, float, np.int64, np.float64, tuple, list) and x == y)
                                    for x, y in zip(a, b))


def seqs(xs):
    return [list(xs), tuple(xs)]


def rej(f, msg):
    raises((ValueError, TypeError), f, msg)


def three_forms(g, f, mk, n, msg, lists=True, tuples=True):
    """one value / one-entry sequence / one per scale"""
    x = mk(0)
    need(eqlist(f(x, n), [x] * n), msg + ': one value serves every scale', n=n)
    for w in ([list] if lists else []) + ([tuple] if tuples else []):
        s = w([x])
        need(eqlist(f(s, n), [x] * n), msg + ': one-entry sequence', n=n)
        need(eqlist(s, [x]), msg + ': caller sequence modified')
        xs = [mk(k) for k in range(n)]
        s = w(xs)
        need(eqlist(f(s, n), xs), msg + ': one per scale, in order', n=n)
        need(eqlist(s, xs), msg + ': caller sequence modified')
        for L in (n + 1, n + 2, n - 1):
            if L > 1:
                raises(ValueError, lambda: f(w([mk(k) for k in range(L)]), n), msg + ': wrong length %d of %d' % (L, n))


@case(PID, 'replicated options', 40)
def _(g):
    n = g.int(1, 6)
    vals = [g.uniform(0.1, 2.0) for _ in range(9)]
    fs = [(lambda k=k: k) for k in range(9)]
    three_forms(g, C.check_callable, lambda k: fs[k], n, 'check_callable')
    rej(lambda: C.check_callable([fs[0], 3] + fs[2:n], max(n, 2)), 'non-callable accepted')
    rej(lambda: C.check_callable([3], n), 'non-callable accepted')
    three_forms(g, lambda p, k: C.check_multi_scale_param(k, (int, float), 'p', p), lambda k: vals[k], n,
                'check_multi_scale_param')
    three_forms(g, lambda p, k: C.check_multi_scale_param(k, str, 'p', p) if isinstance(p, (list, tuple)) else
                C.check_multi_scale_param(k, str, 'p', p), lambda k: 'abc%d' % k, n, 'check_multi_scale_param str')
    rej(lambda: C.check_multi_scale_param(n, int, 'p', [1] * (n - 1) + ['x']), 'wrong type accepted')
    rej(lambda: C.check_multi_scale_param(n, int, 'p', None), 'wrong type accepted')
    mc = [None, 3, 0.5, 7, 0.9, 2, None, 11, 4]
    three_forms(g, lambda p, k: C.check_max_components(p, k, 'v'), lambda k: mc[k], n, 'check_max_components')
    for bad in ('3', [1], {}):
        b = [2] * n
        b[g.int(0, n - 1)] = bad
        raises(ValueError, lambda: C.check_max_components(b, n, 'v'), 'check_max_components bad entry')
    sm = [None, np.ones((3, 3), dtype=bool), 4, np.int64(3), np.arange(5), None, 2, None, 8]
    off = g.int(0, 8)
    three_forms(g, C.check_sampling, lambda k: sm[(k + off) % 9], n, 'check_sampling')
    for bad in (1.5, 'a', ['x'] * n, [1.5] * n, {}):
        raises(ValueError, lambda: C.check_sampling(bad, n), 'check_sampling bad value')
    if n > 1:
        raises(ValueError, lambda: C.check_sampling([None] * (n - 1) + [2.5], n), 'check_sampling bad entry')


@case(PID, 'scales and patch shapes', 40)
def _(g):
    n = g.int(1, 6)
    v = [g.choice([1, 2, 0.5, 0.25, 1.0, 0.1, 3]) for _ in range(n)]
    for w in seqs(v):
        r = C.check_scales(w)
        need(isinstance(r, list) and eqlist(r, v), 'check_scales keeps the values', got=r, want=v)
        need(eqlist(w, v), 'caller sequence modified')
    need(eqlist(C.check_scales(v[0]), [v[0]]), 'check_scales scalar')
    for bad in ([], 'ab', ['a'], v + ['x'], [None] + v):
        rej(lambda: C.check_scales(bad), 'check_scales %r' % (bad,))
    ps = [(g.int(3, 40), g.int(3, 40)) for _ in range(9)]
    x = ps[0]
    need([tuple(p) for p in C.check_patch_shape(x, n)] == [x] * n, 'one patch shape', n=n)
    need([tuple(p) for p in C.check_patch_shape(list(x), n)] == [x] * n, 'one patch shape', n=n)
    for inner in (tuple, list):
        for w in (list, tuple):
            s = w([inner(x)])
            need([tuple(p) for p in C.check_patch_shape(s, n)] == [x] * n, 'one-entry list', n=n)
            s = w([inner(p) for p in ps[:n]])
            need([tuple(p) for p in C.check_patch_shape(s, n)] == ps[:n], 'one per scale', n=n)
            need(s == w([inner(p) for p in ps[:n]]), 'caller sequence modified')
            for L in (n + 1, n - 1, n + 2):
                if L > 1:
                    raises(ValueError, lambda: C.check_patch_shape(w([inner(p) for p in ps[:L]]), n),
                           'patch shapes: wrong length %d of %d' % (L, n))


@case(PID, 'iteration budgets', 60)
def _(g):
    n = g.int(1, 6)
    t = g.int(0, 60)
    for s in (t, [t], (t,)):
        r = list(C.check_max_iters(s, n))
        need(len(r) == n and all(int(x) == x for x in r), 'budget per scale', got=r)
        need(all(abs(x - t / n) <= 0.5 for x in r), 'total divided evenly', got=r, total=t, n=n)
        need(len(set(int(x) for x in r)) == 1, 'even', got=r)
    xs = [g.int(0, 50) for _ in range(n)]
    if n > 1:
        for s in (list(xs), tuple(xs)):
            need([int(x) for x in C.check_max_iters(s, n)] == xs, 'per-scale budgets are used as given', xs=xs)
            need(list(s) == xs, 'caller list modified')
    for L in (n + 1, n + 2, n - 1):
        if L > 1:
            raises(ValueError, lambda: C.check_max_iters([3] * L, n), 'wrong length')


class Mdl(object):
    pass


@case(PID, 'active components', 40)
def _(g):
    n = g.int(1, 6)

    def run(c):
        ms = [Mdl() for _ in range(n)]
        for m in ms:
            m.n_active_components = 'old'
        C.set_models_components(ms, c)
        return [m.n_active_components for m in ms]
    need(run(None) == ['old'] * n, 'None must change nothing')
    k = g.choice([3, 0.5, 1, 0.95])
    need(run(k) == [k] * n, 'one value')
    need(run([k]) == [k] * n and run((k,)) == [k] * n, 'one-entry list')
    xs = [g.choice([3, 0.5, 1, 0.95, 7, 12]) for _ in range(n)]
    c = list(xs)
    need(run(c) == xs and run(tuple(xs)) == xs and c == xs, 'one per scale', xs=xs)
    for L in (n + 1, n + 2, n - 1):
        if L > 1:
            raises(ValueError, lambda: run([3] * L), 'wrong length')


class Base(object):
    pass


class A1(Base):
    pass


class A2(A1):
    def __init__(self, k=2):
        self.k = k


class O1(object):
    pass


@case(PID, 'algorithm classes and graphs', 30)
def _(g):
    n = g.int(1, 5)
    cl = [A1, A2, partial(A2, k=4), Base, A1, partial(A1)]
    f = lambda x, k: C.check_algorithm_cls(x, k, Base)
    off = g.int(0, 5)
    three_forms(g, f, lambda k: cl[(k + off) % 6], n, 'check_algorithm_cls')
    rej(lambda: f(O1, n), 'wrong class')
    xs = [cl[k] for k in range(n)]
    xs[g.int(0, n - 1)] = O1
    rej(lambda: f(xs, n), 'wrong class in list')
    gs = [A1(), None, O1(), A1(), O1(), None, A1(), None, A1()]
    fg = lambda x, k: C.check_graph(x, [A1, O1], 'graph', k)
    three_forms(g, fg, lambda k: gs[k], n, 'check_graph', tuples=False)
    fg1 = lambda x, k: C.check_graph(x, A1, 'graph', k)
    raises(ValueError, lambda: fg1(O1(), n), 'wrong graph type')
    raises(ValueError, lambda: fg1([A1()] * (n - 1) + [O1()], n), 'wrong graph type')


@case(PID, 'diagonal', 10)
def _(g):
    d = g.uniform(0, 60)
    for x in (d, int(d), 20, 19.999, None):
        if x is None or x >= 20:
            need(C.check_diagonal(x) == x, 'diagonal changed')
        else:
            raises(ValueError, lambda: C.check_diagonal(x), 'small diagonal')
