"""C03: error statistics summarise exactly the errors they are given."""
from .common import *

PID = 'C03'
M = 'menpofit.error.stats'
TX = 'menpofit.visualize.textutils'

W = z3.Function('simpson_weight', INT, INT, REAL, REAL)


def simps(y, x=None, **k):
    """contract of scipy.integrate.simps on a uniform increasing grid: a combination
    of the values with non-negative weights that add up to the length of the grid"""
    y, x = T.as_tensor(y), T.as_tensor(x)
    n = z3.simplify(zint(y.shape[0]))
    prove('simps: as many abscissae as values', zint(x.shape[0]) == n)
    i = z3.Int('gi')
    c = ctx()
    h = (at(x, n - 1) - at(x, 0)) / z3.ToReal(n - 1) if False else rdiv(at(x, n - 1) - at(x, 0), z3.ToReal(n - 1))
    prove('simps: at least two points', n >= 2)
    prove('simps: the grid is uniform', z3.Implies(z3.And(i >= 0, i < n),
                                                   at(x, i) == at(x, 0) + z3.ToReal(i) * h))
    S = at(x, n - 1) - at(x, 0)
    prove('simps: the grid is increasing', S >= 0)
    # weights w_i = S * u_i, u_i >= 0, sum u_i = 1
    u = lambda j: W(n, j, z3.RealVal(0))
    c.assume(z3.ForAll([i], u(i) >= 0))
    c.assume(ssum(n, u) == 1)
    return SReal(S * ssum(n, lambda j: u(j) * at(y, j)))


def mod(**r):
    return World(stubs={'scipy.integrate': {'simps': simps, 'simpson': simps}}, replace={M: r} if r else {}).load(M)


def errs(name='e', lo=1):
    n = sint('n_' + name, lo)
    return n, pts1(name, n)


def pts1(name, n):
    return fresh(name, axes_of(n))


def as_list(t, n):
    return VList(segs=[Seg(n.t, lambda i: wrap(t.get(i)))])


def frac(e, n, x):
    """proportion of errors not exceeding x"""
    return rdiv(ssum(n, lambda i: z3.If(at(e, i) <= x, z3.RealVal(1), z3.RealVal(0))), zreal(n))


def both(e, n):
    return (('array', e), ('list', as_list(e, n)))


@unit(PID, 'cumulative error distribution', [M + ':compute_cumulative_error'])
def ced():
    m = mod()
    n, e = errs()
    k, b = errs('b', 0)
    fr = Frame(e=e, b=b)
    i = z3.Int('i')
    ctx().assume(z3.And(i >= 0, i < k.t))
    for en, ev in both(e, n):
        for bn, bv in both(b, k):
            r = as_vlist(m.compute_cumulative_error(ev, bv))
            prove('one value per bin (%s,%s)' % (en, bn), r.zlen() == k.t)
            prove('value = proportion of errors <= bin (%s,%s)' % (en, bn), zreal(r.at(i)) == frac(e, n, at(b, i)))
    fr.check()


@unit(PID, 'distribution range and order', [M + ':compute_cumulative_error'])
def ced2():
    n, e = errs()
    x, y = z3.Reals('x y')
    fx, fy = frac(e, n, x), frac(e, n, y)
    prove('at least 0', fx >= 0)
    c = ctx()
    one = ssum(n, lambda i: z3.RealVal(1))
    cnt = ssum(n, lambda i: z3.If(at(e, i) <= x, z3.RealVal(1), z3.RealVal(0)))
    cny = ssum(n, lambda i: z3.If(at(e, i) <= y, z3.RealVal(1), z3.RealVal(0)))
    prove('count at most n', cnt <= zreal(n))
    c.assume(x <= y)
    prove('count never decreases', cnt <= cny, want=('eq', 'sign', 'mono'))
    # multiplication by 1/n >= 0
    rn = rdiv(z3.RealVal(1), zreal(n))
    c.assume(z3.And(rn > 0, rn * zreal(n) == 1))
    for g in (cnt <= zreal(n), cnt <= cny, cnt >= 0):
        c.assume(g)     # proved just above
    prove('at most 1', cnt * rn <= 1)
    prove('never decreases', cnt * rn <= cny * rn)


@unit(PID, 'median absolute deviation', [M + ':mad'])
def mad():
    m = mod()
    n, e = errs()
    med = T.reduce_op('median', e)
    sp = val(T.reduce_op('median', T.umap(lambda x: z3.If(x - val(med) >= 0, x - val(med), val(med) - x), e)))
    for en, ev in both(e, n):
        prove('mad = median of the absolute deviations from the median (%s)' % en, val(m.mad(ev)) == sp)


@unit(PID, 'area and failure rate', [M + ':area_under_curve_and_failure_rate', M + ':compute_cumulative_error'],
      ['scipy.integrate.simps on a uniform grid combines the values with non-negative weights adding up to the '
       'length of the grid'])
def auc():
    m = mod()
    n, e = errs()
    st, mx, mn = sreal('step'), sreal('max'), sreal('min')
    c = ctx()
    c.assume(z3.And(st.t > 0, mn.t >= 0, mx.t > mn.t))
    seen = []
    orig = m.compute_cumulative_error

    def spy(errors, bins):
        seen.append(bins)
        return orig(errors, bins)
    m.compute_cumulative_error = spy
    default = c.nondet('default')
    if default:
        c.assume(mn.t == 0)
        a, f = m.area_under_curve_and_failure_rate(e, st, mx)
    else:
        a, f = m.area_under_curve_and_failure_rate(e, st, mx, mn)
    prove('failure rate = proportion of errors above the maximum', val(f) == 1 - frac(e, n, mx.t))
    prove('one distribution evaluated', len(seen) == 1)
    b = T.as_tensor(seen[0])
    k = zint(b.shape[0])
    i = z3.Int('i')
    prove('first bin is the lower limit', at(b, z3.IntVal(0)) == mn.t)
    prove('last bin is the upper limit', at(b, z3.simplify(k - 1)) == mx.t)
    c.assume(z3.And(i >= 0, i < k))
    h = rdiv(mx.t - mn.t, z3.ToReal(k - 1))
    prove('bins are evenly spaced', at(b, i) == mn.t + z3.ToReal(i) * h)
    prove('number of bins follows the step', z3.Or(k == 2, z3.And(
        z3.ToReal(k - 1) - rdiv(mx.t - mn.t, st.t) <= z3.Q(1, 2), rdiv(mx.t - mn.t, st.t) - z3.ToReal(k - 1) <= z3.Q(1, 2))))
    u = lambda j: W(k, j, z3.RealVal(0))
    prove('area = integral of the distribution / maximum error',
          val(a) == rdiv((mx.t - mn.t) * ssum(k, lambda j: u(j) * frac(e, n, at(b, j))), mx.t))


@unit(PID, 'area range', [M + ':area_under_curve_and_failure_rate'],
      ['the same contract of simps', 'a weighted mean of values in [0,1] lies in [0,1]'])
def auc_range():
    """(max-min)/max * sum u_j c_j with 0 <= c_j <= 1, u_j >= 0, sum u_j = 1"""
    k = sint('k', 2)
    mx, mn, rm = z3.Reals('max min rmax')
    c = ctx()
    c.assume(z3.And(mn >= 0, mx > mn, rm > 0, rm * mx == 1))
    u = lambda j: W(k.t, j, z3.RealVal(0))
    ced = z3.Function('ced', INT, REAL)
    i = z3.Int('i')
    c.assume(z3.ForAll([i], z3.And(u(i) >= 0, ced(i) >= 0, ced(i) <= 1)))
    su = ssum(k, u)
    c.assume(su == 1)
    s = ssum(k, lambda j: u(j) * ced(j))
    ok = prove('weighted mean >= 0', s >= 0) and prove('weighted mean <= 1', s <= 1, want=('eq', 'sign', 'mono'))
    t = z3.Real('t')
    c.assume(z3.And(t >= 0, t <= 1))
    prove('area in [0,1]', z3.And((mx - mn) * t * rm >= 0, (mx - mn) * t * rm <= 1))


STATS = ('mean', 'std', 'median', 'mad', 'max', 'auc', 'fr')


def spec_stats(e):
    med = T.reduce_op('median', e)
    mad_ = T.reduce_op('median', T.umap(lambda x: z3.If(x - val(med) >= 0, x - val(med), val(med) - x), e))
    return [val(T.reduce_mean(e)), val(T.reduce_std(e)), val(med), val(mad_), val(T.reduce_op('max', e))]


@unit(PID, 'statistical measures', [M + ':compute_statistical_measures'],
      ['area_under_curve_and_failure_rate by its contract (proved in its own unit)',
       'up to 3 lists of errors in this unit; each list of any length'])
def measures():
    m = mod()
    calls = []

    def aucfr(errors, step_error, max_error, min_error=0.):
        calls.append((errors, step_error, max_error, min_error))
        j = len(calls)
        return sreal('auc%d' % j), sreal('fr%d' % j)
    m.area_under_curve_and_failure_rate = aucfr
    st, mx, mn = sreal('step'), sreal('max'), sreal('min')
    n, e = errs()

    def agree(nm, r, j, el, el_tensor, idx):
        sp = spec_stats(el_tensor)
        for q, s in enumerate(sp):
            v = r[q] if idx is None else as_vlist(r[q]).at(idx)
            prove('%s of %s' % (STATS[q], nm), val(v) == s)
        for q, b in ((5, 'auc'), (6, 'fr')):
            v = r[q] if idx is None else as_vlist(r[q]).at(idx)
            prove('%s of %s' % (b, nm), val(v) == z3.Real('%s%d' % (b, j + 1)))
        ce, cs, cm, cn = calls[j]
        prove('area of the same errors (%s)' % nm, ce is el)
        prove('step, maximum and minimum passed on (%s)' % nm,
              z3.And(val(cs) == st.t, val(cm) == mx.t, val(cn) == mn.t))
    for en, ev in both(e, n):
        calls.clear()
        r = m.compute_statistical_measures(ev, st, mx, mn)
        prove('seven measures', len(r) == 7)
        agree('one list (%s)' % en, r, 0, ev, e, None)
    for L in (1, 2, 3):
        es = [errs('e%d' % j) for j in range(L)]
        for form in (0, 1):
            ls = VList([both(t, k)[form][1] for k, t in es])
            calls.clear()
            r = m.compute_statistical_measures(ls, st, mx, mn)
            prove('one value per list', z3.And(*[z3.BoolVal(len(as_vlist(x).items()) == L) for x in r]))
            for j in range(L):
                agree('list %d of %d' % (j, L), r, j, ls.at(j), es[j][1], j)


class Frame_(object):
    """contract of pandas.DataFrame: columns in the order given, rows named by index;
    sort_values reorders the rows by one column"""
    log = []

    def __init__(self, data, index=None, **k):
        self.data, self.index, self.sorted = data, index, None

    def sort_values(self, by=None, inplace=False, ascending=True, **k):
        if not inplace:
            r = Frame_(self.data, self.index)
            r.sorted = (by, ascending)
            return r
        self.sorted = (by, ascending)


@unit(PID, 'statistics table', [TX + ':statistics_table'],
      ['pandas.DataFrame keeps columns and rows in the order given and sort_values orders by the named column',
       'compute_statistical_measures by its contract'])
def table():
    got = []
    vals = [VList([sreal('%s%d' % (s, j)) for j in range(2)]) for s in STATS]

    def csm(errors, step_error, max_error, min_error=0.):
        got.append((errors, step_error, max_error, min_error))
        return tuple(vals)
    m = World(stubs={'pandas': {'DataFrame': Frame_, 'set_option': lambda *a, **k: None},
                     'menpo.visualize': {'print_progress': None},
                     'menpofit.error': {'compute_statistical_measures': csm}}).load(TX)
    es = VList([VList([sreal('a')]), VList([sreal('b')])])
    st, mx, mn = sreal('step'), sreal('max'), sreal('min')
    names = VList(['m1', 'm2'])

    def cols(t, types, nms):
        prove('columns named in order', list(t.data) == list(nms))
        for ty, nm in zip(types, nms):
            prove_eq('column %s' % ty, T.as_tensor(t.data[nm]), T.as_tensor(vals[STATS.index(ty)]))
        prove('rows named by method', t.index is names)
    t = m.statistics_table(es, names, mx, st, mn)
    e, s, x, n = got[-1]
    prove('the errors given', e is es)
    prove('maximum, step and minimum', z3.And(val(s) == st.t, val(x) == mx.t, val(n) == mn.t))
    cols(t, STATS, STATS)
    prove('unsorted', t.sorted is None)
    for types in (['auc'], ['max', 'mean'], ['fr', 'std', 'mad'], ['median', 'auc', 'mean', 'fr', 'max', 'std', 'mad']):
        t = m.statistics_table(es, names, mx, st, mn, stats_types=VList(types))
        cols(t, types, types)
        nm = ['N' + x for x in types]
        for sb in types:
            t = m.statistics_table(es, names, mx, st, mn, stats_types=VList(types), stats_names=VList(nm), sort_by=sb)
            cols(t, types, nm)
            prove('sorted by its column, best first', t.sorted == ('N' + sb, sb != 'auc'))
    expect_raises('names and types differ in number', ValueError, lambda: m.statistics_table(
        es, names, mx, st, mn, stats_types=VList(['auc']), stats_names=VList(['a', 'b'])))
    expect_raises('unknown type', ValueError, lambda: m.statistics_table(es, names, mx, st, mn, stats_types=VList(['x'])))
    expect_raises('unknown sort', ValueError, lambda: m.statistics_table(es, names, mx, st, mn, sort_by='x'))
    one = VList([sreal('a'), sreal('b')])
    m.statistics_table(one, names, mx, st, mn)
    e = got[-1][0]
    prove('one list of errors is one method', isinstance(e, VList) and len(e.items()) == 1 and e.items()[0] is one)
