from .common import *
from menpofit.error import stats as S
from menpofit.error import compute_cumulative_error, compute_statistical_measures

PID = 'C03'


def errors(g, n=None):
    n = n or g.int(1, 30)
    e = np.abs(g.normal(n)) * g.choice([0.02, 0.05, 1.0])
    if g.flag(.3):
        e = np.round(e, 2)
    return e


def form(g, e):
    return g.choice([lambda: e.copy(), lambda: list(e), lambda: [float(x) for x in e], lambda: tuple(float(x) for x in e)])()


def ced(e, bins):
    return [sum(1 for x in e if x <= b) / len(e) for b in bins]


@case(PID, 'cumulative error', 60)
def _(g):
    e = errors(g)
    bins = np.sort(g.uniform(0, e.max() * 1.3 + 1e-3, g.int(1, 15)))
    if g.flag(.4):
        bins = np.unique(np.concatenate([bins, e[:3]]))     # ties
    x, b = form(g, e), g.choice([lambda: list(bins), lambda: [float(v) for v in bins], lambda: bins.copy()])()
    x0 = list(x)
    r = compute_cumulative_error(x, b)
    need(len(r) == len(bins), 'one value per bin')
    need_close(r, ced(e, bins), 'proportion of errors not exceeding the bin')
    need(list(x) == x0 and list(b) == list(bins), 'arguments modified')
    need(np.all(np.diff(r) >= 0) and min(r) >= 0 and max(r) <= 1, 'distribution range and order')


def intervals(mn, mx, st):
    return max(int(round((mx - mn) / st)), 1)


@case(PID, 'area and failure rate', 80)
def _(g):
    e = errors(g)
    mx = g.choice([0.05, 0.08, 0.06, 0.3, 0.7, 1.0, g.uniform(0.02, 2)])
    mn = g.choice([0., 0., 0., 0.01 * mx, mx * 0.3])
    st = g.choice([0.01, 0.001, 0.005, 0.1 * mx, mx / 7., mx / 3., mx * .45, mx * 2])
    if mx / st > 3000:
        st = mx / 100
    if g.flag(.3):
        e[0] = mx
        if len(e) > 1:
            e[1] = mx * 1.0001
    x = form(g, e)
    x0 = list(x)
    a, f = S.area_under_curve_and_failure_rate(x, st, mx, min_error=mn) if mn or g.flag() else \
        S.area_under_curve_and_failure_rate(x, st, mx)
    need(abs(f - np.mean([v > mx * (1 + 1e-12) for v in e])) < 1e-9, 'failure rate is the proportion above the maximum',
         got=f, errors=e, max=mx, step=st)
    need(-1e-12 <= a <= 1 + 1e-12, 'area in [0,1]', got=a)
    # trapezoid brackets: the integral of a step function sampled on an even grid
    k = intervals(mn, mx, st)
    gr = np.linspace(mn, mx, k + 1)
    c = np.array(ced(e, gr))
    lo, hi = c[:-1].sum() * (mx - mn) / k / mx, c[1:].sum() * (mx - mn) / k / mx
    slack = (mx - mn) / k / mx
    need(lo - slack <= a <= hi + slack, 'area under the distribution', got=a, low=lo, high=hi)
    if c.min() == c.max():
        need_close(a, c[0] * (mx - mn) / mx, 'area of a constant distribution')
    need(list(x) == x0, 'arguments modified')


def measures(e):
    e = np.asarray(e)
    m = np.median(e)
    return [e.mean(), np.sqrt(((e - e.mean()) ** 2).mean()), m, np.median(np.abs(e - m)), e.max()]


@case(PID, 'statistical measures', 60)
def _(g):
    L = g.int(1, 4)
    es = [errors(g) for _ in range(L)]
    st, mx = 0.01, g.choice([0.1, 0.5])
    mn = g.choice([0., 0.05])
    x = [form(g, e) for e in es]
    r = compute_statistical_measures(x, st, mx, min_error=mn) if mn else compute_statistical_measures(x, st, mx)
    need(len(r) == 7, 'seven measures')
    for j, e in enumerate(es):
        for q, v in enumerate(measures(e)):
            need_close(r[q][j], v, 'measure %d of list %d' % (q, j))
        af = S.area_under_curve_and_failure_rate(e, st, mx, min_error=mn)
        need_close([r[5][j], r[6][j]], af, 'area and failure rate of list %d' % j)
    need(all(len(v) == L for v in r), 'one value per list')
    e = es[0]
    r = compute_statistical_measures(form(g, e), st, mx, min_error=mn)
    for q, v in enumerate(measures(e)):
        need_close(r[q], v, 'measure %d' % q)
    need_close([r[5], r[6]], S.area_under_curve_and_failure_rate(e, st, mx, min_error=mn), 'area and failure rate')


@case(PID, 'statistics table', 12)
def _(g):
    from menpofit.visualize import statistics_table
    L = g.int(1, 4)
    es = [[float(v) for v in errors(g, 8)] for _ in range(L)]
    names = ['m%d' % j for j in range(L)]
    allt = ['mean', 'std', 'median', 'mad', 'max', 'auc', 'fr']
    types = [t for t in g.r.permutation(allt)[:g.int(1, 7)]]
    cols = ['col_' + t for t in types]
    sort = g.choice([None] + types)
    tab = statistics_table(es, names, 0.5, 0.05, stats_types=types, stats_names=cols, sort_by=sort)
    ref = {n: dict(zip(allt, measures(e) + list(S.area_under_curve_and_failure_rate(e, 0.05, 0.5))))
           for n, e in zip(names, es)}
    need(list(tab.columns) == cols, 'columns in the order given')
    need(sorted(tab.index) == sorted(names), 'one row per method')
    for n in names:
        for t, c in zip(types, cols):
            need_close(tab.loc[n, c], ref[n][t], 'table entry %s/%s' % (n, t))
    if sort is None:
        need(list(tab.index) == names, 'rows in the order given')
    else:
        v = [ref[n][sort] for n in tab.index]
        need(all((a >= b - 1e-12) if sort == 'auc' else (a <= b + 1e-12) for a, b in zip(v, v[1:])),
             'sorted, best first', by=sort)
    raises(ValueError, lambda: statistics_table(es, names, 0.5, 0.05, stats_types=['nope']), 'unknown type')
    raises(ValueError, lambda: statistics_table(es, names, 0.5, 0.05, sort_by='nope'), 'unknown sort')
