"""C14: CLM response maps are distributions over the right offsets."""
from .common import *
from .algs import *
from ..engine import ring, bridge

PID = 'C14'
MB = 'menpofit.base'
EB = 'menpofit.clm.expert.base'
GD = 'menpofit.clm.algorithm.gd'
EN = 'menpofit.clm.expert.ensemble'


def world(**r):
    return World(stubs={'menpo.feature': {'ndfeature': lambda f: f}}, replace=r)


def sizes(*names):
    return [sint(n, 1) for n in names]


def idx(name, n):
    i = z3.Int(name)
    ctx().assume(z3.And(i >= 0, i < zint(n)))
    return i


@unit(PID, 'sampling grid', [MB + ':build_grid'])
def grid():
    m = world().load(MB)
    h, w = sizes('h', 'w')
    for shape in ((h, w), VList([h, w]), T.as_tensor(VList([h, w]))):
        g = m.build_grid(shape)
        prove('one row per patch row', zint(g.shape[0]) == h.t)
        prove('one column per patch column', zint(g.shape[1]) == w.t)
        prove('two coordinates', zint(g.shape[2]) == 2)
        i, j = idx('i', h), idx('j', w)
        prove('row offset', at(g, i, j, 0) == z3.ToReal(i - h.t / 2))
        prove('column offset', at(g, i, j, 1) == z3.ToReal(j - w.t / 2))
    # each offset once, around zero
    i2, j2 = idx('i2', h), idx('j2', w)
    prove('offsets enumerated once', z3.Implies(z3.And(at(g, i, j, 0) == at(g, i2, j2, 0),
                                                       at(g, i, j, 1) == at(g, i2, j2, 1)),
                                                z3.And(i == i2, j == j2)))
    prove('zero offset at the patch centre', z3.And(at(g, h.t / 2, w.t / 2, 0) == 0, at(g, h.t / 2, w.t / 2, 1) == 0))


@unit(PID, 'probability maps', [EB + ':probability_map'],
      ['numpy.min is a lower bound that is attained'])
def pmap():
    m = world().load(EB)
    n, h, w = sizes('n', 'h', 'w')
    x = fresh('x', axes_of(n, 1, h, w))
    fr = Frame(x=x)
    p = m.probability_map(x)
    fr.check()
    k, i, j = idx('k', n), idx('i', h), idx('j', w)
    z = z3.IntVal(0)
    prove('non-negative', at(p, k, z, i, j) >= 0)
    prove('sums to one', ssum(h, lambda a: ssum(w, lambda b: at(p, k, z, a, b))) == 1)
    mn = val(T.reduce_op('min', x[wrap(k), 0]))
    tot = ssum(h, lambda a: ssum(w, lambda b: at(x, k, z, a, b) - mn))
    prove('proportional to the response above its minimum',
          z3.Implies(tot > 0, at(p, k, z, i, j) * tot == at(x, k, z, i, j) - mn))
    prove('uniform for a constant response',
          z3.Implies(tot == 0, at(p, k, z, i, j) * z3.ToReal(h.t * w.t) == 1))


# ------------------------------------------------------------------ landmark updates
class Mvn(object):
    def __init__(self, mean, cov):
        self.mean, self.cov = mean, cov
        f = z3.Function('pos_pdf', REAL, REAL, REAL, REAL)
        prove('kernel centred at zero', z3.And(at(mean, 0) == 0, at(mean, 1) == 0))
        self.f = lambda a, b: f(zreal(cov), a, b)

    def pdf(self, x):
        """density at the points along the last axis; singleton axes are dropped"""
        x = T.as_tensor(x)
        if T.dprod(x.axes[-1]) != 2:
            raise Unsupported('points of two coordinates expected')
        e = x.frozen()
        keep = [k for k, a in enumerate(x.axes[:-1]) if not T.is1(a)]

        def elem(idx):
            full = [(z3.IntVal(0),) * len(a) for a in x.axes[:-1]]
            for k, i in zip(keep, idx):
                full[k] = i
            return self.f(*[zreal(wrap(e(full + [(z3.IntVal(c),)]))) for c in (0, 1)])
        return STensor([x.axes[k] for k in keep], elem, 'r')


class Experts(object):
    def __init__(self, n, h, w):
        self.n, self.search_shape = n, (h, w)
        self.calls = 0
        self.f = z3.Function('pos_response', INT, INT, INT, INT, REAL)

    def predict_probability(self, image, target):
        prove('responses at the current shape', T.tensor_eq(target.points, self.transform.x))
        self.r = fresh(ctx().fresh('response'), [(self.n.t,), (1,), (self.search_shape[0].t,),
                                                 (self.search_shape[1].t,)])
        return self.r.copy()


def offsets(h, w):
    return lambda i, j: (z3.ToReal(i - h.t / 2), z3.ToReal(j - w.t / 2))


def setup(cls, max_b=None, **kw):
    bridge.enable()
    m = world(**{}).load(GD)
    m.multivariate_normal = lambda mean=None, cov=None: Mvn(mean, cov)
    m.ParametricIterativeResult = Result
    n, k, h, w = sint('n', 2), sint('k', 1), sint('h', 2), sint('w', 2)
    np_ = wrap(k.t + 4)
    ctx().assume(2 * n.t >= np_.t)
    s = TransformState(n, np_)
    D = fresh('D', axes_of(n, np_, 2))
    s.d_dp = lambda x: D.copy()
    s.model = type('M', (), {})()
    s.model.noise_variance = lambda: sreal('rho2')
    s.model.eigenvalues = fresh('eig', axes_of(k))
    ex = Experts(n, h, w)
    ex.transform = s
    cov = sreal('cov')
    kw = {a: cov for a in kw}
    alg = getattr(m, cls)(ex, s, eps=sreal('eps'), **kw)
    J = T.reshape(T.transpose(D, (0, 2, 1)), (2 * n, np_))
    prior = STensor([(np_.t,)], lambda idx: z3.If(idx[0][0] < 4, z3.RealVal(0), rdiv(
        zreal(sreal('rho2')), zreal(wrap(s.model.eigenvalues.at([(idx[0][0] - 4,)]))))), 'r')
    return m, alg, s, ex, J, prior, cov, (n, k, h, w)


def update_spec(J, prior, p, e, map_inference):
    pull = prior * p
    J, p, e = bridge.mat(J), bridge.mat(p), bridge.mat(e)
    if not map_inference:
        return ring.inv(J.T.dot(J)).dot(J.T.dot(e)) + p
    L = bridge.atom(prior, 'diag')
    return p - ring.inv(J.T.dot(J) + L).dot(bridge.mat(pull) - J.T.dot(e))


DIMS = dict(n=5, k=2, h=3, w=3)


def rlms(map_inference):
    m, alg, s, ex, J, prior, cov, (n, k, h, w) = setup('RegularisedLandmarkMeanShift', kernel_covariance=1)
    g = offsets(h, w)
    K = z3.Function('pos_pdf', REAL, REAL, REAL, REAL)

    def wt(i, a, b):
        return zreal(wrap(ex.r.at([(i,), (z3.IntVal(0),), (a,), (b,)]))) * K(zreal(cov), *g(a, b))

    def hook(s, v):
        x = s.x

        def elem(idx):
            i, d = idx[0]
            tot = ssum(h, lambda a: ssum(w, lambda b: wt(i, a, b)))
            def one(c):
                num = ssum(h, lambda a: ssum(w, lambda b: wt(i, a, b) * rdiv(z3.RealVal(1), tot) *
                                             (zreal(wrap(x.at([(i,), (z3.IntVal(c),)]))) + g(a, b)[c])))
                return num - zreal(wrap(x.at([(i,), (z3.IntVal(c),)])))
            return z3.If(d == 0, one(0), one(1))
        err = STensor([(n.t, 2)], elem, 'r')
        bridge.prove_eq('parameters move by the fit to the mean-shift vector',
                        v, update_spec(J, prior, s.p, err, map_inference), DIMS)
    s.hook = hook
    out = alg.run(opq('image'), SPointCloud(fresh('x0', axes_of(n, 2))), max_iters=sint('max_iters', 0),
                  map_inference=map_inference)


for _m in (False, True):
    unit(PID, 'mean-shift step%s' % (' with prior' if _m else ''), [GD + ':RegularisedLandmarkMeanShift.run',
         GD + ':RegularisedLandmarkMeanShift._precompute', GD + ':GradientDescentCLMAlgorithm._precompute'],
         ['scipy.stats.multivariate_normal.pdf'], budget=300)(lambda _m=_m: rlms(_m))


def asm(map_inference):
    m, alg, s, ex, J, prior, cov, (n, k, h, w) = setup('ActiveShapeModel', gaussian_covariance=1)
    g = offsets(h, w)
    K = z3.Function('pos_pdf', REAL, REAL, REAL, REAL)

    def hook(s, v):
        x, r = s.x, ex.r
        best = shim.np_unravel_index(shim.np_argmax(r.reshape((n, 1, wrap(h.t) * w)), axis=-1),
                                     VTuple([n, 1, h, w]))
        r_, c_ = best[2], best[3]

        def elem(idx):
            i, d = idx[0]
            pos = [(i,), (z3.IntVal(0),)]
            mo = g(zint(wrap(r_.at(pos))), zint(wrap(c_.at(pos))))

            def wt(a, b):
                return K(zreal(cov), mo[0] + g(a, b)[0], mo[1] + g(a, b)[1])
            tot = ssum(h, lambda a: ssum(w, lambda b: wt(a, b)))

            def one(c):
                num = ssum(h, lambda a: ssum(w, lambda b: wt(a, b) * rdiv(z3.RealVal(1), tot) *
                                             (zreal(wrap(x.at([(i,), (z3.IntVal(c),)]))) + g(a, b)[c])))
                return zreal(wrap(x.at([(i,), (z3.IntVal(c),)]))) - num
            return z3.If(d == 0, one(0), one(1))
        err = STensor([(n.t, 2)], elem, 'r')
        bridge.prove_eq('parameters move by the fit to the kernel average around the best offset',
                        v, update_spec(J, prior, s.p, err, map_inference), DIMS)
    s.hook = hook
    alg.run(opq('image'), SPointCloud(fresh('x0', axes_of(n, 2))), max_iters=sint('max_iters', 0),
            map_inference=map_inference)


for _m in (False, True):
    unit(PID, 'arg-max step%s' % (' with prior' if _m else ''), [GD + ':ActiveShapeModel.run',
         GD + ':ActiveShapeModel._precompute', GD + ':GradientDescentCLMAlgorithm._precompute'],
         ['scipy.stats.multivariate_normal.pdf', 'numpy.argmax'], budget=300)(lambda _m=_m: asm(_m))
