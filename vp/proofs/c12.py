"""C12: supervised descent trains on aligned features and targets."""
from .common import *
from ..engine.tensor import RowIx

PID = 'C12'
B = 'menpofit.sdm.algorithm.base'


class Cell(object):
    """one of many shapes: its vector is a row of an array"""
    __vatomic__ = True
    __vtrusted__ = 'menpo PointCloud: as_vector returns a copy of the coordinates, _from_vector_inplace replaces ' \
                   'them; the shapes given are distinct objects'

    def __init__(self, heap, ids):
        self.heap, self.ids = heap, tuple(ids)

    def __vsubst__(self, pairs):
        return Cell(self.heap, [z3.substitute(i, *pairs) for i in self.ids])

    def __enc__(self):
        from ..engine.opq import mk
        return mk('cell_' + self.heap.name, *self.ids)

    def __veq__(self, o):
        return z3.And(*[a == b for a, b in zip(self.ids, o.ids)]) if self.heap is o.heap else z3.BoolVal(False)

    @property
    def n_parameters(self):
        return self.heap.shape[1]

    def as_vector(self, **k):
        return self.heap[RowIx(self.ids)].copy()

    def _from_vector_inplace(self, v):
        self.heap[RowIx(self.ids)] = v
    from_vector_inplace = _from_vector_inplace


def z_(n):
    return n.t if isinstance(n, SInt) else n


class Training(object):
    """n images, m current shapes each, d coordinates"""

    def __init__(self, name='s'):
        self.n, self.m, self.d = sint('n_img', 1), sint('n_pert', 1), sint('n_coord', 1)
        self.gt = fresh('gt', axes_of(self.n, self.d))
        self.cur = fresh('cur', [(self.n.t, self.m.t), (self.d.t,)])
        self.gt.name, self.cur.name = 'gt', 'cur'
        ctx().heaps['\u00a7cur'] = self.cur
        self.cur0 = self.cur.frozen()
        self.frame = Frame(ground_truth=self.gt)
        self.gt_shapes = slist('gts', self.n, lambda i: Cell(self.gt, (i,)))
        self.current = slist('cs', self.n, lambda i: self.shapes(i))

    def shapes(self, i):
        return slist('csi', self.m, lambda j: Cell(self.cur, (i, j)))

    def rows(self, name, d=None):
        return fresh(name, [(self.n.t, self.m.t), (z_(d or self.d),)])

    def at(self, e, i, j, c):
        return zreal(wrap(e([(i, j), (c,)])))


def eq_rows(name, got, tr, want, d=None):
    """got is an array of one row per image and shape, in this order: want(i, j, c)"""
    n, m = tr.n.t, tr.m.t
    d = z_(d if d is not None else tr.d)
    if not isinstance(got, STensor) or got.ndim != 2:
        fail(name, 'not a matrix: %r' % (got,))
        return
    ax = got.axes[0]
    if len(ax) == 1 and z3.is_mul(z3.simplify(zi(ax[0]))):
        got._refactor(0, (n, m))
        ax = got.axes[0]
    if len(ax) != 2:
        fail(name, 'rows %r' % (got.axes,))
        return
    prove(name + ': one row per shape', z3.And(ax[0] == n, ax[1] == m, zi(T.dprod(got.axes[1])) == d))
    i, j, k = (z3.Int(ctx().fresh(x)) for x in 'ijk')
    ctx().assume(z3.And(i >= 0, i < n, j >= 0, j < m, k >= 0, k < d))
    prove(name, zreal(wrap(got.at([(i, j), (k,)]))) == want(i, j, k))


def zi(x):
    return x if z3.is_expr(x) else z3.IntVal(int(x))


@unit(PID, 'non-parametric displacements', ['sdm/algorithm/base.py compute_non_parametric_delta_x'])
def np_delta(f=None):
    f = f or World().load(B).compute_non_parametric_delta_x
    tr = Training()
    fr = Frame(current=tr.cur)
    dx, gx = f(tr.gt_shapes, tr.current)
    g = tr.gt.frozen()
    eq_rows('ground truth of each row', gx, tr, lambda i, j, c: g([(i,), (c,)]))
    eq_rows('displacement of each row', dx, tr, lambda i, j, c: g([(i,), (c,)]) - tr.at(tr.cur0, i, j, c))
    fr.check('current shapes unmodified')
    tr.frame.check('ground truth unmodified')


@unit(PID, 'non-parametric estimates', ['sdm/algorithm/base.py update_non_parametric_estimates'])
def np_update(f=None):
    f = f or World().load(B).update_non_parametric_estimates
    tr = Training()
    est, dx, gx = tr.rows('est'), tr.rows('dx'), tr.rows('gtx')
    e, g = est.frozen(), gx.frozen()
    fr = Frame(estimates=est, ground_truths=gx)
    f(est, dx, gx, tr.current)
    new = lambda i, j, c: tr.at(tr.cur0, i, j, c) + tr.at(e, i, j, c)
    eq_rows('each shape moves by its own estimate', tr.cur, tr, new)
    eq_rows('displacement left of each row', dx, tr, lambda i, j, c: tr.at(g, i, j, c) - new(i, j, c))
    fr.check()


# --- shape models ----------------------------------------------------------
ARR = z3.ArraySort(INT, REAL)


def arr(v):
    """the content of a vector"""
    c = z3.Int('arr!c')
    return z3.Lambda([c], zreal(wrap(v.frozen()([(c,)]))))


class Model(object):
    """parameters and target are arbitrary functions of what was set last"""
    __vtrusted__ = 'the shape model: parameters after set_target are a function of the target set, the target after ' \
                   '_from_vector_inplace is a function of the parameters (C09)'

    def __init__(self, q, d, sparse=False):
        self.q, self.d = q, d
        self._p, self._t = fresh('p0', axes_of(q)), fresh('t0', axes_of(d))
        if sparse:
            self._s = fresh('s0', axes_of(d))

    n_parameters = property(lambda s: s.q)

    @staticmethod
    def fun(name, v, n):
        f = z3.Function(name, ARR, INT, REAL)
        a = arr(v)
        return STensor(axes_of(n), lambda idx: f(a, idx[0][0]), 'r')

    def set_target(self, s):
        v = s.as_vector()
        self._p = self.fun('parameters_of', v, self.q)
        self._t = self.fun('target_of', self._p, self.d)
        if '_s' in self.__dict__:
            self._s = self.fun('sparse_target_of', self._p, self.d)

    def as_vector(self):
        return self._p.copy()

    def _from_vector_inplace(self, v):
        self._p = T.as_tensor(v).copy()
        self._t = self.fun('target_of', self._p, self.d)
        if '_s' in self.__dict__:
            self._s = self.fun('sparse_target_of', self._p, self.d)
    from_vector_inplace = _from_vector_inplace

    @property
    def target(self):
        return Vec(self._t)

    def __getattr__(self, k):
        if k == 'sparse_target' and '_s' in self.__dict__:
            return Vec(self._s)
        raise AttributeError(k)


class Vec(object):
    """a shape that only hands out its vector"""

    def __init__(self, v):
        self.v = v

    def as_vector(self, **k):
        return self.v.copy()


def par_setup():
    w = World()
    tr = Training()
    q = sint('n_par', 1)
    return w.load(B), tr, q


def params_of(tr, e, i, j, q):
    v = STensor(axes_of(tr.d), lambda idx: zreal(wrap(e([(i, j), idx[0]]))), 'r')
    return Model.fun('parameters_of', v, q)


@unit(PID, 'parametric displacements', ['sdm/algorithm/base.py compute_parametric_delta_x'])
def par_delta(f=None):
    M, tr, q = par_setup()
    f = f or M.compute_parametric_delta_x
    fr = Frame(current=tr.cur)
    g = tr.gt.frozen()
    dx, gx = f(tr.gt_shapes, tr.current, Model(q, tr.d))
    pg = lambda i: Model.fun('parameters_of', STensor(axes_of(tr.d), lambda idx: g([(i,), idx[0]]), 'r'), q).frozen()
    eq_rows('parameters of the ground truth of each row', gx, tr, lambda i, j, c: pg(i)([(c,)]), q)
    eq_rows('parameter displacement of each row', dx, tr, lambda i, j, c: pg(i)([(c,)]) - params_of(
        tr, tr.cur0, i, j, q).frozen()([(c,)]), q)
    fr.check('current shapes unmodified')
    tr.frame.check('ground truth unmodified')


def par_update(sparse, f=None):
    M, tr, q = par_setup()
    f = f or M.update_parametric_estimates
    est, dx, gx = tr.rows('est', q), tr.rows('dx', q), tr.rows('gtx', q)
    e, g = est.frozen(), gx.frozen()
    fr = Frame(estimates=est, ground_truths=gx)
    f(est, dx, gx, tr.current, Model(q, tr.d, sparse))

    def newp(i, j):
        p = params_of(tr, tr.cur0, i, j, q).frozen()
        return STensor(axes_of(q), lambda idx: p(idx) + zreal(wrap(e([(i, j), idx[0]]))), 'r')
    eq_rows('each shape is the target at its own parameters plus its own estimate', tr.cur, tr, lambda i, j, c: Model.fun(
        'sparse_target_of' if sparse else 'target_of', newp(i, j), tr.d).frozen()([(c,)]))
    eq_rows('parameter displacement left of each row', dx, tr, lambda i, j, c: tr.at(g, i, j, c) - newp(i, j).frozen()([(c,)]), q)
    fr.check()


for _s in (False, True):
    unit(PID, 'parametric estimates, %s model' % ('linear' if _s else 'standard'),
         ['sdm/algorithm/base.py update_parametric_estimates'])(lambda s=_s: par_update(s))


# --- features --------------------------------------------------------------
ARR3 = z3.ArraySort(INT, INT, INT, REAL)


class Image(object):
    """the i-th image: a patch is a function of the image, the points it is cut around and its number"""
    __vatomic__ = True
    __vtrusted__ = 'menpo Image.extract_patches: a copy of the pixels around each point, one block per point ' \
                   '(C18 for what menpofit asks of it)'

    def __init__(self, i, dims, asked):
        self.i, self.dims, self.asked = i, dims, asked

    def __vsubst__(self, pairs):
        return Image(z3.substitute(self.i, *pairs), self.dims, self.asked)

    def extract_patches(self, shape, patch_shape=(16, 16), sample_offsets=None, as_single_array=True, **k):
        P, O, C, h, w = self.dims
        prove('patches of the size configured', patch_shape is self.asked)
        prove('patches as one array', as_single_array is True and sample_offsets is None and not k)
        f = z3.Function('patch', INT, ARR, *([INT] * 5 + [REAL]))
        a, i = arr(shape.as_vector()), self.i
        return STensor(axes_of(P, O, C, h, w), lambda idx: f(i, a, *[x[0] for x in idx]), 'r')


def featfun(F):
    f = z3.Function('feature', ARR3, INT, REAL)

    def feature(t):
        if t.ndim != 3:
            fail('features of one patch', 'array of %d dimensions' % t.ndim)
        vs = [z3.Int('fe!%d' % k) for k in range(3)]
        a = z3.Lambda(vs, zreal(wrap(t.frozen()([(v,) for v in vs]))))
        return STensor(axes_of(F), lambda idx: f(a, idx[0][0]), 'r')
    return feature


def feat_setup():
    w = World(stubs={'menpofit.visualize': {'print_progress': lambda x, **k: x}})
    M = w.load(B)
    P, O, C, h, wd, F = [sint(x, 1) for x in ('n_pts', 'n_off', 'n_ch', 'h', 'w', 'n_feat')]
    tr = Training()
    ask = ('patch', 'shape')
    dims = (P, O, C, h, wd)
    return M, tr, dims, F, ask, featfun(F)


def want_feature(tr, dims, F, cur, p, k, i):
    f = z3.Function('patch', INT, ARR, *([INT] * 5 + [REAL]))
    vs = [z3.Int('fe!%d' % q) for q in range(3)]
    a = z3.Lambda(vs, f(i, arr(cur), p, z3.IntVal(0), *vs))
    return z3.Function('feature', ARR3, INT, REAL)(a, k)


def feature_rows(name, got, tr, dims, F, lead, cur):
    """got: one row for each index of lead, (point, feature) within a row"""
    if not isinstance(got, STensor) or got.ndim != (2 if lead else 1):
        fail(name, 'shape %r' % (getattr(got, 'axes', got),))
        return
    got = T.reshape(got, tuple([T.Composite([n for n, _ in lead])] if lead else []) + (T.Composite([dims[0].t, F.t]),))
    c = ctx()
    ids = []
    for n, _ in lead + [(dims[0].t, 0), (F.t, 0)]:
        i = z3.Int(c.fresh('row'))
        c.assume(z3.And(i >= 0, i < n))
        ids.append(i)
    r = [tuple(ids[:-2])] if lead else []
    prove(name, zreal(wrap(got.at(r + [tuple(ids[-2:])]))) == cur(ids[:-2], ids[-2], ids[-1]))


@unit(PID, 'features at one shape', ['sdm/algorithm/base.py features_per_patch'])
def feat_patch(f=None):
    M, tr, dims, F, ask, ff = feat_setup()
    f = f or M.features_per_patch
    i, j = sint('i', 0).t, sint('j', 0).t
    ctx().assume(z3.And(i < tr.n.t, j < tr.m.t))
    im = Image(i, dims, ask)
    got = f(im, tr.shapes(i).at(j), ask, ff)
    row = STensor(axes_of(tr.d), lambda idx: tr.cur0([(i, j), idx[0]]), 'r')
    feature_rows('features of each point in order', got, tr, dims, F, [], lambda ids, p, k: want_feature(tr, dims, F, row, p, k, i))


@unit(PID, 'features of all shapes', ['sdm/algorithm/base.py features_per_shapes', 'sdm/algorithm/base.py features_per_image'])
def feat_image(f=None):
    M, tr, dims, F, ask, ff = feat_setup()
    f = f or (lambda ims, cur, ask, ff: M.features_per_image(ims, cur, ask, ff, prefix='p', verbose=False))
    fr = Frame(current=tr.cur)
    images = slist('ims', tr.n, lambda i: Image(i, dims, ask))
    got = f(images, tr.current, ask, ff)

    def row(i, j):
        return STensor(axes_of(tr.d), lambda idx: tr.cur0([(i, j), idx[0]]), 'r')
    feature_rows('row of each image and shape', got, tr, dims, F, [(tr.n.t, 0), (tr.m.t, 0)],
                 lambda ids, p, k: want_feature(tr, dims, F, row(*ids), p, k, ids[0]))
    fr.check('current shapes unmodified')


@unit(PID, 'features at one shape of an image', ['sdm/algorithm/base.py features_per_shapes'])
def feat_shapes():
    M, tr, dims, F, ask, ff = feat_setup()
    i = sint('i', 0).t
    ctx().assume(i < tr.n.t)
    got = M.features_per_shapes(Image(i, dims, ask), tr.shapes(i), ask, ff)
    row = lambda j: STensor(axes_of(tr.d), lambda idx: tr.cur0([(i, j), idx[0]]), 'r')
    feature_rows('row of each shape', got, tr, dims, F, [(tr.m.t, 0)],
                 lambda ids, p, k: want_feature(tr, dims, F, row(ids[0]), p, k, i))


def arrn(v):
    """the content of a vector whose axis has several factors"""
    vs = [z3.Int('arr!%d' % k) for k in range(len(v.axes[0]))]
    return z3.Lambda(vs, zreal(wrap(v.frozen()([tuple(vs)]))))


class AppearanceVectors(object):
    __vatomic__ = True
    __vtrusted__ = 'menpo PCAVectorModel: project_out and project are functions of the vector, mean is fixed'

    def __init__(self, P, F, m):
        self.P, self.F, self.m = P, F, m
        self.mu = fresh('app_mean', [(P.t, F.t)])

    def mean(self):
        return self.mu.copy()

    def _f(self, name, v, axes):
        if not isinstance(v, STensor) or v.ndim != 1:
            fail('%s of a vector' % name, repr(v))
        a = arrn(v)
        f = z3.Function(name, a.sort(), *([INT] * len(axes[0]) + [REAL]))
        return STensor(axes, lambda idx: f(a, *idx[0]), 'r')

    def project_out(self, v):
        return self._f('project_out', v, [(self.P.t, self.F.t)])

    def project(self, v):
        return self._f('project', v, axes_of(self.m))


class Shell(object):
    """an algorithm: attributes given, methods of the real class"""


def shell(cls, **kw):
    a = object.__new__(cls)
    a.__dict__.update(kw)
    return a


PA = 'menpofit.sdm.algorithm.parametricappearance'
FP = 'menpofit.sdm.algorithm.fullyparametric'


def app_world():
    return World(stubs={'menpofit.visualize': {'print_progress': lambda x, **k: x}, 'menpo.model': {'PCAVectorModel': object},
                        'menpo.feature': {'no_op': lambda x: x}})


def app_features(mod, cname, kind, built):
    w = app_world()
    M = w.load(mod)
    cls = getattr(M, cname)
    P, O, C, h, wd, F = [sint(x, 1) for x in ('n_pts', 'n_off', 'n_ch', 'h', 'w', 'n_feat')]
    tr = Training()
    ask, dims = ('patch', 'shape'), (P, O, C, h, wd)
    am = AppearanceVectors(P, F, sint('n_app', 1))
    calls = []

    def build(vectors):
        calls.append(vectors)
        return am
    alg = shell(cls, regressors=VList(), appearance_model=am if built else None, appearance_model_cls=build,
                patch_shape=ask, patch_features=featfun(F))
    fr = Frame(current=tr.cur)
    images = slist('ims', tr.n, lambda i: Image(i, dims, ask))
    g = tr.gt.frozen()

    def feat(i, row):
        return STensor([(P.t, F.t)], lambda idx: want_feature(tr, dims, F, row, idx[0][0], idx[0][1], i), 'r')

    def want(i, row):
        v = feat(i, row)
        if kind == 'mean':
            e, mu = v.frozen(), am.mu.frozen()
            return STensor(v.axes, lambda idx: zreal(wrap(e(idx))) - zreal(wrap(mu(idx))), 'r')
        return am._f(kind, v, v.axes if kind == 'project_out' else axes_of(am.m))
    got = alg._compute_training_features(images, tr.gt_shapes, tr.current)
    ax = (am.m.t,) if kind == 'project' else (P.t, F.t)
    c = ctx()
    if not isinstance(got, STensor) or got.ndim != 2:
        fail('rows', repr(got))
        return
    prove('one row per image and shape', z3.And(zi(T.dprod(got.axes[0])) == tr.n.t * tr.m.t, zi(T.dprod(got.axes[1])) == T.dprod(ax)))
    got = T.reshape(got, (T.Composite([tr.n.t, tr.m.t]), T.Composite(list(ax))))
    i, j = z3.Int(c.fresh('i')), z3.Int(c.fresh('j'))
    ks = tuple(z3.Int(c.fresh('k')) for _ in ax)
    for v, b in [(i, tr.n.t), (j, tr.m.t)] + list(zip(ks, ax)):
        c.assume(z3.And(v >= 0, v < b))
    row = STensor(axes_of(tr.d), lambda idx: tr.cur0([(i, j), idx[0]]), 'r')
    prove('row of each image and shape', zreal(wrap(got.at([(i, j), ks]))) == zreal(wrap(want(i, row).at([ks]))))
    fr.check('current shapes unmodified')
    tr.frame.check('ground truth unmodified')
    # the same function at test time
    t = alg._compute_test_features(Image(i, dims, ask), tr.shapes(i).at(j))
    prove('the features of a fit are the features trained on', zreal(wrap(t.at([ks]))) == zreal(wrap(want(i, row).at([ks]))))
    prove('one appearance model', len(calls) == (0 if built else 1))
    if built:
        return
    V = calls[0]
    V = T.reshape(V, (tr.n, T.Composite([P.t, F.t])))
    grow = STensor(axes_of(tr.d), lambda idx: g([(i,), idx[0]]), 'r')
    p, k = z3.Int(c.fresh('p')), z3.Int(c.fresh('k'))
    c.assume(z3.And(p >= 0, p < P.t, k >= 0, k < F.t))
    prove('appearance model built from the ground truth of each image', zreal(wrap(V.at([(i,), (p, k)]))) == zreal(wrap(
        feat(i, grow).at([(p, k)]))))


for _m, _c, _k in ((PA, 'ParametricAppearanceProjectOutNewton', 'project_out'), (PA, 'ParametricAppearanceMeanTemplateNewton', 'mean'),
                   (PA, 'ParametricAppearanceWeightsNewton', 'project'), (PA, 'ParametricAppearanceProjectOutGuassNewton', 'project_out'),
                   (PA, 'ParametricAppearanceMeanTemplateGuassNewton', 'mean'), (PA, 'ParametricAppearanceWeightsGuassNewton', 'project'),
                   (FP, 'FullyParametricProjectOutNewton', 'project_out'), (FP, 'FullyParametricMeanTemplateNewton', 'mean'),
                   (FP, 'FullyParametricWeightsNewton', 'project'), (FP, 'FullyParametricProjectOutGaussNewton', 'project_out'),
                   (FP, 'FullyParametricProjectOutOPP', 'project_out')):
    for _b in (False, True):
        unit(PID, 'appearance features of %s, %s' % (_c, 'incremental' if _b else 'batch'),
             ['%s:%s._compute_training_features' % (_m, _c), '%s:%s._compute_test_features' % (_m, _c),
              '%s:%s._compute_parametric_features' % (_m, _c), 'sdm/algorithm/base.py build_appearance_model'])(
            lambda m=_m, c=_c, k=_k, b=_b: app_features(m, c, k, b))


# --- the cascade -----------------------------------------------------------
class Tick(object):
    """how often the current shapes have been updated"""

    def __init__(self):
        self.c = sint('updates', 0)
        self.start = self.c

    def k(self):
        return z3.simplify(zint(self.c) - zint(self.start))


class Feats(object):
    """the features at the shapes of state c"""
    __vframe__ = ()
    __vleaf__ = True

    def __init__(self, c):
        self.c = c

    def __veq__(self, o):
        return zint(self.c) == zint(o.c)


class Delta(object):
    """displacements, rewritten in place by every update"""

    def __init__(self, c):
        self.c = c


class Est(object):
    __vleaf__ = True

    def __init__(self, r, c):
        self.r, self.c = r, c


class Reg(object):
    """a regressor: what it was trained on"""
    __vleaf__ = True
    __vtrusted__ = 'regressors: prediction is a function of the regressor and the features (C11)'

    def __init__(self):
        self.on = wrap(z3.IntVal(-1))

    def train(self, f, d):
        prove('trained on features and displacements of the same shapes', zint(f.c) == zint(d.c))
        prove('a regressor is trained once', zint(self.on) == -1)
        self.on = f.c

    def predict(self, f):
        return Est(self.on, f.c)

    def __veq__(self, o):
        return zint(self.on) == zint(o.on)


class OldReg(object):
    """the k-th regressor of an algorithm trained before"""
    __vatomic__ = True

    def __init__(self, k, log):
        self.k, self.log = k, log

    def __vsubst__(self, pairs):
        return OldReg(z3.substitute(self.k, *pairs), self.log)

    def increment(self, f, d):
        prove('incremented on features and displacements of the same shapes', zint(f.c) == zint(d.c))
        prove('level k is incremented at level k', zi(self.k) == self.log.k())
        self.log.inc = wrap(zint(self.log.inc) + 1)

    def predict(self, f):
        prove('level k predicts after it was incremented', zint(self.log.inc) == self.log.k() + 1)
        return Est(SInt(self.k), f.c)


@unit(PID, 'cascade training', ['sdm/algorithm/base.py BaseSupervisedDescentAlgorithm._train', 'sdm/algorithm/base.py '
                                'BaseSupervisedDescentAlgorithm.train'])
def train_():
    cascade(False)


@unit(PID, 'cascade incrementing', ['sdm/algorithm/base.py BaseSupervisedDescentAlgorithm._train', 'sdm/algorithm/base.py '
                                    'BaseSupervisedDescentAlgorithm.increment'])
def inc_():
    cascade(True)


def cascade(inc):
    w = World()
    Base = w.load(B).BaseSupervisedDescentAlgorithm
    tick = Tick()
    tick.inc = wrap(z3.IntVal(0))
    n = sint('n_iterations', 0)
    images, gts = opq('images'), slist('gts', sint('n_img', 1), lambda i: Opq(z3.Function('gt', INT, V)(i)))
    cur = slist('cur', sint('n_img2', 1), lambda i: slist('c', sint('n_pert', 1), lambda j: Opq(z3.Function('cs', INT, INT, V)(i, j))))
    D, G = Delta(tick.c), opq('gtx')
    asked = []

    class Alg(Base):
        n_iterations = n
        _regressor_cls = staticmethod(Reg)

        def _compute_delta_x(self, g, c):
            prove('displacements from the current shapes to the ground truth', g is gts and c is cur)
            prove('displacements before any update', tick.k() == 0)
            asked.append(1)
            return D, G

        def _compute_training_features(self, i, g, c, prefix='', verbose=False):
            prove('features of the images at the current shapes', i is images and g is gts and c is cur)
            return Feats(tick.c)

        def _update_estimates(self, e, d, g, c):
            prove('the displacements and shapes updated are the trained ones', d is D and g is G and c is cur)
            prove('estimates from the features of the same shapes', zint(e.c) == zint(tick.c))
            prove('estimates of the regressor of this level', zint(e.r) == (tick.k() if inc else zint(tick.c)))
            tick.c = wrap(z3.simplify(zint(tick.c) + 1))
            d.c = tick.c

    a = object.__new__(Alg)
    a.tick = tick
    a.D = D
    if inc:
        a.regressors = slist('regs', n, lambda k: OldReg(k, tick))
        before = a.regressors
        if ctx().branch(n.t == 0):
            expect_raises('an untrained algorithm is not incremented', ValueError, lambda: a.increment(images, gts, cur))
            return
        out = a.increment(images, gts, cur)
        prove('regressors kept', a.regressors is before)
        prove('every level incremented once', zint(tick.inc) == n.t)
    else:
        a.regressors = opq('old')
        out = a.train(images, gts, cur)
        rs = as_vlist(a.regressors)
        prove('one regressor per level', rs.zlen() == n.t)
        j = z3.Int(ctx().fresh('j'))
        ctx().assume(z3.And(j >= 0, j < n.t))
        prove('regressor j trained after j updates', zint(loops.deft(rs.at(j)).on) == zint(tick.start) + j)
    prove('displacements computed once', len(asked) == 1)
    prove('the current shapes are handed on', out is cur)
    prove('one update per level', tick.k() == n.t)


# --- fitting ---------------------------------------------------------------
class Shapes(object):
    """shapes made one after the other: the c-th has coordinates X(c)"""

    def __init__(self, d):
        self.d = d
        self.X = z3.Function('X', INT, INT, REAL)
        self.step = self.moved = None

    def vec(self, c):
        c = zint(c)
        return STensor(axes_of(self.d), lambda idx: self.X(c, idx[0][0]), 'r')

    def shape(self, c):
        return Sh(self, c)


class Sh(object):
    __vleaf__ = True
    __vframe__ = ('all',)
    __vtrusted__ = 'menpo PointCloud: from_vector makes a new shape with the coordinates given'

    def __init__(self, all_, c):
        self.all, self.c = all_, wrap(zint(c))

    __vcount__ = 'c'

    def at_count(self, c):
        return Sh(self.all, c)

    def __vsubst__(self, pairs):
        return Sh(self.all, z3.substitute(zint(self.c), *pairs))

    def __veq__(self, o):
        return zint(self.c) == zint(o.c)

    def as_vector(self, **k):
        return self.all.vec(self.c)

    def from_vector(self, v):
        self.all.step(self.c, v)
        return self.all.shape(self.all.moved() if self.all.moved else z3.simplify(zint(self.c) + 1))


class FReg(object):
    """regressor of level k: prediction is a function of level and features"""
    __vatomic__ = True

    def __init__(self, k, q, log):
        self.k, self.q, self.log = k, q, log

    def __vsubst__(self, pairs):
        return FReg(z3.substitute(self.k, *pairs), self.q, self.log)

    def predict(self, f):
        self.log(self.k, f)
        e = z3.Function('prediction', INT, INT, REAL)
        k = self.k
        return STensor(axes_of(self.q), lambda idx: e(k, idx[0][0]), 'r')


class Out(object):
    def __init__(self, **k):
        self.__dict__.update(k)


def fit_world():
    return World(stubs={'menpofit.result': {'NonParametricIterativeResult': Out, 'ParametricIterativeResult': Out},
                        'menpofit.fitter': {'raise_costs_warning': lambda a: None}})


@unit(PID, 'non-parametric fit', ['sdm/algorithm/base.py fit_non_parametric_shape'])
def fit_np(run=None):
    M = fit_world().load(B)

    def run0(regs, features, image, ini, gt, rc):
        a = Shell()
        a.regressors, a._compute_test_features = regs, features
        return M.fit_non_parametric_shape(image, ini, a, gt_shape=gt, return_costs=rc)
    run = run or run0
    d, n = sint('n_coord', 1), sint('n_levels', 0)
    S = Shapes(d)
    image, gt = opq('image'), opq('gt')
    P = z3.Function('prediction', INT, INT, REAL)

    def features(im, s):
        prove('features of the image', im is image)
        return Feats(s.c)

    def pred(k, f):
        prove('level k predicts from the features at the current shape', zi(k) == zint(f.c))
    regs = slist('regs', n, lambda k: FReg(k, d, pred))

    def step(c, v):
        c = zint(c)
        prove_eq('each level moves the shape by its prediction', T.as_tensor(v), STensor(
            axes_of(d), lambda idx: S.X(c, idx[0][0]) + P(c, idx[0][0]), 'r'))
    S.step = step
    ini = S.shape(0)
    ini_v = ini.as_vector()
    rc = ctx().branch(z3.Bool('return_costs'))
    out = run(regs, features, image, ini, gt, rc)
    sh = as_vlist(out.shapes)
    prove('one shape per level', sh.zlen() == n.t)
    j = z3.Int(ctx().fresh('j'))
    ctx().assume(z3.And(j >= 0, j < n.t))
    prove('the shapes of the levels in order', zint(loops.deft(sh.at(j)).c) == j + 1)
    prove('what was fitted', out.initial_shape is ini and out.image is image and out.gt_shape is gt)


class PModel(object):
    """a model set again and again: after the c-th time its target has the
    coordinates X(c) and its parameters are Q(c)"""
    __vtrusted__ = 'the shape model or transform: target generated by the parameters, as_vector reads them back (C09)'

    def __init__(self, S, q):
        self.S, self.q = S, q
        self.c = sint('set_count', 0)
        self.Q = z3.Function('parameters', INT, INT, REAL)
        self.first = self.hook = None

    def params(self, c):
        c = zi(zint(c))
        return STensor(axes_of(self.q), lambda idx: self.Q(c, idx[0][0]), 'r')

    def as_vector(self):
        return self.params(self.c)

    @property
    def target(self):
        return self.S.shape(self.c)

    def bump(self):
        self.c = wrap(z3.simplify(zint(self.c) + 1))

    def set_target(self, s):
        if self.first is not None:
            fail('the model is set to the initial shape once', 'set again')
        prove('the fit starts from the initial shape', s is self.ini)
        self.bump()
        self.first = zint(self.c)

    def _from_vector_inplace(self, v):
        v = T.as_tensor(v)
        self.hook(v)
        self.bump()
        i, c, e = z3.Int('qi!'), zint(self.c), v.frozen()
        loops_name(v, self.params(self.c))
        ctx().assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < self.q.t), self.Q(c, i) == zreal(wrap(e([(i,)])))),
                               patterns=[self.Q(c, i)]))
    from_vector_inplace = _from_vector_inplace


def loops_name(v, t):
    if '_deft' not in v.__dict__:
        v._deft = (v.version(), t)


def start_of(S, model):
    ini = Sh(S, z3.Int('initial shape'))
    model.ini = ini
    return ini


def par_run(name, run, model, S, n, q, again):
    """run: a fit with n levels; again: how often the model is set per level"""
    image, gt = opq('image'), opq('gt')
    P = z3.Function('prediction', INT, INT, REAL)

    def pred(k, f):
        prove('level k predicts from the features at its own shape', zint(f.c) == model.first + again * zi(k))

    regs = slist('regs', n, lambda k: FReg(k, q, pred))

    def features(im, s):
        prove('features of the image', im is image)
        prove('features at the current shape', zint(s.c) == zint(model.c))
        f = Feats(s.c)
        if again == 2:
            model.bump()        # the warp sets the transform again
        return f

    def hook(v):
        c = z3.simplify(zint(model.c) - (again - 1))
        k = z3.simplify((c - model.first))
        if again == 2:
            k = z3.simplify(k / 2)
        prove_eq('each level adds its prediction to the parameters', v, STensor(
            axes_of(q), lambda idx: model.Q(c, idx[0][0]) + P(k, idx[0][0]), 'r'))
    model.hook = hook

    def moved(c, v):
        prove_eq('the shape of a level is the target of the model', T.as_tensor(v), S.vec(model.c))
    ini = start_of(S, model)
    S.step = moved
    S.moved = lambda: model.c
    rc = ctx().branch(z3.Bool('return_costs'))
    out = run(features, regs, image, ini, gt, rc)
    sh, ps = as_vlist(out.shapes), as_vlist(out.shape_parameters)
    prove('one shape per level and the initial one', sh.zlen() == n.t + 1)
    prove('one parameter vector per shape', ps.zlen() == n.t + 1)
    j, i = z3.Int(ctx().fresh('j')), z3.Int(ctx().fresh('i'))
    ctx().assume(z3.And(j >= 0, j <= n.t, i >= 0, i < q.t))
    prove('the shapes of the levels in order', zint(loops.deft(sh.at(j)).c) == model.first + again * j)
    prove('the parameters of the levels in order', zreal(wrap(loops.deft(ps.at(j)).at([(i,)]))) == model.Q(
        z3.simplify(model.first + again * j), i))
    prove('what was fitted', out.initial_shape is ini and out.image is image and out.gt_shape is gt)


@unit(PID, 'parametric fit', ['sdm/algorithm/base.py fit_parametric_shape'])
def fit_par(cls=None):
    M = fit_world().load(B)
    d, n, q = sint('n_coord', 1), sint('n_levels', 0), sint('n_par', 1)
    S = Shapes(d)
    model = PModel(S, q)

    class Alg(object):
        pass

    def run(features, regs, image, ini, gt, rc):
        if cls is not None:
            a = shell(cls, shape_model=model, regressors=regs, _compute_test_features=features)
            return a.run(image, ini, gt_shape=gt, return_costs=rc)
        a = Alg()
        a.shape_model, a.regressors, a._compute_test_features = model, regs, features
        return M.fit_parametric_shape(image, ini, a, gt_shape=gt, return_costs=rc)
    par_run('fit', run, model, S, n, q, 1)


AS = 'menpofit.aam.algorithm.sd'


class SDInterface(object):
    pass


def asd_world():
    return World(stubs={'menpofit.visualize': {'print_progress': lambda x, **k: x}, 'menpofit.fitter': {
        'raise_costs_warning': lambda a: None}})


@unit(PID, 'AAM supervised descent fit', [AS + ':ParametricSupervisedDescentAlgorithm.run'])
def fit_aam():
    M = asd_world().load(AS)
    d, n, q = sint('n_coord', 1), sint('n_levels', 0), sint('n_par', 1)
    S = Shapes(d)
    model = PModel(S, q)

    def run(features, regs, image, ini, gt, rc):
        itf = SDInterface()
        itf.transform, itf.algorithm_result = model, Out
        a = shell(M.MeanTemplateNewton, interface=itf, regressors=regs, _compute_test_features=features)
        return a.run(image, ini, gt_shape=gt, return_costs=rc)
    par_run('fit', run, model, S, n, q, 2)


class Warped(object):
    __vatomic__ = True

    def __init__(self, v):
        self.v = v

    def as_vector(self, **k):
        return self.v


class SDWorld(object):
    """an AAM's transform, warp and appearance model"""
    __vtrusted__ = 'AAM interface: warp reads the image at the transform (C15); menpo PCAModel: mean, components'

    def __init__(self, tr):
        self.q, self.N, self.nm, self.m = [sint(x, 1) for x in ('n_par', 'n_px', 'n_sel', 'n_app')]
        self.transform = Model(self.q, tr.d)
        self.sel = z3.Function('sel', INT, INT)
        j = z3.Int('selj!')
        ctx().assume(z3.ForAll([j], z3.And(self.sel(j) >= 0, self.sel(j) < self.N.t), patterns=[self.sel(j)]))
        self.i_mask = STensor([(self.nm.t,)], lambda idx: self.sel(idx[0][0]), 'i')
        self.mu, self.U = fresh('app_mean', axes_of(self.N)), fresh('U', axes_of(self.m, self.N))
        self.P = fresh('pinv_A', axes_of(self.m, self.nm))
        self.appearance_model = self
        self.asked = []

    def mean(self):
        return Warped(self.mu.copy())

    components = property(lambda s: s.U.copy())

    def pinv(self, a):
        self.asked.append(a)
        return self.P.copy()

    def pixels(self, i, params):
        f = z3.Function('warped', INT, ARR, INT, REAL)
        a = arr(params)
        return STensor(axes_of(self.N), lambda idx: f(i, a, idx[0][0]), 'r')

    def warp(self, image):
        return Warped(self.pixels(image.i, self.transform._p))

    def masked(self, t):
        e = t.frozen()
        return STensor(axes_of(self.nm), lambda idx: zreal(wrap(e([(self.sel(idx[0][0]),)]))), 'r')

    def A(self):
        return STensor(axes_of(self.nm, self.m), lambda idx, e=self.U.frozen(): e([idx[1], (self.sel(idx[0][0]),)]), 'r')

    def features(self, kind, i, params):
        x = self.masked(self.pixels(i, params)) - self.masked(self.mu)
        if kind == 'project_out':
            return x - self.A().dot(self.P.dot(x))
        return self.P.dot(x) if kind == 'project' else x


def aam_features(cname, kind):
    w = asd_world()
    M = w.load(AS)
    tr = Training()
    itf = SDWorld(tr)
    w.np.linalg.pinv = itf.pinv
    alg = getattr(M, cname)(itf)
    if kind != 'mean':
        prove('one pseudo-inverse', len(itf.asked) == 1)
        prove_eq('pseudo-inverse of the selected appearance components', itf.asked[0], itf.A())
    fr = Frame(current=tr.cur)
    images = slist('ims', tr.n, lambda i: Image(i, None, None))
    c = ctx()
    i, j, k = z3.Int(c.fresh('i')), z3.Int(c.fresh('j')), z3.Int(c.fresh('k'))
    nf = itf.m if kind == 'project' else itf.nm
    for v, b in [(i, tr.n.t), (j, tr.m.t), (k, nf.t)]:
        c.assume(z3.And(v >= 0, v < b))
    want = lambda i, j: itf.features(kind, i, params_of(tr, tr.cur0, i, j, itf.q))
    t = alg._compute_test_features(Image(i, None, None), tr.shapes(i).at(j))
    prove_eq('the features of a shape', t, want(i, j))
    got = alg._compute_training_features(images, tr.gt_shapes, tr.current)
    eq_rows('row of each image and shape', got, tr, lambda i, j, k: zreal(wrap(want(i, j).at([(k,)]))), nf)
    fr.check('current shapes unmodified')
    tr.frame.check('ground truth unmodified')


for _c, _k in (('MeanTemplateNewton', 'mean'), ('ProjectOutNewton', 'project_out'), ('AppearanceWeightsNewton', 'project'),
               ('MeanTemplateGaussNewton', 'mean'), ('ProjectOutGaussNewton', 'project_out'),
               ('AppearanceWeightsGaussNewton', 'project')):
    unit(PID, 'AAM features of %s' % _c, ['%s:%s._compute_training_features' % (AS, _c), '%s:%s._compute_test_features' % (AS, _c),
                                          '%s:%s._precompute' % (AS, _c)],
         ['numpy.linalg.pinv: arbitrary result of the documented shape'])(lambda c=_c, k=_k: aam_features(c, k))


# --- every algorithm is made of these pieces ---------------------------------
NP, PS = 'menpofit.sdm.algorithm.nonparametric', 'menpofit.sdm.algorithm.parametricshape'


def alg_world():
    return World(stubs={'menpofit.visualize': {'print_progress': lambda x, **k: x}, 'menpo.model': {'PCAVectorModel': object},
                        'menpo.feature': {'no_op': lambda x: x}, 'menpofit.fitter': {'raise_costs_warning': lambda a: None},
                        'menpofit.result': {'NonParametricIterativeResult': Out, 'ParametricIterativeResult': Out}})


def pieces(mod, cname, parametric, patches):
    cls = getattr(alg_world().load(mod), cname)
    which = {}
    # one piece at a time: each is its own exploration of paths
    c = ctx()
    k = 0
    todo = ['delta', 'update', 'run'] + (['features', 'test features'] if patches else [])
    for k, what in enumerate(todo[:-1]):
        if c.branch(z3.Bool('piece %d' % k)):
            break
    else:
        what = todo[-1]

    def model_alg(m=None):
        a = shell(cls, shape_model=m, regressors=VList())
        if mod == AS:
            a.interface = SDInterface()
            a.interface.transform = m
        return a
    if what == 'delta':
        if parametric:
            par_delta(lambda g, cu, m: model_alg(m)._compute_delta_x(g, cu))
        else:
            np_delta(lambda g, cu: model_alg()._compute_delta_x(g, cu))
    elif what == 'update':
        if parametric:
            par_update(False, lambda e, d, g, cu, m: model_alg(m)._update_estimates(e, d, g, cu))
        else:
            np_update(lambda e, d, g, cu: model_alg()._update_estimates(e, d, g, cu))
    elif what == 'run':
        if mod == AS:
            return
        if parametric:
            fit_par(cls)
        else:
            fit_np(lambda regs, features, image, ini, gt, rc: shell(cls, regressors=regs, _compute_test_features=features).run(
                image, ini, gt_shape=gt, return_costs=rc))
    elif what == 'features':
        feat_image(lambda ims, cu, ask, ff: shell(cls, patch_shape=ask, patch_features=ff)._compute_training_features(
            ims, None, cu, prefix='p', verbose=False))
    else:
        feat_patch(lambda im, s, ask, ff: shell(cls, patch_shape=ask, patch_features=ff)._compute_test_features(im, s))


REGS = ('Newton', 'GaussNewton', 'PCRRegression', 'OptimalRegression', 'OPPRegression')
MADE = [(NP, 'NonParametric' + r, False, True) for r in REGS] + [(PS, 'ParametricShape' + r, True, True) for r in REGS] + [
    (PA, 'ParametricAppearance%s%s' % (k, r), False, False) for k in ('MeanTemplate', 'ProjectOut', 'Weights')
    for r in ('Newton', 'GuassNewton')] + [
    (FP, 'FullyParametric%s' % k, True, False) for k in ('ProjectOutNewton', 'MeanTemplateNewton', 'WeightsNewton',
                                                         'ProjectOutGaussNewton', 'ProjectOutOPP')] + [
    (AS, '%s%s' % (k, r), True, False) for k in ('MeanTemplate', 'ProjectOut', 'AppearanceWeights')
    for r in ('Newton', 'GaussNewton')]
for _m, _c, _p, _f in MADE:
    unit(PID, 'pieces of %s' % _c, ['%s:%s.%s' % (_m, _c, f) for f in ('_compute_delta_x', '_update_estimates', 'run') + (
        ('_compute_training_features', '_compute_test_features') if _f else ())], budget=200)(
        lambda m=_m, c=_c, p=_p, f=_f: pieces(m, c, p, f))
