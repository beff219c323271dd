"""C12 runtime contracts: supervised descent trains on aligned features and targets."""
import copy
import inspect
from functools import partial
from .models import *

PID = 'C12'


class Spy(object):
    """a regressor that records what it is given"""
    def __init__(self, log, r):
        self.log, self.r = log, r
        log.append(dict(train=None, predict=[], me=self))

    def train(self, X, Y):
        self.log[-1]['train'] = (np.array(X, float), np.array(Y, float))
        # a fixed map from the features to updates
        self.W = self.r.standard_normal((X.shape[1], Y.shape[1])) * .3 / np.sqrt(X.shape[1])
        self.b = self.r.standard_normal(Y.shape[1]) * .2

    def f(self, x):
        return np.atleast_2d(np.asarray(x, float)).dot(self.W) + self.b

    def predict(self, x):
        r = self.f(x)
        return r[0] if np.ndim(x) == 1 else r


FEATS = [lambda im: im, lambda im: type(im)(im.pixels ** 2), lambda im: type(im)(np.concatenate([im.pixels, 1 - im.pixels]))]


def px_feature(p):
    """patch features act on the pixels of a patch"""
    p = getattr(p, 'pixels', p)
    return np.concatenate([np.asarray(p) ** 2, np.asarray(p)])


def ident(p):
    return p


def names():
    import menpofit.sdm.algorithm as SA
    out = []
    for n in sorted(dir(SA)):
        c = getattr(SA, n)
        if inspect.isclass(c) and n.startswith(('NonParametric', 'Parametric', 'FullyParametric')) and \
                n.endswith(('Newton', 'Regression', 'OPP')):
            out.append(n)
    return out


def patch_vector(im, s, ps, pf):
    P = im.extract_patches(s, patch_shape=ps, as_single_array=True)
    return np.concatenate([np.asarray(pf(q[0])).ravel() for q in P])


class Spec(object):
    """what one algorithm computes, from its models"""
    def __init__(self, a, ps, pf):
        self.a, self.ps, self.pf = a, ps, pf
        n = type(a).__name__
        self.model = None
        if n.startswith(('ParametricShape', 'FullyParametric')):
            self.model = copy.deepcopy(a.shape_model)
        self.kind = None
        if n.startswith(('ParametricAppearance', 'FullyParametric')):
            self.kind = [k for k in ('ProjectOut', 'MeanTemplate', 'Weights') if k in n][0]
            self.am = copy.deepcopy(a.appearance_model)

    def features(self, im, s):
        v = patch_vector(im, s, self.ps, self.pf)
        if self.kind is None:
            return v
        m = np.ravel(self.am.mean())
        if self.kind == 'MeanTemplate':
            return v - m
        U = self.am.components
        if self.kind == 'Weights':
            return U.dot(v - m)
        return v - m - U.T.dot(U.dot(v - m))

    def params(self, s):
        if self.model is None:
            return s.as_vector()
        self.model.set_target(s)
        return self.model.as_vector().copy()

    def shape(self, p):
        if self.model is None:
            return np.reshape(p, (-1, 2))
        self.model._from_vector_inplace(np.array(p, float))
        return self.model.target.points.copy()


def pc(x):
    from menpo.shape import PointCloud
    return PointCloud(np.array(x, float))


@case(PID, 'one algorithm', n=60, timeout=300)
def algorithm(g):
    import menpofit.sdm.algorithm as SA
    ns = names()
    name = ns[g.it % len(ns)]
    cls = getattr(SA, name)
    n, k, nit = g.int(2, 5), g.int(1, 4), g.int(1, 3)
    ims = faces(g, n, channels=g.int(1, 2))
    for im in ims[1:]:
        if im.n_channels != ims[0].n_channels:
            return
    ps = (g.choice([5, 6, 7]), g.choice([4, 7, 9]))
    pf = g.choice([ident, px_feature])
    gts = [im.landmarks['PTS'] for im in ims]
    cur = [[pc(s.points + g.normal(*s.points.shape) * g.choice([.5, 2.])) for _ in range(k)] for s in gts]
    orig = [[s.points.copy() for s in c] for c in cur]
    a = cls(patch_features=pf, patch_shape=ps, n_iterations=nit)
    log = []
    a._regressor_cls = lambda *_, **__: Spy(log, g.r)
    keep = Keep(ims, gts)
    verbose = g.flag(.2)
    from contextlib import redirect_stdout
    import io
    with redirect_stdout(io.StringIO()):
        out = a.train(ims, gts, cur, prefix='x' if g.flag() else '', verbose=verbose)
    keep.check('training')
    need(len(log) == nit and len(a.regressors) == nit, 'one regressor per level', got=len(log), expected=nit)
    S = Spec(a, ps, pf)
    state = [[x.copy() for x in c] for c in orig]
    par = [[S.params(pc(x)) for x in c] for c in state]
    gp = [S.params(s) for s in gts]
    if S.kind is not None:
        # the appearance model describes the patches of the ground truth
        V = np.array([patch_vector(i, s, ps, pf) for i, s in zip(ims, gts)])
        need_close(np.ravel(S.am.mean()), V.mean(0), 'the appearance model is that of the ground truth patches', tol=1e-8)
        D = V - V.mean(0)
        need_close(D - (D.dot(S.am.components.T)).dot(S.am.components), 0 * D, 'appearance model spans the training patches',
                   tol=1e-6)
    for j, e in enumerate(log):
        X, Y = e['train']
        need(X.shape[0] == n * k and Y.shape[0] == n * k, 'one row per perturbed shape', got=(X.shape, Y.shape), expected=n * k)
        r = 0
        for i in range(n):
            for q in range(k):
                need_close(X[r], S.features(ims[i], pc(state[i][q])), 'level %d: features of row %d' % (j, r), tol=1e-7)
                need_close(Y[r], gp[i] - par[i][q], 'level %d: target of row %d' % (j, r), tol=1e-7)
                p = S.params(pc(state[i][q])) + e['me'].f(S.features(ims[i], pc(state[i][q])))[0]
                par[i][q] = p
                state[i][q] = S.shape(p)
                r += 1
    need(len(out) == n and all(len(c) == k for c in out), 'every perturbed shape is returned')
    for i in range(n):
        for q in range(k):
            need_close(out[i][q].points, state[i][q], 'shape (%d, %d) after training' % (i, q), tol=1e-6)
    # fitting is the same function
    for i in range(n):
        q = g.int(0, k - 1)
        ini = pc(orig[i][q])
        im = ims[i]
        kp = Keep([im], [ini])
        r = a.run(im, ini)
        kp.check('fitting')
        p = S.params(ini)
        x = S.shape(p) if S.model is not None else orig[i][q]
        start_in_span = np.max(np.abs(x - orig[i][q]))
        for e in log:
            p = p + e['me'].f(S.features(im, pc(x)))[0]
            x = S.shape(p)
        need_close(r.final_shape.points, x, 'fitting applies the trained updates', tol=1e-6)
        if S.model is None:
            need_close(r.final_shape.points, state[i][q], 'fitting a training shape gives its training result', tol=1e-6)


@case(PID, 'appearance models', n=24, timeout=300)
def aams(g):
    import menpofit.aam as A
    import menpofit.aam.algorithm as AA
    ns = sorted(n for n in dir(AA) if n.startswith(('MeanTemplate', 'ProjectOut', 'AppearanceWeights')) and n.endswith('Newton'))
    if not ns:
        raise Undecided('no supervised descent algorithms')
    name = ns[g.it % len(ns)]
    # (the landmarks of a linear model do not determine its parameters exactly)
    cls = g.choice([c for c in AAM_CLS if not c.startswith('Linear')])
    m, ims = aam(g, cls, scales=(1.,))
    sampling = None
    if g.flag(.4):
        sampling = g.int(1, 3) if cls not in ('PatchAAM',) else None
    I = m.build_fitter_interfaces([sampling] if sampling is None else
                                  __import__('menpofit.checks', fromlist=['x']).check_sampling(sampling, 1))[0]
    nit, k = g.int(1, 3), g.int(1, 3)
    a = getattr(AA, name)(I, n_iterations=nit)
    log = []
    a._regressor_cls = lambda *_, **__: Spy(log, g.r)
    n = g.int(2, 4)
    tr = []
    for im in ims[:n]:
        c = im.copy()
        c = c.rescale_to_pointcloud(m.reference_shape, group='PTS')
        tr.append(m.holistic_features[0](c))
    gts = [im.landmarks['PTS'] for im in tr]
    cur = [[pc(s.points + g.normal(*s.points.shape) * .7) for _ in range(k)] for s in gts]
    orig = [[s.points.copy() for s in c] for c in cur]
    keep = Keep(tr, gts)
    from contextlib import redirect_stdout
    import io
    with redirect_stdout(io.StringIO()):
        out = a.train(tr, gts, cur, verbose=g.flag(.2))
    keep.check('training')
    need(len(log) == nit, 'one regressor per level')
    T = copy.deepcopy(I.transform)
    J = copy.deepcopy(I)
    mask = np.asarray(J.i_mask)
    am = J.appearance_model
    U = am.components.T[mask]
    abar = am.mean().as_vector()[mask]

    def feats(im, p):
        J.transform._from_vector_inplace(np.array(p, float))
        v = J.warp(im).as_vector()[mask] - abar
        if name.startswith('MeanTemplate'):
            return v
        w = np.linalg.pinv(U).dot(v)
        return w if name.startswith('AppearanceWeights') else v - U.dot(w)

    def params(x):
        T.set_target(pc(x))
        return T.as_vector().copy()

    def points(p):
        T._from_vector_inplace(np.array(p, float))
        return (getattr(T, 'sparse_target', None) or T.target).points.copy()
    par = [[params(x) for x in c] for c in orig]
    gp = [params(s.points) for s in gts]
    for j, e in enumerate(log):
        X, Y = e['train']
        need(X.shape[0] == n * k and Y.shape[0] == n * k, 'one row per perturbed shape')
        for i in range(n):
            for q in range(k):
                r = i * k + q
                need_close(X[r], feats(tr[i], par[i][q]), 'level %d: features of row %d' % (j, r), tol=1e-6)
                need_close(Y[r], gp[i] - par[i][q], 'level %d: target of row %d' % (j, r), tol=1e-6)
                par[i][q] = par[i][q] + e['me'].f(X[r])[0]
    for i in range(n):
        for q in range(k):
            need_close(out[i][q].points, points(par[i][q]), 'shape (%d, %d) after training' % (i, q), tol=1e-6)
    i = g.int(0, n - 1)
    r = a.run(tr[i], pc(orig[i][0]))
    p = params(orig[i][0])
    for e in log:
        p = p + e['me'].f(feats(tr[i], p))[0]
    need_close(np.ravel(r.shape_parameters[-1]), p, 'fitting applies the trained updates', tol=1e-6)
    need_close(r.final_shape.points, points(p), 'fitted shape', tol=1e-6)


def square(im):
    r = im.copy()
    r.pixels = im.pixels ** 2
    return r


def same(im):
    return im.copy()


@case(PID, 'hand over between scales', n=60, timeout=300)
def scales(g):
    import menpofit.sdm as M
    from menpo.feature import no_op
    sc = g.choice([(.5, 1.), (1., 1.), (.25, .5, 1.), (.5, .75), (.5,), (.4, .4, .9)])
    ns = len(sc)
    hf = [g.choice([no_op, square, same]) for _ in range(ns)]
    n, k = g.int(2, 4), g.int(1, 4)
    ims = faces(g, n)
    glob = None
    n_bb = 0
    if g.flag(.5):
        glob = 'box_*'
        n_bb = g.int(1, 3)
        for im in ims:
            s = im.landmarks['PTS']
            for b in range(n_bb):
                im.landmarks['box_%d' % b] = pc(s.points + g.normal(*s.points.shape)).bounding_box()
    log = []

    class Alg(object):
        def __init__(self, patch_features=None, patch_shape=None, n_iterations=None):
            pass

        def train(self, images, gt_shapes, current_shapes, prefix='', verbose=False):
            out = []
            e = dict(images=list(images), gt=[s.points.copy() for s in gt_shapes],
                     cur=[[s.points.copy() for s in c] for c in current_shapes])
            for c in current_shapes:
                out.append([])
                for s in c:
                    # in place, as the algorithms do
                    s._from_vector_inplace(s.as_vector() + g.normal(s.n_parameters))
                    out[-1].append(s)
            e['out'] = [[s.points.copy() for s in c] for c in out]
            log.append(e)
            return out
    keep = Keep(ims)
    ref = None
    kw = {}
    f = M.SupervisedDescentFitter(ims, group='PTS', bounding_box_group_glob=glob, sd_algorithm_cls=Alg, diagonal=g.choice([None, 40]),
                                  holistic_features=hf, scales=list(sc), n_iterations=1, n_perturbations=k, patch_shape=(5, 5), **kw)
    keep.check('training')
    want = k if glob is None else n_bb * (k + 1)
    need(len(log) == ns, 'every scale trains once')
    from menpo.transform import AlignmentSimilarity
    for j, e in enumerate(log):
        need(len(e['images']) == n and len(e['gt']) == n and len(e['cur']) == n, 'scale %d trains on every image' % j)
        for i in range(n):
            im = e['images'][i]
            need(np.array_equal(im.landmarks['PTS'].points, e['gt'][i]), 'ground truth of its image', scale=j, image=i)
            # the image is image i, rescaled: the features of the scale
            s0 = ims[i].landmarks['PTS'].points
            t = AlignmentSimilarity(pc(s0), pc(e['gt'][i]))
            need(np.max(np.abs(t.aligned_source().points - e['gt'][i])) < .2 * np.max(np.ptp(e['gt'][i], axis=0)) / 5 + 1,
                 'images in order', image=i)
            need(len(e['cur'][i]) == want, 'scale %d: number of perturbed shapes of image %d' % (j, i), got=len(e['cur'][i]),
                 expected=want)
        if j == 0:
            continue
        L = log[j - 1]
        for i in range(n):
            # the map between the frames of the two scales, axis by axis
            a, b = L['gt'][i], e['gt'][i]
            s_ = [np.polyfit(a[:, d], b[:, d], 1) for d in (0, 1)]
            for q in range(want):
                x = L['out'][i][q]
                y = np.stack([np.polyval(s_[d], x[:, d]) for d in (0, 1)], axis=1)
                need_close(e['cur'][i][q], y, 'scale %d: shape %d of image %d is the one the previous scale ended with' % (j, q, i),
                           tol=1e-6)
