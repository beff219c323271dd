"""C14 runtime contracts."""
from .common import *

PID = 'C14'


@case(PID, 'sampling grid', n=40)
def grid(g):
    from menpofit.base import build_grid
    h, w = g.int(1, 12), g.int(1, 12)
    G = build_grid(g.choice([(h, w), [h, w], np.array([h, w])]))
    e = np.array([[[i - h // 2, j - w // 2] for j in range(w)] for i in range(h)])
    need(G.shape == (h, w, 2), 'shape of the grid', got=G.shape)
    need(np.array_equal(G, e), 'offsets of the grid', got=G)


@case(PID, 'probability maps', n=40)
def pmap(g):
    from menpofit.clm.expert.base import probability_map
    from menpo.image import Image
    n, h, w = g.int(1, 4), g.int(1, 7), g.int(1, 7)
    x = g.normal(n, 1, h, w) * 10 ** g.uniform(-2, 2)
    for k in range(n):
        if g.flag(0.3):
            x[k] = g.uniform(-2, 2)
    x0 = x.copy()
    p = probability_map(x)
    need(np.array_equal(x, x0), 'the responses are not modified')
    need(p.shape == x.shape, 'shape')
    need(np.all(p >= 0), 'non-negative', got=p)
    need_close(p.sum((-1, -2)), np.ones((n, 1)), 'sums to one')
    for k in range(n):
        d = x0[k] - x0[k].min()
        e = d / d.sum() if d.sum() > 0 else np.full(d.shape, 1.0 / d.size)
        need_close(p[k], e, 'probabilities')


class _Ens(object):
    def __init__(self, shape, resp):
        self.search_shape, self.resp, self.seen = shape, resp, []

    def predict_probability(self, image, target):
        self.seen.append(target.points.copy())
        return self.resp[min(len(self.seen) - 1, len(self.resp) - 1)].copy()


def _pdm(g, n):
    from menpofit.modelinstance import OrthoPDM
    from menpo.shape import PointCloud
    base = g.points(n)
    return OrthoPDM([PointCloud(base + g.normal(n, 2) * 3) for _ in range(8)], max_n_components=3), base


def _setup(g):
    from menpo.shape import PointCloud
    from menpo.image import Image
    n = g.int(4, 7)
    pdm, base = _pdm(g, n)
    h, w = g.int(2, 8), g.int(2, 8)
    resp = []
    for _ in range(4):
        r = g.r.uniform(0, 1, (n, 1, h, w))
        if g.flag():
            r = r ** 6
        resp.append(r / r.sum((-1, -2), keepdims=True))
    return pdm, _Ens((h, w), resp), PointCloud(base + g.normal(n, 2)), Image(np.zeros((1, 90, 90))), n, h, w


def _off(h, w):
    return np.array([[[i - h // 2, j - w // 2] for j in range(w)] for i in range(h)], float)


def _kern(z, cov):
    return np.exp(-0.5 * np.sum(z ** 2, -1) / cov)


def _check(g, cls, name, **kw):
    import menpofit.clm.algorithm.gd as gd
    pdm, ens, x0, im, n, h, w = _setup(g)
    cov = g.uniform(0.5, 12)
    alg = getattr(gd, cls)(ens, pdm, eps=0.0, **{name: cov})
    # the steps use the derivative at the state the algorithm was built in
    J = np.transpose(np.asarray(alg.transform.d_dp(None)), (0, 2, 1))
    J = J.reshape(-1, J.shape[-1])
    mi = g.flag()
    p0 = im.pixels.copy()
    its = g.int(1, 3)
    res = alg.run(im, x0, max_iters=its, map_inference=mi)
    need(np.array_equal(im.pixels, p0), 'image unmodified')
    G = _off(h, w)
    Js = res.shape_parameters
    shapes = res.shapes[1:]
    need(len(shapes) == its + 1, 'one shape per iteration')
    fresh_ = alg.transform
    for k in range(its):
        x = shapes[k].points
        need_close(ens.seen[k], x, 'responses computed at the current shape')
        r = ens.resp[min(k, 3)][:, 0]
        p = Js[k]
        fresh_._from_vector_inplace(p.copy())
        if cls == 'RegularisedLandmarkMeanShift':
            wt = r * _kern(G, cov)[None]
            wt = wt / wt.sum((1, 2), keepdims=True)
            e = np.einsum('nij,ijd->nd', wt, G)
            lo, hi = G.reshape(-1, 2).min(0), G.reshape(-1, 2).max(0)
            need(np.all(e >= lo - 1e-9) and np.all(e <= hi + 1e-9), 'mean shift inside the search region')
        else:
            e = np.zeros((n, 2))
            for q in range(n):
                a = np.unravel_index(np.argmax(r[q]), (h, w))
                wt = _kern(G[a] + G, cov)
                wt = wt / wt.sum()
                e[q] = -np.einsum('ij,ijd->d', wt, G)
        JJ = J.T.dot(J)
        if mi:
            L = np.hstack((np.zeros(4), pdm.model.noise_variance() / pdm.model.eigenvalues))
            dp = -np.linalg.solve(JJ + np.diag(L), L * p - J.T.dot(e.ravel()))
        else:
            dp = np.linalg.solve(JJ, J.T.dot(e.ravel()))
        fresh_._from_vector_inplace(p + dp)
        need_close(shapes[k + 1].points, fresh_.target.points, 'landmarks move by the step', tol=1e-6)


@case(PID, 'mean-shift step', n=25)
def rlms(g):
    _check(g, 'RegularisedLandmarkMeanShift', 'kernel_covariance')


@case(PID, 'arg-max step', n=25)
def asm(g):
    _check(g, 'ActiveShapeModel', 'gaussian_covariance')


@case(PID, 'experts respond at the right offset', n=8)
def experts(g):
    """an expert trained on a pattern finds it back: the probability maps of a shifted
    image move with the image"""
    from menpofit.clm.expert.ensemble import CorrelationFilterExpertEnsemble
    from menpo.image import Image
    from menpo.shape import PointCloud
    ps = g.choice([(15, 15), (16, 16), (17, 15), (16, 17)])
    ims, shs = [], []
    for _ in range(3):
        ims.append(Image(g.r.uniform(0, 1, (1, 90, 90))))
        shs.append(PointCloud(np.array([[45., 47.], [53., 40.], [40., 44.]])))
    off = g.choice([None, None, np.array([[0, 0], [1, 2]])])
    e = CorrelationFilterExpertEnsemble(ims[:1], shs[:1], patch_shape=ps, context_shape=(ps[0] * 2, ps[1] * 2),
                                        response_covariance=2, sample_offsets=off)
    need(e.n_experts == 3, 'one expert per landmark')
    need(e.n_sample_offsets == (1 if off is None else len(off)), 'sample offsets')
    p = e.predict_probability(ims[0], shs[0])
    need(p.shape == (3, 1) + tuple(ps), 'one map per landmark', got=p.shape)
    need(np.all(p >= 0) and np.allclose(p.sum((-1, -2)), 1), 'distributions')
    G = _off(*ps)
    for q in range(3):
        a = np.unravel_index(np.argmax(p[q, 0]), ps)
        need(np.all(np.abs(G[a]) <= 1), 'the peak of the training patch is at its centre', got=G[a])
    d = np.array([g.int(-2, 2), g.int(-2, 2)])
    p2 = e.predict_probability(ims[0], PointCloud(shs[0].points - d))
    for q in range(3):
        a = np.unravel_index(np.argmax(p2[q, 0]), ps)
        need(np.all(np.abs(G[a] - d) <= 1), 'the peak moves by the displacement', got=G[a], shift=d)
