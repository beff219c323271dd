"""C09 runtime contracts: point distribution models and model-driven warps."""
from .common import *

PID = 'C09'


def _pc(p):
    from menpo.shape import PointCloud
    return PointCloud(p)


def shapes(g, n_points=None, d=2, n=None):
    """distorted similarity copies of one shape"""
    n_points = n_points or g.int(5, 9)
    base = g.points(n_points, d, scale=30, offset=0)
    out = []
    for _ in range(n or g.int(5, 9)):
        y = base + g.normal(n_points, d) * 4
        if d == 2:
            t, s = g.uniform(-.5, .5), g.uniform(.7, 1.4)
            y = s * y.dot(np.array([[np.cos(t), np.sin(t)], [-np.sin(t), np.cos(t)]]))
        out.append(_pc(y + g.normal(d) * 10 + 50))
    return out


def pca(g, data):
    from menpo.model import PCAModel
    return PCAModel(data)


def gdata(g, d=2, n=None):
    data = shapes(g, d=d, n=n)
    return data if g.flag() else pca(g, data)


def make(g, kind):
    import menpofit.modelinstance as M
    import menpofit.transform as T
    d = 3 if kind == 'plain 3D' else 2
    k = g.choice([None, 2, 3])
    data = gdata(g, d)
    if kind.startswith('plain'):
        return M.PDM(data, max_n_components=k)
    if kind == 'global affine':
        return M.GlobalPDM(data, T.DifferentiableAlignmentAffine, max_n_components=k)
    if kind == 'global similarity':
        return M.GlobalPDM(data, T.DifferentiableAlignmentSimilarity, max_n_components=k)
    return M.OrthoPDM(data, max_n_components=k)


def n_global(kind):
    return {'plain': 0, 'plain 3D': 0, 'global affine': 6}.get(kind, 4)


def generated(m, kind, vector):
    """the shape the parameters describe, from the model's own mean and components"""
    ng = n_global(kind)
    w = vector[ng:]
    mean = m.model.mean().points
    s = mean + w.dot(m.model.components[:len(w)]).reshape(mean.shape)
    if ng == 0:
        return s
    if kind == 'ortho':
        a = m.similarity_model
        t = mean + vector[:4].dot(a.components).reshape(mean.shape)
        A = _sim(mean, t)
    elif kind == 'global affine':
        q = vector[:6].reshape(3, 2).T
        A = (np.eye(2) + q[:, :2], q[:, 2])
    else:
        a, b, x, y = vector[:4]
        A = (np.array([[1 + a, -b], [b, 1 + a]]), np.array([x, y]))
    return s.dot(A[0].T) + A[1]


def _sim(src, tgt):
    """the similarity with which src goes to tgt (exact)"""
    n = len(src)
    X = np.zeros((2 * n, 4))
    X[::2] = np.c_[src[:, 0], -src[:, 1], np.ones(n), np.zeros(n)]
    X[1::2] = np.c_[src[:, 1], src[:, 0], np.zeros(n), np.ones(n)]
    a, b, x, y = np.linalg.lstsq(X, tgt.ravel(), rcond=None)[0]
    return np.array([[a, -b], [b, a]]), np.array([x, y])


def params(g, m, kind):
    ng = n_global(kind)
    w = g.normal(m.n_weights) * 5
    if ng == 0:
        return w
    if kind == 'ortho':
        t, s = g.uniform(-3, 3), g.uniform(.4, 2)
        p = m.model.mean().points.dot(np.array([[np.cos(t), np.sin(t)], [-np.sin(t), np.cos(t)]])) * s + g.normal(2) * 20
        q = m.similarity_model.components.dot((p - m.model.mean().points).ravel())
    elif kind == 'global affine':
        q = np.r_[g.normal(4) * .3, g.normal(2) * 20]
    else:
        q = np.r_[g.normal(2) * .4, g.normal(2) * 20]
    return np.r_[q, w]


def agree(m, kind, what):
    p = np.array(m.as_vector())
    ng = n_global(kind)
    need(len(p) == ng + m.n_weights, what + ': global parameters then weights', got=len(p), ng=ng, nw=m.n_weights)
    need(m.n_parameters == len(p), what + ': number of parameters')
    need(np.array_equal(p[ng:], m.weights), what + ': the weights are the last part of the parameters')
    if ng:
        need(np.array_equal(p[:ng], np.asarray(m.global_parameters)), what + ': global parameters are the first part')
    need_close(m.target.points, generated(m, kind, p), what + ': the target is the shape of the parameters', tol=1e-7)
    need(m.n_weights == m.model.n_active_components, what + ': one weight per active component')


def best(m, kind, y, what):
    """after set_target(y)"""
    mean = m.model.mean().points
    C = m.model.components
    if n_global(kind) == 0:
        want = mean + (C.T.dot(C.dot((y - mean).ravel()))).reshape(mean.shape)
    else:
        if kind == 'ortho':
            A = _sim(mean, y)
        elif kind == 'global affine':
            H = np.linalg.lstsq(np.c_[mean, np.ones(len(mean))], y, rcond=None)[0]
            A = H[:2].T, H[2]
        else:
            a, b = mean - mean.mean(0), y - y.mean(0)
            s = np.sqrt((b ** 2).sum() / (a ** 2).sum())
            U, _, V = np.linalg.svd(b.T.dot(a))
            R = U.dot(V)
            if np.linalg.det(R) < 0:
                U[:, -1] *= -1
                R = U.dot(V)
            A = s * R, y.mean(0) - (s * R).dot(mean.mean(0))
        z = np.linalg.solve(A[0], (y - A[1]).T).T
        z = mean + (C.T.dot(C.dot((z - mean).ravel()))).reshape(mean.shape)
        want = z.dot(A[0].T) + A[1]
    need_close(m.target.points, want, what + ': best approximation of the target', tol=1e-6)


def arbitrary(g, m):
    mean = m.model.mean().points
    y = mean + g.normal(*mean.shape) * 4
    if mean.shape[1] == 2:
        t, s = g.uniform(-3, 3), g.uniform(.5, 2)
        y = s * y.dot(np.array([[np.cos(t), np.sin(t)], [-np.sin(t), np.cos(t)]])) + g.normal(2) * 30
    return y


def history(g, m, kind, steps, incremental=True):
    agree(m, kind, 'initially')
    for step in range(steps):
        op = g.choice(['vector', 'target', 'active', 'weights', 'copy', 'increment', 'inspan'])
        what = 'step %d (%s)' % (step, op)
        if op in ('vector', 'weights', 'inspan'):
            p = params(g, m, kind)
            if op == 'vector':
                m._from_vector_inplace(p)
                agree(m, kind, what)
                need(np.allclose(m.as_vector(), p, atol=1e-6 * max(1, np.abs(p).max())), what + ': reads back what was set')
                need(np.allclose(m.weights, p[n_global(kind):], rtol=0, atol=0), what + ': weights exactly')
                keep = p.copy()
                if p.flags.writeable:
                    p[...] = 7.
                else:
                    raise Broken(what + ': the parameters handed in became read only')
                agree(m, kind, what + ', the array handed in written to afterwards')
                need(np.allclose(m.as_vector(), keep, atol=1e-6 * max(1, np.abs(keep).max())),
                     what + ': keeps the parameters')
            elif op == 'weights':
                n = m.from_vector(p)
                before = np.array(m.as_vector())
                agree(n, kind, what)
                need(np.allclose(n.as_vector(), p, atol=1e-6 * max(1, np.abs(p).max())), what + ': reads back what was set')
                n._from_vector_inplace(params(g, n, kind))
                need(np.array_equal(m.as_vector(), before), what + ': the original keeps its parameters')
                agree(m, kind, what)
            else:
                if kind in ('global similarity', 'global affine'):
                    p[n_global(kind):] = 0
                y = generated(m, kind, p)
                m.set_target(_pc(y.copy()))
                agree(m, kind, what)
                need_close(m.target.points, y, what + ': a target in the span is reproduced', tol=1e-6)
        elif op == 'target':
            y = arbitrary(g, m)
            t = _pc(y.copy())
            m.set_target(t)
            need(np.array_equal(t.points, y), what + ': the target handed in is unmodified')
            agree(m, kind, what)
            best(m, kind, y, what)
        elif op == 'active':
            k = g.int(1, m.model.n_components)
            m.n_active_components = k
            need(m.n_active_components == k and m.n_weights == k, what + ': number of active components')
            agree(m, kind, what)
        elif op == 'copy':
            c = m.copy()
            before = np.array(m.as_vector()), m.target.points.copy()
            c.set_target(_pc(arbitrary(g, c)))
            agree(c, kind, what)
            need(np.array_equal(m.as_vector(), before[0]) and np.array_equal(m.target.points, before[1]),
                 what + ': the original is unchanged')
        else:
            if not incremental:
                continue
            d = m.n_dims
            old = m.target.points.copy()
            m.increment(shapes(g, len(old), d), forgetting_factor=g.choice([1.0, .9]),
                        max_n_components=g.choice([None, 4]))
            agree(m, kind, what)
            best(m, kind, old, what)


def _hist(kind):
    def run(g):
        m = make(g, kind)
        history(g, m, kind, g.int(1, 6))
    return run


for _k in ('plain', 'plain 3D', 'global affine', 'global similarity', 'ortho'):
    case(PID, 'history: %s' % _k, n=25)(_hist(_k))


@case(PID, 'reads and rejects', n=15)
def _rej(g):
    kind = g.choice(['plain', 'global affine', 'global similarity', 'ortho'])
    m = make(g, kind)
    p = np.array(m.as_vector())
    keep = m.target.points.copy()
    raises(ValueError, lambda: m.set_target(_pc(g.points(m.target.n_points + 1))), 'a target with more points')
    agree(m, kind, 'after a rejected target')
    need(np.array_equal(m.as_vector(), p) and np.array_equal(m.target.points, keep), 'a rejected target changes nothing')


@case(PID, 'similarity only model', n=15)
def _sim_only(g):
    import menpofit.modelinstance as M
    m = M.GlobalSimilarityModel(shapes(g))
    mean = m.mean.points.copy()
    for step in range(g.int(1, 4)):
        if g.flag():
            p = np.r_[g.normal(2) * .4, g.normal(2) * 20]
            m._from_vector_inplace(p.copy())
            need_close(m.as_vector(), p, 'reads back', tol=1e-9)
        else:
            y = arbitrary_of(g, mean)
            m.set_target(_pc(y.copy()))
        a, b, x, y_ = m.as_vector()
        need_close(m.target.points, mean.dot(np.array([[1 + a, -b], [b, 1 + a]]).T) + [x, y_],
                   'target is the shape of the parameters')
        need(np.array_equal(m.weights, m.as_vector()) and m.n_weights == 4, 'weights')


def arbitrary_of(g, mean):
    t, s = g.uniform(-3, 3), g.uniform(.5, 2)
    return s * mean.dot(np.array([[np.cos(t), np.sin(t)], [-np.sin(t), np.cos(t)]])) + g.normal(2) * 30


# ------------------------------------------------------------ model driven warps
def mdt(g, kind, warp):
    import menpofit.transform as T
    from menpofit.transform.modeldriven import ModelDrivenTransform, GlobalMDTransform
    m = make(g, kind)
    src = m.model.mean()
    W = dict(tps=T.DifferentiableThinPlateSplines, pwa=T.DifferentiablePiecewiseAffine)[warp]
    cls = ModelDrivenTransform if n_global(kind) == 0 else (
        T.OrthoMDTransform if kind == 'ortho' else GlobalMDTransform)
    return cls(m, W, source=src)


def agree_md(t, kind, what):
    agree(t.pdm, kind, what)
    need(np.array_equal(t.as_vector(), t.pdm.as_vector()), what + ': parameters of the warp are those of its model')
    need_close(t.target.points, t.pdm.target.points, what + ': targets agree')
    need_close(t.transform.target.points, t.target.points, what + ': the warp goes to the target')
    src = t.transform.source.points
    need_close(t.apply(src), t.target.points, what + ': source landmarks go to the target', tol=1e-5)
    need(t.n_parameters == len(t.as_vector()), what + ': number of parameters')


def _md_hist(kind):
    def run(g):
        t = mdt(g, kind, g.choice(['tps', 'pwa']))
        agree_md(t, kind, 'initially')
        for step in range(g.int(1, 5)):
            op = g.choice(['vector', 'target', 'from_vector', 'copy'])
            what = 'step %d (%s)' % (step, op)
            m = t.pdm
            if op == 'vector':
                p = params(g, m, kind)
                t._from_vector_inplace(p)
                agree_md(t, kind, what)
                need(np.allclose(t.as_vector(), p, atol=1e-6 * max(1, np.abs(p).max())), what + ': reads back')
                need(p.flags.writeable, what + ': the parameters handed in became read only')
                p[...] = 3.
                agree_md(t, kind, what + ', the array handed in written to afterwards')
            elif op == 'target':
                y = arbitrary(g, m)
                t.set_target(_pc(y.copy()))
                agree_md(t, kind, what)
                if kind in ('plain', 'ortho'):
                    best(m, kind, y, what)
            elif op == 'from_vector':
                p = params(g, m, kind)
                before = np.array(t.as_vector())
                n = t.from_vector(p)
                agree_md(n, kind, what)
                agree_md(t, kind, what)
                need(np.array_equal(t.as_vector(), before), what + ': the original keeps its parameters')
            else:
                n = t.copy()
                before = np.array(t.as_vector())
                n.set_target(_pc(arbitrary(g, m)))
                agree_md(n, kind, what)
                agree_md(t, kind, what)
                need(np.array_equal(t.as_vector(), before), what + ': the original keeps its parameters')
    return run


for _k in ('plain', 'global affine', 'global similarity', 'ortho'):
    case(PID, 'model driven warp: %s' % _k, n=20)(_md_hist(_k))


@case(PID, 'linear model driven warp', n=30)
def _linear(g):
    import menpofit.transform as T
    from menpo.shape import PointCloud, PointUndirectedGraph
    n_sparse, n_dense = g.int(4, 6), g.int(3, 8)
    model = pca(g, _aligned(g, n_sparse + n_dense))
    if g.flag():
        model.n_active_components = g.int(1, model.n_components)
    sparse = _pc(g.points(n_sparse))
    t = T.LinearOrthoMDTransform(model, sparse)
    need(t.n_landmarks == n_sparse, 'number of landmarks')
    kind = 'ortho'

    def check(what):
        agree(t, kind, what)
        need_close(t.sparse_target.points, t.target.points[:n_sparse], what + ': sparse part')
        need_close(t.dense_target.points, t.target.points[n_sparse:], what + ': dense part')
        need_close(t.apply(g.points(3)), t.target.points[n_sparse:], what + ': the warp places the dense points')
    check('initially')
    for step in range(g.int(1, 5)):
        op = g.choice(['vector', 'dense', 'sparse', 'increment'])
        what = 'step %d (%s)' % (step, op)
        if op == 'vector':
            p = params(g, t, kind)
            t._from_vector_inplace(p)
            need(np.allclose(t.as_vector(), p, atol=1e-6 * max(1, np.abs(p).max())), what + ': reads back')
        elif op == 'dense':
            y = arbitrary(g, t)
            t.set_target(_pc(y))
            best(t, kind, y, what)
        elif op == 'increment':
            old = t.target.points.copy()
            t.increment(_aligned(g, n_sparse + n_dense))
            best(t, kind, old, what)
        else:
            y = arbitrary(g, t)[:n_sparse]
            W = np.vstack([t.similarity_model.components, t.model.components])
            dense = y.ravel().dot(np.linalg.pinv(W[:, :2 * n_sparse])).dot(W).reshape(-1, 2)
            t.set_target(_pc(y.copy()))
            best(t, kind, dense, what)
        check(what)


def _aligned(g, n):
    from menpofit.builder import align_shapes
    return align_shapes(shapes(g, n, 2))
