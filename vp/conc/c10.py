"""C10 runtime contracts: derivatives of point distribution models and of
model-driven warps, and their compositional updates."""
from .common import *
from .c09 import make, params, n_global, generated, mdt, shapes, arbitrary, _pc, pca, _aligned

PID = 'C10'


def _fd(f, n, h=1e-3):
    out = []
    for k in range(n):
        e = np.zeros(n)
        e[k] = h
        out.append((f(e) - f(-e)) / (2 * h))
    return np.array(out)


def shape_jacobian(m, kind, p):
    """d shape / d p; the global part for the mean shape (weights 0)"""
    ng = n_global(kind)
    base = p.copy()
    base[ng:] = 0

    def q(e):
        v = base.copy()
        v[:ng] += e
        return generated(m, kind, v)

    def w(e):
        v = p.copy()
        v[ng:] += e
        return generated(m, kind, v)
    n = len(p) - ng
    parts = ([_fd(q, ng)] if ng else []) + [_fd(w, n)]
    return np.concatenate(parts).transpose(1, 0, 2)


def _walk(g, m, kind):
    for _ in range(g.int(0, 3)):
        op = g.choice(['vector', 'target', 'active', 'increment'])
        if op == 'vector':
            m._from_vector_inplace(params(g, m, kind))
        elif op == 'target':
            m.set_target(_pc(arbitrary(g, m)))
        elif op == 'active':
            m.n_active_components = g.int(1, m.model.n_components)
        else:
            m.increment(shapes(g, m.target.n_points, m.n_dims))


def _pdm(kind):
    def run(g):
        m = make(g, kind)
        _walk(g, m, kind)
        p = np.array(m.as_vector())
        tgt = m.target.points.copy()
        x = g.points(4, m.n_dims)
        keep = x.copy()
        J = m.d_dp(x)
        want = shape_jacobian(m, kind, p)
        need(J.shape == want.shape, 'one row per model point, one column per parameter', got=J.shape)
        need_close(J, want, 'derivative of the shape in the parameters', tol=1e-5)
        need(np.array_equal(x, keep), 'points unmodified')
        need(np.array_equal(m.as_vector(), p) and np.array_equal(m.target.points, tgt), 'model unmodified')
        need_close(m.d_dp(x), J, 'the same again')
    return run


KINDS = ('plain', 'plain 3D', 'global affine', 'global similarity', 'ortho')
for _k in KINDS:
    case(PID, 'shape derivative: %s' % _k, n=25)(_pdm(_k))


@case(PID, 'shape derivative: similarity only', n=15)
def _sim_only(g):
    import menpofit.modelinstance as M
    m = M.GlobalSimilarityModel(shapes(g))
    p = np.r_[g.normal(2) * .4, g.normal(2) * 20]
    m._from_vector_inplace(p.copy())
    mean = m.mean.points

    def f(e):
        a, b, x, y = p + e
        return mean.dot(np.array([[1 + a, -b], [b, 1 + a]]).T) + [x, y]
    need_close(m.d_dp(None), _fd(f, 4).transpose(1, 0, 2), 'derivative of the shape', tol=1e-6)
    need_close(m.target.points, f(np.zeros(4)), 'model unmodified')


def _inside(g, t, n):
    """points in the domain of the warp, off the edges of its triangles"""
    src = t.transform.source.points
    k = np.array([g.r.permutation(len(src))[:3] for _ in range(n)])
    w = g.r.dirichlet([2, 2, 2], size=n)
    return np.einsum('nk,nkd->nd', w, src[k])


def _warp(kind):
    def run(g):
        from menpofit.transform import DifferentiablePiecewiseAffine
        from menpo.transform.piecewiseaffine.base import TriangleContainmentError
        t = mdt(g, kind, g.choice(['tps', 'pwa']))
        x = _inside(g, t, g.int(1, 6))
        for step in range(g.int(1, 4)):
            op = g.choice(['vector', 'target', 'moved', 'none', 'other'])
            if op == 'vector':
                t._from_vector_inplace(params(g, t.pdm, kind))
            elif op == 'target':
                t.set_target(_pc(arbitrary(g, t.pdm)))
            elif op == 'moved':
                x[...] = _inside(g, t, len(x))
            elif op == 'other':
                x = _inside(g, t, len(x))
            if isinstance(t.transform, DifferentiablePiecewiseAffine) and g.flag(.3):
                # points outside the domain are rejected, whenever they are asked for
                out = x + 1e4
                for _ in range(2):
                    raises(TriangleContainmentError, lambda: t.d_dp(out), 'points outside the domain')
            what = 'step %d (%s)' % (step, op)
            p = np.array(t.as_vector())
            tgt, keep = t.target.points.copy(), x.copy()
            J = t.d_dp(x)
            ng = n_global(kind)
            base = p.copy()
            base[ng:] = 0

            def q(e):
                v = base.copy()
                v[:ng] += e
                return t.from_vector(v).apply(keep.copy())

            def w(e):
                v = p.copy()
                v[ng:] += e
                return t.from_vector(v).apply(keep.copy())
            want = np.concatenate(([_fd(q, ng)] if ng else []) + [_fd(w, len(p) - ng)]).transpose(1, 0, 2)
            need(J.shape == want.shape, what + ': one row per point, one column per parameter', got=J.shape)
            need_close(J, want, what + ': derivative of the warped points in the parameters', tol=1e-5)
            need(np.array_equal(x, keep), what + ': points unmodified')
            need(np.array_equal(t.as_vector(), p) and np.array_equal(t.target.points, tgt), what + ': warp unmodified')
    return run


for _k in KINDS:
    if _k != 'plain 3D':
        case(PID, 'warp derivative: %s' % _k, n=25)(_warp(_k))


def _compose(kind):
    def run(g):
        warp = g.choice(['tps', 'pwa'])
        t = mdt(g, kind, warp)
        for _ in range(g.int(0, 2)):
            t._from_vector_inplace(params(g, t.pdm, kind))
        m = t.pdm
        p = np.array(t.as_vector())
        mean = m.model.mean().points.copy()
        ng = n_global(kind)
        F = shape_jacobian(m, kind, p)
        F0 = shape_jacobian(m, kind, np.zeros(len(p)))
        if warp == 'tps':
            dx = _fd(lambda e: t.apply(mean + e), 2).transpose(1, 2, 0)
        else:
            dx = np.broadcast_to(t.transform.d_dx(mean.copy()), (len(mean), 2, 2))
        G = np.einsum('nij,npj->npi', dx, F0)
        flat = lambda a: a.transpose(0, 2, 1).reshape(-1, len(p))
        want = np.linalg.lstsq(flat(F), flat(G), rcond=None)[0]
        if len(p) > 2 * len(mean) or np.linalg.cond(flat(F)) > 1e4:
            return
        need_close(t.Jp(), want, 'projection of the composition', tol=1e-4)
        need(np.array_equal(t.as_vector(), p), 'reading it leaves the warp')
        d = g.normal(len(p)) * 1e-2
        keep = d.copy()
        t.compose_after_from_vector_inplace(d)
        need(np.array_equal(d, keep), 'increment unmodified')
        need_close(t.as_vector(), p + want.dot(d), 'composed parameters', tol=1e-5)
        need_close(t.target.points, generated(m, kind, np.array(t.as_vector())), 'target follows', tol=1e-6)
        need_close(t.transform.target.points, t.target.points, 'warp follows')
        need_close(t.pseudoinverse_vector(d), -d, 'inverse increment')
    return run


for _k in KINDS:
    if _k != 'plain 3D':
        case(PID, 'composition: %s' % _k, n=20)(_compose(_k))


@case(PID, 'linear model driven warp derivative', n=20)
def _linear(g):
    import menpofit.transform as T
    n_sparse, n_dense = g.int(4, 6), g.int(3, 8)
    t = T.LinearOrthoMDTransform(pca(g, _aligned(g, n_sparse + n_dense)), _pc(g.points(n_sparse)))
    _walk(g, t, 'ortho')
    p = np.array(t.as_vector())
    J = t.d_dp(g.points(3))
    need_close(J, shape_jacobian(t, 'ortho', p)[n_sparse:], 'derivative of the dense points', tol=1e-5)
    need(np.array_equal(t.as_vector(), p), 'warp unmodified')
