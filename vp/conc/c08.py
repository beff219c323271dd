"""C08 runtime contracts: derivatives against finite differences of the warps."""
from .common import *

PID = 'C08'


def _fd(f, x, h):
    """central differences of f at the vector x -> (k,) + f.shape"""
    out = []
    for k in range(len(x)):
        e = np.zeros(len(x))
        e[k] = h
        out.append((np.asarray(f(x + e)) - np.asarray(f(x - e))) / (2 * h))
    return np.array(out)


def _aff(g, d):
    return np.eye(d) * g.uniform(.5, 2) + g.normal(d, d) * .4, g.normal(d) * 20


def _pc(p):
    from menpo.shape import PointCloud
    return PointCloud(p)


def _make(g, kind, d):
    import menpofit.transform as T
    h = np.eye(d + 1)
    if kind == 'affine':
        h[:d, :d], h[:d, d] = _aff(g, d)
        return T.DifferentiableAffine(h)
    if kind == 'similarity':
        a, b = g.uniform(-2, 2), g.uniform(-2, 2)
        h[:2, :2] = [[1 + a, -b], [b, 1 + a]]
        h[:2, 2] = g.normal(2) * 20
        return T.DifferentiableSimilarity(h)
    src = g.points(g.int(d + 2, 8), d)
    A, b = _aff(g, d)
    tgt = src.dot(A.T) + b + g.normal(*src.shape)
    cls = T.DifferentiableAlignmentAffine if kind == 'alignment affine' else T.DifferentiableAlignmentSimilarity
    return cls(_pc(src), _pc(tgt))


KINDS = ['affine', 'similarity', 'alignment affine', 'alignment similarity']


def _homog(g, kind, d):
    t = _make(g, kind, d)
    if kind.startswith('alignment') and g.flag():
        t._from_vector_inplace(g.normal(t.n_parameters))
    p = t.as_vector().copy()
    x = g.points(g.int(1, 6), d)
    keep, H = x.copy(), t.h_matrix.copy()
    J = t.d_dp(x)
    need(J.shape == (len(x), t.n_parameters, d), 'layout of d_dp', got=J.shape)
    num = _fd(lambda q: t.from_vector(q).apply(x), p, 1e-3)
    need_close(J, num.transpose(1, 0, 2), 'derivative in the parameters', tol=1e-7)
    D = t.d_dx(x)
    need(D.ndim == 3 and D.shape[0] in (1, len(x)) and D.shape[1:] == (d, d), 'layout of d_dx', got=D.shape)
    num = _fd(lambda e: t.apply(x + e), np.zeros(d), 1e-3)
    need_close(np.broadcast_to(D, (len(x), d, d)), num.transpose(1, 2, 0), 'derivative in the points', tol=1e-7)
    need(np.array_equal(x, keep) and np.array_equal(t.h_matrix, H) and np.array_equal(t.as_vector(), p),
         'points and warp unmodified')
    raises(ValueError, lambda: t.d_dp(g.points(3, 5 - d)), 'points of another dimension')
    if kind == 'affine' or kind == 'alignment affine':
        return
    raises(ValueError, lambda: t.d_dp(g.points(3, 3)), '3D points of a 2D similarity')


def _rules(g, kind, d):
    t = _make(g, kind, d)
    q = g.normal(t.n_parameters)
    H0 = t.h_matrix.copy()
    other = t.from_vector(q)
    need(np.array_equal(t.h_matrix, H0), 'from_vector leaves the warp')
    H1 = other.h_matrix.copy()
    x = g.points(4, d)
    want = t.apply(other.apply(x))
    if kind.startswith('alignment'):
        n = t.as_non_alignment()
        need_close(n.h_matrix, H0, 'the warp without alignment is the same warp')
        need_close(n.d_dp(x), t.d_dp(x), 'and has the same derivative')
        need(not np.shares_memory(n.h_matrix, t.h_matrix), 'and is independent')
    i = t.pseudoinverse_vector(q)
    need_close(t.from_vector(i).h_matrix, np.linalg.inv(H1), 'inverse of a parameter vector', tol=1e-7)
    t.compose_after_from_vector_inplace(q)
    need_close(t.h_matrix, H0.dot(H1), 'composition with a parameter vector')
    need_close(t.apply(x), want, 'composition applies the vector first', tol=1e-7)
    if kind.startswith('alignment'):
        need_close(t.target.points, t.apply(t.source.points), 'target follows the parameters', tol=1e-7)


for _k in KINDS:
    for _d in ((2, 3) if 'affine' in _k else (2,)):
        case(PID, 'derivatives of %s %dD' % (_k, _d), n=12)(lambda g, _k=_k, _d=_d: _homog(g, _k, _d))
        case(PID, 'composition rules of %s %dD' % (_k, _d), n=8)(lambda g, _k=_k, _d=_d: _rules(g, _k, _d))


def _kernel(g, name, c):
    from menpofit.transform import rbf
    return getattr(rbf, name)(c)


@case(PID, 'radial basis functions', n=40)
def rbfs(g):
    d = g.choice([2, 3])
    c = g.points(g.int(1, 5), d)
    k = _kernel(g, g.choice(['DifferentiableR2LogRRBF', 'DifferentiableR2LogR2RBF']), c)
    x = g.points(g.int(1, 5), d)
    on = g.flag()
    if on:
        x[0] = c[0]
    keep, kc = x.copy(), c.copy()
    J = k.d_dl(x)
    need(J.shape == (len(x), len(c), d), 'layout', got=J.shape)
    # a derivative at a centre: the function vanishes to second order there (r^2 log r)
    num = _fd(lambda e: k.apply(x + e), np.zeros(d), 1e-4).transpose(1, 2, 0)
    if on:
        need(np.array_equal(J[0, 0], np.zeros(d)), 'zero at the centre', got=J[0, 0])
        num[0, 0] = 0
    need_close(J, num, 'derivative', tol=1e-5)
    need(np.array_equal(x, keep) and np.array_equal(k.c, kc), 'points and centres unmodified')


def _tps(g, n=None, kernel=False, scale=None):
    from menpofit.transform import DifferentiableThinPlateSplines as D
    from menpofit.transform import rbf
    s = scale or g.choice([1.0, 5.0, 20.0, 60.0])
    src = _pc(g.points(n or g.int(4, 8), 2, s, g.choice([0, 40.0])))
    A, b = _aff(g, 2)
    tgt = _pc(src.points.dot(A.T) + b + g.normal(*src.points.shape) * s * .1)
    if g.flag():
        tgt = _pc(src.points.copy())
    kw = {}
    if g.flag():
        kw['kernel'] = getattr(rbf, g.choice(['DifferentiableR2LogRRBF', 'DifferentiableR2LogR2RBF']))(src.points)
    return D(src, tgt, **kw), s


@case(PID, 'thin plate splines: input point', n=30)
def tps_dx(g):
    t, s = _tps(g)
    if g.flag():
        t.set_target(_pc(t.target.points + g.normal(*t.target.points.shape) * .1 * s))
    x = g.choice([g.points(g.int(1, 9), 2, s, t.source.centre()), t.source.points.copy()])
    keep = x.copy()
    D = t.d_dx(x)
    need(D.shape == (len(x), 2, 2), 'layout', got=D.shape)
    h = s * 1e-5
    num = _fd(lambda e: t.apply(x + e), np.zeros(2), h).transpose(1, 2, 0)
    need_close(D, num, 'derivative', tol=1e-4)
    need(np.array_equal(x, keep), 'points unmodified')


@case(PID, 'thin plate splines: target landmark', n=30)
def tps_dl(g):
    t, s = _tps(g)
    x = g.points(g.int(1, 6), 2, s, t.source.centre())
    keep, tg, cf = x.copy(), t.target.points.copy(), t.coefficients.copy()
    J = t.d_dl(x)
    need(J.shape == (len(x), t.n_points, 2), 'layout', got=J.shape)
    need(np.array_equal(x, keep) and np.array_equal(t.target.points, tg) and np.array_equal(t.coefficients, cf),
         'points and warp unmodified')
    from menpofit.transform import DifferentiableThinPlateSplines as D
    i = g.int(0, t.n_points - 1)
    for k in range(2):
        out = []
        for sg in (1, -1):
            q = tg.copy()
            q[i, k] += sg * s * .01
            out.append(D(t.source, _pc(q), kernel=t.kernel).apply(x))
        num = (out[0] - out[1]) / (s * .02)
        need_close(J[:, i, k], num[:, k], 'derivative in a target landmark', tol=1e-5)
        need_close(num[:, 1 - k], np.zeros(len(x)), 'the other dimension does not move', tol=1e-5)


@case(PID, 'piecewise affine: target landmark', n=30)
def pwa_dl(g):
    from menpofit.transform import DifferentiablePiecewiseAffine as D
    from menpo.shape import TriMesh
    n = g.int(4, 8)
    while True:
        src = TriMesh(g.points(n, 2))
        a = src.points[src.trilist]
        ar = np.abs(np.cross(a[:, 1] - a[:, 0], a[:, 2] - a[:, 0]))
        if ar.min() > 1:
            break
    tgt = _pc(src.points + g.normal(n, 2) * 2)
    t = D(src, tgt)
    if g.flag():
        t.apply(src.points[:2] * .5 + src.points[1:3] * .5 if False else src.points[src.trilist[0]].mean(0)[None])
    m = g.int(1, 6)
    tri = g.r.integers(0, len(src.trilist), m)
    w = g.r.dirichlet(np.ones(3) * 2, m)
    x = np.einsum('mk,mkd->md', w, src.points[src.trilist[tri]])
    keep = x.copy()
    J = t.d_dl(x)
    need(J.shape == (m, n, 2), 'layout', got=J.shape)
    num = np.zeros((m, n, 2))
    for i in range(n):
        for k in range(2):
            e = np.zeros((n, 2))
            e[i, k] = 1
            dif = (D(src, _pc(tgt.points + e)).apply(x) - D(src, _pc(tgt.points - e)).apply(x)) / 2
            num[:, i, k] = dif[:, k]
            need_close(dif[:, 1 - k], np.zeros(m), 'the other dimension does not move')
    need_close(J, num, 'derivative in a target landmark')
    need(np.array_equal(x, keep) and np.array_equal(t.target.points, tgt.points), 'points and warp unmodified')
