"""C08: warp derivatives, against menpo's own code for applying the warps."""
from .common import *
from ..engine import diff

PID = 'C08'
HM = 'menpofit.transform.homogeneous'
B = 'menpo.transform.base'
H = 'menpo.transform.homogeneous'
DEPS = ['menpo.base', B, B + '.composable', B + '.invertible', B + '.alignment', H, H + '.base', H + '.affine',
        H + '.similarity', H + '.rotation', H + '.translation', H + '.scale']
VERIFIED = 'menpo: the installed source of the homogeneous transforms is executed along (not a stub)'


def hworld(**k):
    w = World(deps=DEPS, **k)
    t = w.load(H)
    w.stubs['menpo.transform'] = Stub('menpo.transform', **{k: getattr(t, k) for k in dir(t) if k[0].isupper()})
    w.stubs['menpo.shape'] = Stub('menpo.shape', **MENPO_SHAPE)
    return w


def hmatrix(kind, d, name='h'):
    """an arbitrary homogeneous matrix of the kind"""
    f = z3.Function(name, INT, INT, REAL)

    def elem(i, j):
        if i == d:
            return z3.RealVal(1 if j == d else 0)
        if kind == 'similarity' and j < 2:
            a, b = f(0, 0), f(1, 0)
            return a if i == j else (b if i == 1 else -b)
        return f(i, j)
    return T.stack(VList([VList([wrap(elem(i, j)) for j in range(d + 1)]) for i in range(d + 1)]))


CLS = {'affine': 'DifferentiableAffine', 'similarity': 'DifferentiableSimilarity',
       'alignment affine': 'DifferentiableAlignmentAffine', 'alignment similarity': 'DifferentiableAlignmentSimilarity'}


def make(kind, d):
    m = hworld().load(HM)
    h = hmatrix(kind.replace('alignment ', ''), d)
    cls = getattr(m, CLS[kind])
    if kind in ('affine', 'similarity'):
        return cls(h, skip_checks=True), h
    # the state any alignment can be in: a matrix of its kind, a source and a target
    a = object.__new__(cls)
    k = sint('n_landmarks', 2)
    a._h_matrix = h.copy()
    a._source, a._target = SPointCloud(pts('src', k, d)), SPointCloud(pts('tgt', k, d))
    a.allow_mirror = False
    return a, h


def mat_eq(name, a, b):
    prove(name, tensor_eq(a, b))


def derivatives(kind, d):
    a, h = make(kind, d)
    n = sint('n', 1)
    x = pts('x', n, d)
    np_ = d * (d + 1) if 'affine' in kind else 4
    fr = Frame(x=x, h=a._h_matrix)
    p = a.as_vector()
    prove('number of parameters', zint(a.n_parameters) == np_)
    mat_eq('parameters describe the warp', a.from_vector(p).h_matrix, h)
    J = a.d_dp(x)
    prove('one row per point, one column per parameter, one entry per dimension',
          z3.And(zint(J.shape[0]) == n.t, zint(J.shape[1]) == np_, zint(J.shape[2]) == d))
    y = a.apply(x)
    e = sreal('e')
    for k in range(np_):
        q = p.copy()
        q[k] = q[k] + e
        mat_eq('derivative in parameter %d, exact for every step' % k, a.from_vector(q).apply(x) - y, J[:, k, :] * e)
    D = a.d_dx(x)
    prove('layout of the point derivative', z3.And(zint(D.shape[0]) == 1, zint(D.shape[1]) == d, zint(D.shape[2]) == d))
    for k in range(d):
        u = x.copy()
        u[:, k] = u[:, k] + e
        z = a.apply(u) - y
        mat_eq('derivative in coordinate %d, exact for every step' % k, z, T.broadcast_to(D[0, :, k] * e, z.axes))
    fr.check('points and warp unmodified')
    r = 5 - d
    expect_raises('points of another dimension rejected', ValueError, lambda: a.d_dp(pts('bad', n, r)))


def rules(kind, d):
    a, h = make(kind, d)
    np_ = d * (d + 1) if 'affine' in kind else 4
    q = fresh('q', axes_of(np_))
    fr = Frame(q=q)
    n = sint('n', 1)
    x = pts('x', n, d)
    g = a.from_vector(q)
    mat_eq('reading back the parameters', g.as_vector(), q)
    G = g.h_matrix.copy()
    want = T.dot(h, G)
    z = g.apply(x)
    w = a.apply(z)
    i = a.pseudoinverse_vector(q)
    I = a.from_vector(i).h_matrix
    # G[:d, :d] invertible
    det = det_of(G[:d, :d], d)
    ctx().assume(det != 0)
    prod = T.dot(I, G)
    for r in range(d + 1):
        for c in range(d + 1):
            ok = ratio(at(prod, r, c), 1 if r == c else 0)
            prove('inverse parameters invert the warp', ok)
    if kind.startswith('alignment'):
        na = a.as_non_alignment()
        mat_eq('same warp without alignment', na.h_matrix, h)
        prove('independent of the alignment', na._h_matrix is not a._h_matrix)
        na._h_matrix[0, 0] = 3.0
        mat_eq('the alignment keeps its matrix', a.h_matrix, h)
    a.compose_after_from_vector_inplace(q)
    mat_eq('composition multiplies the matrices', a.h_matrix, want)
    mat_eq('composition applies the increment first', a.apply(x), w)
    if kind.startswith('alignment'):
        mat_eq('target follows', a.target.points, a.apply(a.source.points))
    fr.check('parameters unmodified')


def det_of(M, d):
    g = lambda i, j: at(M, i, j)
    if d == 2:
        return g(0, 0) * g(1, 1) - g(0, 1) * g(1, 0)
    return (g(0, 0) * (g(1, 1) * g(2, 2) - g(1, 2) * g(2, 1)) - g(0, 1) * (g(1, 0) * g(2, 2) - g(1, 2) * g(2, 0))
            + g(0, 2) * (g(1, 0) * g(2, 1) - g(1, 1) * g(2, 0)))


def ratio(t, v):
    return t == v


for _k in CLS:
    for _d in ((2, 3) if 'affine' in _k else (2,)):
        unit(PID, 'derivatives of the %s warp, %dD' % (_k, _d),
             ['%s:%s.%s' % (HM, CLS[_k], f) for f in ('d_dp', 'd_dx')] + [HM + ':%s_d_dp' % _k.split()[-1]] +
             [HM + ':affine_d_dx'] + ([HM + ':_apply_jacobian_mask'] if 'sim' in _k else []),
             [VERIFIED])(lambda _k=_k, _d=_d: derivatives(_k, _d))
        unit(PID, 'composition rules of the %s warp, %dD' % (_k, _d),
             ['%s:%s.%s' % (HM, CLS[_k], f) for f in (('as_non_alignment', 'compose_after_from_vector_inplace')
                                                     if 'al' in _k else ('d_dp',))], [VERIFIED])(
            lambda _k=_k, _d=_d: rules(_k, _d))


# ------------------------------------------------------- radial basis functions
RB = 'menpofit.transform.rbf'
DRBF = DEPS + ['menpo.transform.rbf']


def cdist(a, b):
    """contract: Euclidean distances of the rows of a to the rows of b"""
    d = a[:, None, :] - b[None, :, :]
    return shim.np_sqrt((d * d).sum(axis=-1))


def rworld(deps=()):
    w = World(deps=DRBF + list(deps), stubs={'scipy.spatial.distance': {'cdist': cdist}})
    t = w.load('menpo.transform.rbf')
    w.stubs['menpo.transform'] = Stub('menpo.transform', R2LogR2RBF=t.R2LogR2RBF, R2LogRRBF=t.R2LogRRBF)
    return w


CD = 'scipy cdist: Euclidean distances (assumed contract)'
CALC = 'calculus: r^2 log r extended by 0 is differentiable at r = 0 with derivative 0'


def rbf_unit(name, d):
    m = rworld().load(RB)
    n, nc = sint('n', 1), sint('n_centres', 1)
    x, c = pts('x', n, d), pts('c', nc, d)
    k = getattr(m, name)(c)
    fr = Frame(x=x, c=c)
    J = k.d_dl(x)
    prove('one row per point, one column per centre, one entry per dimension',
          z3.And(zint(J.shape[0]) == n.t, zint(J.shape[1]) == nc.t, zint(J.shape[2]) == d))
    y = k.apply(x)
    p, q = idx('p', n), idx('q', nc)
    u = sum([(at(x, p, j) - at(c, q, j)) * (at(x, p, j) - at(c, q, j)) for j in range(d)], z3.RealVal(0))
    fr.check('points and centres unmodified')
    if ctx().branch(u == 0):
        for j in range(d):
            prove('zero at a centre', at(J, p, q, j) == 0)
        return
    ctx().assume(u > 0)
    e = at(y, p, q)
    for j in range(d):
        t = diff.tangent(e, diff.entry('x', p, z3.IntVal(j)))
        prove('derivative in coordinate %d of the point' % j, at(J, p, q, j) == t)


def idx(name, n):
    i = z3.Int(name)
    ctx().assume(z3.And(i >= 0, i < zint(n)))
    return i


for _k in ('DifferentiableR2LogRRBF', 'DifferentiableR2LogR2RBF'):
    for _d in (2, 3):
        unit(PID, '%s derivative, %dD' % (_k, _d), ['%s:%s.d_dl' % (RB, _k)],
             [VERIFIED.replace('homogeneous transforms are', 'kernels is'), CD, CALC])(
            lambda _k=_k, _d=_d: rbf_unit(_k, _d))


# ---------------------------------------------------------------------- splines
TP = 'menpofit.transform.thinsplatesplines'


def svd_contract():
    """numpy.linalg.svd: a function of the matrix; factors of the full sizes"""
    known = []

    def svd(a, *k, **kw):
        for b, v, r in known:
            if b is a and a.version() == v:
                return r
        for b, v, r in known:
            if b.version() == v and provable(tensor_eq(a, b)):
                return r
        n = a.shape[0]
        j = len(known)
        r = (fresh('svd_u%d' % j, axes_of(n, n)), fresh('svd_s%d' % j, axes_of(n)), fresh('svd_v%d' % j, axes_of(n, n)))
        known.append((a, a.version(), r))
        return r
    return svd


class Kernel(object):
    """any radial basis: apply and d_dl are its value and its derivative in the
    point (what the units of the kernels prove), centres at the source"""

    def __init__(self, c):
        self.c = c
        self.phi = z3.Function('phi', INT, REAL, REAL, REAL)
        self.dphi = [z3.Function('dphi%d' % k, INT, REAL, REAL, REAL) for k in range(2)]

    def apply(self, x):
        e = x.frozen()
        return STensor([x.axes[0], self.c.axes[0]], lambda i: self.phi(
            i[1][0], e([i[0], (z3.IntVal(0),)]), e([i[0], (z3.IntVal(1),)])), 'r')

    def d_dl(self, x):
        e = x.frozen()

        def elem(i):
            a = [i[1][0], e([i[0], (z3.IntVal(0),)]), e([i[0], (z3.IntVal(1),)])]
            return z3.If(i[2][0] == 0, self.dphi[0](*a), self.dphi[1](*a))
        return STensor([x.axes[0], self.c.axes[0], (2,)], elem, 'r')

    def seed(self, inner):
        def s(e):
            if e.decl().name() == 'phi' and e.num_args() == 3:
                out = z3.RealVal(0)
                for k in range(2):
                    t = diff.tangent(e.arg(1 + k), s)
                    out = out + self.dphi[k](*e.children()) * t
                return z3.simplify(out)
            return inner(e)
        return s


def spline(kernel=True):
    w = rworld(['menpo.transform.thinplatesplines'])
    w.np.linalg.svd = svd_contract()
    t = w.load('menpo.transform.thinplatesplines')
    w.stubs['menpo.transform'].ThinPlateSplines = t.ThinPlateSplines
    m = w.load(TP)
    nc = sint('n_centres', 3)
    src, tgt = SPointCloud(pts('src', nc, 2), copy=False), SPointCloud(pts('tgt', nc, 2), copy=False)
    k = Kernel(src.points) if kernel else None
    s = m.DifferentiableThinPlateSplines(src, tgt, kernel=k)
    n = sint('n', 1)
    return s, src, tgt, pts('x', n, 2), n, nc, w


SPL = [VERIFIED.replace('homogeneous transforms are', 'splines is'), 'numpy.linalg.svd: a function of the matrix']


@unit(PID, 'spline derivative in the target', [TP + ':DifferentiableThinPlateSplines.d_dl'], SPL)
def tps_dl():
    s, src, tgt, x, n, nc, _ = spline()
    fr = Frame(x=x, src=src.points, tgt=tgt.points, coefficients=s.coefficients, L=s.l)
    J = s.d_dl(x)
    fr.check('points and warp unmodified')
    prove('one row per point, one column per landmark, one entry per dimension',
          z3.And(zint(J.shape[0]) == n.t, zint(J.shape[1]) == nc.t, zint(J.shape[2]) == 2))
    y = s.apply(x)
    p, q = idx('p', n), idx('q', nc)
    for j in range(2):
        for k in range(2):
            t = diff.tangent(at(y, p, j), diff.entry('tgt', q, z3.IntVal(k)))
            if j == k:
                prove('derivative in coordinate %d of a target landmark' % k, at(J, p, q, k) == t)
            else:
                prove('coordinate %d of a landmark does not move coordinate %d' % (k, j), t == 0)


@unit(PID, 'spline derivative in the point', [TP + ':DifferentiableThinPlateSplines.d_dx'], SPL)
def tps_dx():
    s, src, tgt, x, n, nc, _ = spline()
    # whatever the coefficients of the spline are
    s.coefficients = fresh('coefficients', axes_of(nc + 3, 2))
    fr = Frame(x=x, src=src.points, coefficients=s.coefficients)
    D = s.d_dx(x)
    fr.check('points and warp unmodified')
    prove('layout of the point derivative', z3.And(zint(D.shape[0]) == n.t, zint(D.shape[1]) == 2,
                                                   zint(D.shape[2]) == 2))
    y = s.apply(x)
    p = idx('p', n)
    for j in range(2):
        for k in range(2):
            t = diff.tangent(at(y, p, j), s.kernel.seed(diff.entry('x', p, z3.IntVal(k))))
            prove('derivative of coordinate %d in coordinate %d of the point' % (j, k), at(D, p, j, k) == t)


@unit(PID, 'spline kernel', [TP + ':DifferentiableThinPlateSplines.__init__'], SPL)
def tps_init():
    s, src, tgt, x, n, nc, w = spline(kernel=False)
    prove('the default kernel is differentiable', isinstance(s.kernel, w.load(RB).DifferentiableR2LogR2RBF))
    prove_eq('its centres are the source landmarks', s.kernel.c, src.points)
    prove('source and target kept', s.source is src and s.target is tgt)
    s2 = spline()[0]
    prove('a given kernel is used', isinstance(s2.kernel, Kernel))


# --------------------------------------------------------------- piecewise affine
PW = 'menpofit.transform.piecewiseaffine'
MPW = 'menpo.transform.piecewiseaffine.base'


class Mesh(SPointCloud):
    def __init__(self, points, trilist):
        SPointCloud.__init__(self, points, copy=False)
        self.trilist = trilist
        self.n_tris = trilist.shape[0]


@unit(PID, 'piecewise affine derivative in the target', [PW + ':DifferentiablePiecewiseAffine.d_dl'],
      [VERIFIED.replace('homogeneous transforms are', 'piecewise affine warp is'),
       'menpo index_alpha_beta: for each point a triangle of the list and barycentric coordinates that do not depend '
       'on the target; the triangles have three different vertices'])
def pwa_dl():
    w = World(deps=DEPS + [MPW])
    t = w.load(MPW)
    w.stubs['menpo.transform'] = Stub('menpo.transform', PiecewiseAffine=t.AbstractPWA)
    m = w.load(PW)
    nl, nt, n = sint('n_landmarks', 3), sint('n_tris', 1), sint('n', 1)
    src, tgt, x = pts('src', nl, 2), SPointCloud(pts('tgt', nl, 2), copy=False), pts('x', n, 2)
    tri = z3.Function('trilist', INT, INT, INT)
    ctx().assume(z3.ForAll([_t := z3.Int('_t'), _v := z3.Int('_v')],
                           z3.And(tri(_t, _v) >= 0, tri(_t, _v) < nl.t), patterns=[tri(_t, _v)]))
    ctx().assume(z3.ForAll([_t], z3.And(*[tri(_t, a) != tri(_t, b) for a, b in ((0, 1), (0, 2), (1, 2))]),
                           patterns=[tri(_t, 0)]))
    trilist = STensor([(nt.t,), (3,)], lambda i: tri(i[0][0], i[1][0]), 'i')

    class Warp(m.DifferentiablePiecewiseAffine):
        def index_alpha_beta(self, points):
            e = points.frozen()
            f = z3.Function('triangle', REAL, REAL, INT)
            xy = lambda i: (e([i[0], (z3.IntVal(0),)]), e([i[0], (z3.IntVal(1),)]))
            ctx().assume(z3.ForAll([a := z3.Real('_a'), b := z3.Real('_b')], z3.And(f(a, b) >= 0, f(a, b) < nt.t),
                                   patterns=[f(a, b)]))
            g = [z3.Function(k, REAL, REAL, REAL) for k in ('alpha', 'beta')]
            ax = [points.axes[0]]
            return (STensor(ax, lambda i: f(*xy(i)), 'i'), STensor(ax, lambda i: g[0](*xy(i)), 'r'),
                    STensor(ax, lambda i: g[1](*xy(i)), 'r'))
    a = object.__new__(Warp)
    a._source, a._target = Mesh(src, trilist), tgt
    a._rebuild_target_vectors()
    fr = Frame(x=x, src=src, tgt=tgt.points)
    J = a.d_dl(x)
    fr.check('points and landmarks unmodified')
    prove('one row per point, one column per landmark, one entry per dimension',
          z3.And(zint(J.shape[0]) == n.t, zint(J.shape[1]) == nl.t, zint(J.shape[2]) == 2))
    y = a._apply(x)
    p, q = idx('p', n), idx('q', nl)
    for j in range(2):
        for k in range(2):
            t = diff.tangent(at(y, p, j), diff.entry('tgt', q, z3.IntVal(k)))
            if j == k:
                prove('derivative in coordinate %d of a target landmark' % k, at(J, p, q, k) == t)
            else:
                prove('coordinate %d of a landmark does not move coordinate %d' % (k, j), t == 0)
