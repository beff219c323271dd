"""C09: shape models, their weights and their target always agree.

Every operation is run from an arbitrary state that satisfies the invariant and
the invariant is proved again: it holds after every history of operations.  The
source of menpo's linear models and of Targetable / Vectorizable is executed
along; only the numerical kernels (qr, incremental pca, alignment) are contracts."""
from .common import *

PID = 'C09'
M = 'menpofit.modelinstance'
DEPS = ['menpo.base', 'menpo.model.linear', 'menpo.model.vectorizable', 'menpo.model.pca']


class Shape(SPointCloud):
    def as_vector(self, **k):
        return self.points.copy().ravel()


class Doc(object):
    """menpo.base.doc_inherit: copies a docstring"""

    def __init__(self, name=None):
        pass

    def __call__(self, f):
        return f


class Kernels(object):
    """contracts of the numerical kernels: arbitrary results of the documented shapes"""

    def __init__(self, w):
        self.calls = []
        w.np.linalg.qr = self.qr

    def qr(self, A):
        # an orthonormal basis of the columns, as many as there can be
        n, k = A.axes[0], zint(A.shape[1])
        self.nq = getattr(self, 'nq', 0) + 1
        q = sint('n_basis%d' % self.nq, 5)
        ctx().assume(z3.And(q.t <= k, q.t <= zint(A.shape[0])))
        Q = fresh('Q%d' % self.nq, [n, (q.t,)])
        return Q, None

    def ipca(self, data, components, eigenvalues, n, m_a=None, f=1.0):
        i = self.ni = getattr(self, 'ni', 0) + 1
        k = sint('n_incremented%d' % i, 1)
        return (fresh('C_inc%d' % i, [(k.t,), components.axes[1]]), fresh('eig_inc%d' % i, axes_of(k)),
                fresh('mean_inc%d' % i, m_a.axes))


def as_matrix(samples, length=None, return_template=False, verbose=False):
    n = sint('n_new_samples', 1)
    return fresh('data', [(n.t,), (samples.n.t, samples.d)])


class Shapes(object):
    def __init__(self, n, d):
        self.n, self.d = n, d


class Align(object):
    """contract of an alignment transform: set_target solves for some parameters,
    depending on source and target; a shape is aligned with itself by the identity;
    parameters describe the matrix (C08)"""
    __vtrusted__ = 'alignment transforms: set_target picks the parameters of the alignment of source and target ' \
                   '(identity when they are equal); parameters read back and describe the matrix (proved in C08)'
    kind = 'similarity'
    count = 0

    def __init__(self, source, target):
        self.source = source
        self.given = None
        self._solve(target, provable(tensor_eq(source.points, target.points)))

    @property
    def d(self):
        return int(str(zint(self.source.n_dims)))

    n_dims = property(lambda s: s.d)

    @property
    def n_parameters(self):
        return 4 if self.kind == 'similarity' else self.d * (self.d + 1)

    def _solve(self, target, same=False):
        self.given = target.points.copy()
        self.start = self.source.points.copy()
        if same:
            self.q = T.const((self.n_parameters,), 0.0)
            return
        Align.count += 1
        self.q = fresh(ctx().fresh('q'), axes_of(self.n_parameters))

    def set_target(self, target):
        self._solve(target)

    @property
    def h(self):
        return matrix(self.kind, self.d, self.q)

    def _apply(self, x):
        A, t = self.h
        return T.dot(x, A.T) + t

    def apply(self, s):
        if hasattr(s, '_transform'):
            return s._transform(self._apply)
        return self._apply(s)

    def pseudoinverse(self):
        return Inverse(self)

    def as_vector(self, **k):
        return self.q.copy()

    def _from_vector_inplace(self, v):
        prove('as many global parameters as the transform has', zint(v.shape[0]) == self.n_parameters)
        self.q = v.copy()
        self.given = None

    def copy(self):
        r = object.__new__(type(self))
        r.__dict__.update(self.__dict__)
        return r


class Inverse(object):
    """the inverse of the matrix, entries a function of the matrix"""

    def __init__(self, a):
        self.A, self.t = a.h
        d = a.d
        e = [at(self.A, i, j) for i in range(d) for j in range(d)]
        f = lambda i, j: z3.Function('inverse_%d%d' % (i, j), *([REAL] * (d * d + 1)))(*e)
        self.B = T.stack(VList([VList([wrap(f(i, j)) for j in range(d)]) for i in range(d)]))

    def apply(self, s):
        return s._transform(lambda x: T.dot(x - self.t, self.B.T))


class AlignAffine(Align):
    kind = 'affine'


def matrix(kind, d, q):
    e = q.frozen()
    g = lambda i: wrap(zreal(wrap(e([(z3.IntVal(i),)]))))
    if kind == 'similarity':
        a, b = g(0), g(1)
        return (T.stack(VList([VList([a + 1, -b]), VList([b, a + 1])])), T.stack(VList([g(2), g(3)])))
    rows = [VList([g(j * d + i) + (1 if i == j else 0) for j in range(d)]) for i in range(d)]
    return T.stack(VList(rows)), T.stack(VList([g(d * d + i) for i in range(d)]))


def world(extra=()):
    w = World(deps=DEPS + list(extra), stubs={
        'menpo.shape': {'mean_pointcloud': None, 'PointCloud': Shape},
        'menpofit.builder': {'align_shapes': lambda s, **k: s},
        'menpofit.transform': {'DifferentiableAlignmentSimilarity': Align, 'DifferentiableAlignmentAffine': AlignAffine}})
    k = Kernels(w)
    w.stubs['menpo.math'] = Stub('menpo.math', as_matrix=as_matrix, ipca=k.ipca)
    b = w.load('menpo.base')
    b.doc_inherit = Doc
    lin, pca = w.load('menpo.model.linear'), w.load('menpo.model.pca')
    w.stubs['menpo.model'] = Stub('menpo.model', MeanLinearModel=lin.MeanLinearVectorModel, PCAModel=pca.PCAModel)
    w.kernels = k
    return w


class S(object):
    """a shape model and what is arbitrary about it"""


def pca_model(w, d, name=''):
    N, K, k = sint('n_points' + name, 3), sint('n_components' + name, 1), sint('n_active' + name, 1)
    ctx().assume(k.t <= K.t)
    p = w.mods['menpo.model.pca'].PCAModel
    m = p.__new__(p)
    m._components = fresh('C' + name, [(K.t,), (N.t, d)])
    mean = pts('mean' + name, N, d)
    m._mean = mean.ravel()
    m.centred = True
    m.n_samples = sint('n_samples' + name, 1)
    m._eigenvalues = fresh('eig' + name, axes_of(K))
    m._trimmed_eigenvalues = fresh('trimmed' + name, axes_of(sint('n_trimmed' + name, 0)))
    m._n_active_components = k
    m.template_instance = Shape(pts('template' + name, N, d))
    return m, N


def shape_of(model, w, d):
    """mean + sum_i w_i C_i as a set of points"""
    C = model.components
    v = model._mean + T.dot(w, C)
    return v.reshape((-1, d))


def placed(m, kind, d):
    """the shape the current parameters describe"""
    s = shape_of(m.model, m._weights, d)
    if kind == 'plain':
        return s
    A, t = m.global_transform.h
    return T.dot(s, A.T) + t


def agrees(m, kind, d, what):
    prove_eq(what + ': the target is the shape of the parameters', m.target.points, placed(m, kind, d))
    prove(what + ': one weight per active component', zint(m.weights.shape[0]) == zint(m.model.n_active_components))
    prove(what + ': number of weights', zint(m.n_weights) == zint(m.model.n_active_components))
    p = m.as_vector()
    prove_eq(what + ': weights', m.weights, m._weights)
    if kind == 'plain':
        prove_eq(what + ': the parameters are the weights', p, m._weights)
    else:
        g = m.similarity_weights if kind == 'ortho' else m.global_transform.q
        prove_eq(what + ': global parameters first, then the weights', p, shim.np_hstack([g, m._weights]))
        prove_eq(what + ': global parameters', m.global_parameters, g)
        prove(what + ': number of global parameters', zint(m.n_global_parameters) == zint(g.shape[0]))
        prove_eq(what + ': the global transform starts from the mean of the model', m.global_transform.source.points,
                 m.model.mean().points)
        if kind == 'ortho':
            sm = m.similarity_model
            prove_eq(what + ': the similarity is that of the similarity parameters', m.global_transform.given,
                     (m.model._mean + T.dot(g, sm.components)).reshape((-1, d)))
            prove_eq(what + ': the similarity model has the mean of the shape model', sm._mean, m.model._mean)
    prove(what + ': number of parameters', zint(m.n_parameters) == zint(p.shape[0]))


CLS = {'plain': 'PDM', 'similarity': 'GlobalPDM', 'affine': 'GlobalPDM', 'ortho': 'OrthoPDM'}


def instance(kind, d, w=None, arbitrary=True):
    w = w or world()
    m = w.load(M)
    model, N = pca_model(w, d)
    cls = getattr(m, CLS[kind])
    if kind == 'plain':
        x = cls(model)
    elif kind == 'ortho':
        x = cls(model)
    else:
        x = cls(model, Align if kind == 'similarity' else AlignAffine)
    if arbitrary:
        scramble(x, kind, d)
    return x, N, w


def scramble(x, kind, d):
    """any state that satisfies the invariant"""
    x._weights = fresh(ctx().fresh('w'), axes_of(x.model.n_active_components))
    if kind == 'ortho':
        sm = x.similarity_model
        x.similarity_weights = fresh(ctx().fresh('sw'), axes_of(4))
        x.global_transform.set_target(Shape((sm._mean + T.dot(x.similarity_weights, sm.components)).reshape((-1, d))))
    elif kind != 'plain':
        x.global_transform.q = fresh(ctx().fresh('q0'), axes_of(x.global_transform.n_parameters))
    x._target = Shape(placed(x, kind, d))


LIN = ['menpo linear models, Targetable and Vectorizable: the installed source is executed along (not a stub)',
       'numpy.linalg.qr, menpo.math.ipca: arbitrary results of the documented shapes', Align.__vtrusted__]


def n_params(x, kind):
    return {'plain': 0, 'similarity': 4, 'ortho': 4}.get(kind, None)


def nparams(x, kind):
    g = 0 if kind == 'plain' else x.global_transform.n_parameters
    return SInt(z3.simplify(zint(x.model.n_active_components) + g)), g


def created(kind, d):
    x, N, w = instance(kind, d, arbitrary=False)
    agrees(x, kind, d, 'a new model')
    prove_eq('a new model is at its mean', x.target.points, x.model.mean().points)
    i = z3.Int('i0')
    e = x.weights
    prove('no deformation', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < zint(e.shape[0])), at(e, i) == 0)))


def vector_set(kind, d):
    x, N, w = instance(kind, d)
    n, g = nparams(x, kind)
    p = fresh('p', axes_of(n))
    keep = p.copy()
    x._from_vector_inplace(p)
    agrees(x, kind, d, 'set')
    prove_eq('reads back', x.as_vector(), keep)
    prove_eq('the parameters handed in are unmodified', p, keep)
    prove('and stay writeable', p.flags.writeable)
    p[...] = 1.0
    prove_eq('written to afterwards: still reads back', x.as_vector(), keep)
    agrees(x, kind, d, 'written to afterwards')
    # a copy with other parameters
    p2 = fresh('p2', axes_of(n))
    y = x.from_vector(p2)
    prove_eq('from_vector reads back', y.as_vector(), p2)
    agrees(y, kind, d, 'from_vector')
    prove_eq('the original keeps its parameters', x.as_vector(), keep)
    agrees(x, kind, d, 'the original')


def target_set(kind, d):
    x, N, w = instance(kind, d)
    y = pts('y', N, d)
    t = Shape(y, copy=False)
    keep = y.copy()
    x.set_target(t)
    agrees(x, kind, d, 'target set')
    prove_eq('the target handed in is unmodified', y, keep)
    after_target(x, kind, d, keep)
    bad = Shape(pts('bad', SInt(z3.simplify(zint(N) + 1)), d))
    before = x.as_vector().copy()
    tgt = x.target.points.copy()
    expect_raises('targets with another number of points are rejected', ValueError, lambda: x.set_target(bad))
    prove_eq('and change nothing', x.as_vector(), before)
    prove_eq('and leave the target', x.target.points, tgt)


def after_target(x, kind, d, y):
    """the global transform is aligned with the target; the weights project what is left"""
    if kind == 'ortho':
        sm = x.similarity_model
        sw = T.dot(y.ravel() - x.model._mean, sm.components.T)
        prove_eq('similarity parameters: projection on the similarity components', x.similarity_weights, sw)
    elif kind != 'plain':
        prove_eq('the global transform is aligned with the target', x.global_transform.given, y)
    z = y
    if kind != 'plain':
        z = Inverse(x.global_transform).apply(Shape(y)).points
    C = x.model.components
    prove_eq('weights: projection on the active components', x._weights, T.dot(z.ravel() - x.model._mean, C.T))


def active(kind, d):
    x, N, w = instance(kind, d)
    old = x.target.points.copy()
    k = sint('k', 1)
    if not ctx().branch(k.t <= zint(x.model.n_components)):
        return
    x.n_active_components = k
    prove('number of active components', zint(x.n_active_components) == k.t)
    agrees(x, kind, d, 'active components set')
    after_target(x, kind, d, old)


def incremented(kind, d, trimmed):
    x, N, w = instance(kind, d)
    old = x.target.points.copy()
    trim = sint('max_n_components', 1) if trimmed else None
    try:
        x.increment(Shapes(N, d), max_n_components=trim)
    except ValueError as e:
        # menpo rejects impossible numbers of components
        return
    agrees(x, kind, d, 'incremented')
    after_target(x, kind, d, old)


def F(kind, *names):
    base = {'plain': 'PDM', 'similarity': 'GlobalPDM', 'affine': 'GlobalPDM', 'ortho': 'OrthoPDM'}[kind]
    own = {'PDM': ['__init__', 'increment', 'n_active_components'],
           'GlobalPDM': ['__init__', '_new_target_from_state', '_weights_for_target', '_update_global_transform',
                         '_as_vector', '_from_vector_inplace', '_update_global_weights', 'global_parameters',
                         'n_global_parameters'],
           'OrthoPDM': ['__init__', '_update_global_transform', '_update_global_weights', 'increment',
                        '_construct_similarity_model', 'global_parameters']}
    inh = {'PDM': ['ModelInstance'], 'GlobalPDM': ['PDM', 'ModelInstance'], 'OrthoPDM': ['GlobalPDM', 'PDM', 'ModelInstance']}
    own['ModelInstance'] = ['__init__', 'n_weights', 'weights', 'target', '_target_setter', '_new_target_from_state',
                            '_sync_state_from_target', '_weights_for_target', '_as_vector', '_from_vector_inplace']
    out = []
    for c in [base] + inh[base]:
        out += ['%s:%s.%s' % (M, c, f) for f in own[c] if not names or f in names]
    return out


for _k in ('plain', 'similarity', 'affine', 'ortho'):
    for _d in ((2, 3) if _k in ('plain', 'affine') else (2,)):
        _t = '%s shape model, %dD' % (_k, _d)
        unit(PID, 'creation: ' + _t, F(_k, '__init__', '_construct_similarity_model'), LIN)(lambda k=_k, d=_d: created(k, d))
        unit(PID, 'parameters: ' + _t, F(_k, '_from_vector_inplace', '_as_vector', '_new_target_from_state',
                                         '_update_global_weights', 'weights', 'n_weights', 'target'), LIN)(
            lambda k=_k, d=_d: vector_set(k, d))
        unit(PID, 'target: ' + _t, F(_k, '_sync_state_from_target', '_weights_for_target', '_update_global_transform',
                                     '_target_setter'), LIN)(lambda k=_k, d=_d: target_set(k, d))
        unit(PID, 'active components: ' + _t, F(_k, 'n_active_components'), LIN)(lambda k=_k, d=_d: active(k, d))
        for _trim in (False, True):
            unit(PID, 'increment%s: %s' % (' and trim' if _trim else '', _t), F(_k, 'increment'), LIN, budget=400)(
                lambda k=_k, d=_d, t=_trim: incremented(k, d, t))


# ------------------------------------------------------- similarity components
def rotated(v, d=2):
    """(x, y) -> (-y, x) of every point of a vector"""
    p = v.reshape((-1, d))
    return T.transpose(T.stack(VList([-p[:, 1], p[:, 0]])))


def similarity_components():
    w = world()
    m = w.load(M)
    N = sint('n_points', 1)
    p = pts('mean', N, 2)
    fr = Frame(p=p)
    s = Shape(p, copy=False)
    sm = m.similarity_2d_instance_model(s)
    prove('four components', z3.And(zint(sm.n_components) == 4, zint(sm.components.shape[1]) == 2 * N.t))
    q = fresh('q', axes_of(4))
    a, b, x, y = (wrap(at(q, i)) for i in range(4))
    got = sm.instance(q)
    want = p + a * p + b * rotated(p.ravel()) + T.stack(VList([x, y]))
    prove_eq('instance: mean, scaled, rotated and moved', got.points, want)
    z = Shape(pts('z', N, 2))
    v = z.points - p
    pr = sm.project(z)
    dot = lambda u: (v * u).sum()
    for i, (name, u) in enumerate([('scale', p), ('rotation', rotated(p.ravel()))]):
        prove_eq('projection on ' + name, pr[i], dot(u))
    prove_eq('projection on the first coordinate', pr[2], v[:, 0].sum())
    prove_eq('projection on the second coordinate', pr[3], v[:, 1].sum())
    fr.check('mean unmodified')


unit(PID, 'similarity components', [M + ':similarity_2d_instance_model', M + ':_SimilarityModel.__init__',
                                    M + ':_SimilarityModel.project_vector', M + ':_SimilarityModel.instance_vector'],
     LIN)(similarity_components)


def similarity_only():
    w = world()
    m = w.load(M)
    N = sint('n_points', 3)
    mean = Shape(pts('mean', N, 2))
    asked = []
    w.stubs['menpo.shape'].mean_pointcloud = None
    m.align_shapes = lambda s: asked.append(s) or ('aligned', s)
    m.mean_pointcloud = lambda s: mean if s == ('aligned', 'data') else fail('the mean is that of the aligned shapes')
    keep = mean.points.copy()
    g = m.GlobalSimilarityModel('data')

    def check(what):
        A, t = g.transform.h
        prove_eq(what + ': the target is the mean, placed', g.target.points, T.dot(keep, A.T) + t)
        prove_eq(what + ': weights', g.weights, g.transform.q)
        prove_eq(what + ': parameters', g.as_vector(), g.transform.q)
        prove(what + ': four', zint(g.n_weights) == 4)
        prove_eq(what + ': mean', g.mean.points, keep)
    check('a new model')
    g.transform.q = fresh('q0', axes_of(4))
    g._target = g.transform.apply(g.mean)
    q = fresh('q', axes_of(4))
    g._from_vector_inplace(q)
    check('parameters set')
    prove_eq('reads back', g.as_vector(), q)
    y = pts('y', N, 2)
    g.set_target(Shape(y))
    check('target set')
    prove_eq('aligned with the target', g.transform.given, y)
    prove_eq('from the mean', g.transform.start, keep)


unit(PID, 'similarity only model', [M + ':GlobalSimilarityModel.' + f for f in (
    '__init__', 'n_weights', 'weights', 'target', 'set_target', '_as_vector', '_from_vector_inplace')], LIN)(similarity_only)


# --------------------------------------------------------------- warps
MD = 'menpofit.transform.modeldriven'


class Warp(object):
    """contract of a warp between landmarks (C08, menpo): a source and a target"""
    __vtrusted__ = 'warps between landmarks: set_target makes the warp the one from its source to that target'

    def __init__(self, source, target):
        self.source = source
        self.to(target)

    def to(self, target):
        self.target = target
        self.goes_to = target.points.copy()

    def set_target(self, t):
        self.to(t)

    def copy(self):
        r = object.__new__(type(self))
        r.__dict__.update(self.__dict__)
        return r

    def _apply(self, x, **k):
        return ('warped', x, self.goes_to)


BASE = 'menpo.transform.base'
WDEPS = [BASE, BASE + '.composable', BASE + '.invertible', BASE + '.alignment']


def mdworld():
    w = world(WDEPS)
    w.load(BASE)
    return w


MDCLS = {'plain': 'ModelDrivenTransform', 'similarity': 'GlobalMDTransform', 'affine': 'GlobalMDTransform',
         'ortho': 'OrthoMDTransform'}


def md_instance(kind, d):
    w = mdworld()
    md = w.load(MD)
    x, N, w = instance(kind, d, w)
    src = Shape(pts('src', N, d))
    t = getattr(md, MDCLS[kind])(x, Warp, source=src)
    return t, x, N, w, src


def md_agrees(t, kind, d, src, what):
    agrees(t.pdm, kind, d, what)
    prove_eq(what + ': parameters of the warp are those of its model', t.as_vector(), t.pdm.as_vector())
    prove_eq(what + ': targets agree', t.target.points, t.pdm.target.points)
    prove_eq(what + ': the warp goes to the target', t.transform.goes_to, t.target.points)
    prove(what + ': the warp keeps its source', t.transform.source is src or
          provable(tensor_eq(t.transform.source.points, src.points)))
    prove(what + ': number of parameters', zint(t.n_parameters) == zint(t.pdm.n_parameters))
    z = opq('x')
    r = t._apply(z)
    prove(what + ': applies the warp', r[0] == 'warped' and r[1] is z)
    prove_eq(what + ': applies the warp to the target', r[2], t.target.points)


def md_set(kind, d, op):
    t, x, N, w, src = md_instance(kind, d)
    if op == 'creation':
        md_agrees(t, kind, d, src, 'a new warp')
        return
    t.transform.to(x.target)
    if op == 'parameters':
        n, g = nparams(x, kind)
        p = fresh('p', axes_of(n))
        keep = p.copy()
        t._from_vector_inplace(p)
        p[...] = 1.0
        md_agrees(t, kind, d, src, 'set')
        prove_eq('reads back', t.as_vector(), keep)
        p2 = fresh('p2', axes_of(n))
        y = t.from_vector(p2)
        md_agrees(y, kind, d, src, 'from_vector')
        prove_eq('from_vector reads back', y.as_vector(), p2)
        md_agrees(t, kind, d, src, 'the original')
        prove_eq('the original keeps its parameters', t.as_vector(), keep)
    else:
        # contract of the model (proved above): synchronising with a target makes it agree
        asked = []

        def sync():
            asked.append(x.target.points.copy())
            scramble(x, kind, d)
        x._sync_state_from_target = sync
        y = pts('y', N, d)
        keep = y.copy()
        t.set_target(Shape(y, copy=False))
        md_agrees(t, kind, d, src, 'target set')
        prove('the model takes the target', len(asked) >= 1)
        prove_eq('the model takes the target given', asked[0], keep)
        prove_eq('target handed in unmodified', y, keep)


def md_inverse():
    t, x, N, w, src = md_instance('plain', 2)
    t.transform.to(x.target)
    p = t.as_vector().copy()
    i = t._build_pseudoinverse()
    prove_eq('the inverse has opposite parameters', i.as_vector(), -p)
    prove_eq('and so has the vector form', t.pseudoinverse_vector(p), -p)
    md_agrees(i, 'plain', 2, src, 'inverse')
    prove_eq('the original keeps its parameters', t.as_vector(), p)
    md_agrees(t, 'plain', 2, src, 'the original')
    prove('not a true inverse', t.has_true_inverse is False)


for _k in ('plain', 'similarity', 'affine', 'ortho'):
    for _op in ('creation', 'parameters', 'target'):
        unit(PID, 'warp driven by a model: %s, %s' % (_op, _k),
             [MD + ':ModelDrivenTransform.' + f for f in ('__init__', '_apply', 'target', '_target_setter',
                                                         '_sync_state_from_target', '_as_vector',
                                                         '_from_vector_inplace', 'n_parameters', 'n_dims')] +
             ([MD + ':%s.__init__' % MDCLS[_k]] if _k != 'plain' else []),
             LIN + [Warp.__vtrusted__], budget=300)(lambda k=_k, o=_op: md_set(k, 2, o))
unit(PID, 'warp driven by a model: inverse', [MD + ':ModelDrivenTransform._build_pseudoinverse',
                                               MD + ':ModelDrivenTransform.pseudoinverse_vector'],
     LIN + [Warp.__vtrusted__])(md_inverse)


def linear_warp(op):
    w = mdworld()
    md = w.load(MD)
    model, N = pca_model(w, 2)
    asked = []

    def pinv(A):
        P = fresh('pinv%d' % len(asked), [A.axes[1], A.axes[0]])
        asked.append((A.copy(), P.copy()))
        return P
    w.np.linalg.pinv = pinv
    n = sint('n_landmarks', 1)
    ctx().assume(n.t < zint(N))
    sparse = Shape(pts('sparse', n, 2))
    keep = sparse.points.copy()
    t = md.LinearOrthoMDTransform(model, sparse)
    if op != 'creation':
        scramble(t, 'ortho', 2)

    def check(what):
        agrees(t, 'ortho', 2, what)
        prove_eq(what + ': the sparse target is the first part', t.sparse_target.points, t.target.points[:n])
        prove_eq(what + ': the dense target is the rest', t.dense_target.points, t.target.points[n:])
        prove_eq(what + ': the warp places the dense points', t._apply(opq('x')), t.target.points[n:])
        prove(what + ': number of landmarks', zint(t.n_landmarks) == n.t)
        prove_eq(what + ': the sparse instance is unmodified', sparse.points, keep)
        prove_eq(what + ': basis', t.W, shim.np_vstack([t.similarity_model.components, t.model.components]))
        del asked[:]
        v = t.pinv_V
        prove_eq(what + ': inverse of the sparse part of the basis', asked[0][0], t.W[:, :2 * n])
        prove_eq(what + ': pinv', v, asked[0][1])
    if op == 'creation':
        check('a new warp')
    elif op == 'parameters':
        k, g = nparams(t, 'ortho')
        p = fresh('p', axes_of(k))
        keep_p = p.copy()
        t._from_vector_inplace(p)
        p[...] = 1.0
        check('set')
        prove_eq('reads back', t.as_vector(), keep_p)
    elif op == 'dense':
        y = pts('y', N, 2)
        t.set_target(Shape(y))
        check('dense target')
        after_target(t, 'ortho', 2, y)
    elif op == 'sparse':
        y = pts('y', n, 2)
        W = t.W.copy()
        t.set_target(Shape(y))
        P = asked[0][1]
        prove_eq('the basis of the sparse part', asked[0][0], W[:, :2 * n])
        z = T.dot(T.dot(y.ravel(), P), W).reshape((-1, 2))
        check('sparse target')
        after_target(t, 'ortho', 2, z)


for _op in ('creation', 'parameters', 'dense', 'sparse'):
    unit(PID, 'linear warp: ' + _op, [MD + ':LinearOrthoMDTransform.' + f for f in (
        '__init__', 'W', 'pinv_V', 'n_landmarks', 'dense_target', 'sparse_target', 'set_target', '_apply')],
         LIN + ['numpy.linalg.pinv: arbitrary result of the documented shape'], budget=300)(lambda o=_op: linear_warp(o))
