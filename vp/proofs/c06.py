"""C06 and C07: the iterative algorithms, run against history-indexed contracts."""
from .fits import *

PID = 'C06'
LK = 'menpofit.aam.algorithm.lk'


class Setup(object):
    pass


def lkworld():
    return World(stubs={'menpo.feature': {'no_op': lambda x: x, 'gradient': None},
                        'menpo.image': {'Image': object}})


def aam(name, upd=True, ap=True, mp=None):
    """an algorithm and what it works with"""
    bridge.enable()
    w = lkworld()
    M = w.load(LK)
    cls = getattr(M, name)
    n, N, nm, m, k = sint('n', 3), sint('N', 8), sint('nm', 8), sint('m', 1), sint('k', 1)
    np_ = wrap(k.t + 4)
    ctx().assume(nm.t >= np_.t + m.t)
    ctx().assume(nm.t <= N.t)
    I = Interface(M.LucasKanadeStandardInterface, n, np_, N, nm, m=m, shape_model=ShapeModel(k))
    I.image = opq('image')
    am = I.appearance_model
    am.restart()
    s = I.transform
    A = T.transpose(am.components, (1, 0))[I.i_mask, :]
    Q = Qm = None
    if hasattr(cls, 'project_out'):
        Q, Qm = projection(cls, A, nm)
    alg = cls(I, eps=sreal('eps'))
    FC = name.endswith('ForwardCompositional')
    abar = I.mask(vec(am.mean_f, [], N))
    mi = sint('max_iters')
    s2 = am.noise_variance() / (I.shape_model.noise_variance() or 1)
    L = map_prior(zreal(s2), I.shape_model.eigenvalues, k)
    S = s2 / am.eigenvalues
    e = Setup()
    e.__dict__.update(locals())
    return e


def run(e, **k):
    ini = SPointCloud(fresh('x0', axes_of(e.n, 2)))
    gt = opq('gt')
    e.given = []
    e.s.on_start = e.given.append
    out = e.alg.run(e.I.image, ini, gt_shape=gt, max_iters=e.mi, **k)
    e.ini, e.gt = ini, gt
    return out.kw


def common(e, kw):
    s = e.s
    prove('the fit starts from the given shape', len(e.given) == 1 and e.given[0] is e.ini)
    cnt = z3.simplify(zint(as_vlist(kw['shapes']).zlen()))
    prove('at least the starting shape', cnt >= 1)
    history('shapes', kw['shapes'], cnt, lambda j: s.points(s.start.t + j))
    history('shape parameters', kw['shape_parameters'], cnt, lambda j: s.params(s.start.t + j))
    prove('the last shape is where the algorithm ended', zint(s.c) == s.start.t + cnt - 1)
    prove('iterations within the budget', cnt - 1 <= z3.If(zint(e.mi) > 0, zint(e.mi), 0))
    last = s.start.t + cnt - 1
    d = shim.np_norm(s.points(last) - s.points(last - 1))
    prove('stops early only when the shape did not change', z3.Implies(
        cnt - 1 < zint(e.mi), z3.And(cnt >= 2, val(d) <= zreal(e.alg.eps))))
    prove('image passed on', kw['image'] is e.I.image)
    prove('initial shape passed on', kw['initial_shape'] is e.ini)
    prove('ground truth passed on', kw['gt_shape'] is e.gt)
    return cnt


def aam_run(name):
    e = aam(name)
    rc = ctx().branch(z3.Bool('return_costs'))
    mp = sbool('map_inference')
    kw = run(e, return_costs=rc, map_inference=mp)
    cnt = common(e, kw)
    s, am, I = e.s, e.am, e.I
    c0, a0 = s.start.t, am.start.t
    if name.startswith('ProjectOut'):
        prove('no parameters of appearance', kw.get('appearance_parameters') is None)
    else:
        history('parameters of appearance', kw['appearance_parameters'], cnt, lambda j: am.weights(a0 + j))
    if not rc:
        prove('no costs unless asked for', kw['costs'] is None)
        return

    def cost(j):
        i = I.mask(I.warped(c0 + j).as_vector())
        if e.Q is not None:
            er = i - e.abar
            return er.dot(e.Q.dot(er))
        er = i - I.mask(am.inst(a0 + j).as_vector())
        return er.dot(er)
    history('costs', kw['costs'], cnt, cost)


AAM_ALGS = [a + b for a in ('ProjectOut', 'Simultaneous', 'Alternating', 'ModifiedAlternating', 'Wiberg')
            for b in ('ForwardCompositional', 'InverseCompositional')]
for _n in AAM_ALGS:
    unit(PID, 'history of %s' % _n, ['%s:%s.run' % (LK, _n.replace('ForwardCompositional', '').replace('InverseCompositional', '')),
                                     '%s:%s._update_warp' % (LK, _n)], budget=200)(lambda _n=_n: aam_run(_n))


# --- template fits ---------------------------------------------------------
ATM = 'menpofit.atm.algorithm'


def atm(name):
    bridge.enable()
    w = lkworld()
    M = w.load(ATM)
    n, N, nm, k = sint('n', 3), sint('N', 8), sint('nm', 8), sint('k', 1)
    np_ = wrap(k.t + 4)
    ctx().assume(nm.t >= np_.t)
    ctx().assume(nm.t <= N.t)
    I = Interface(w.load(LK).LucasKanadeBaseInterface, n, np_, N, nm, shape_model=ShapeModel(k))
    I.image = opq('image')
    s = I.transform
    alg = getattr(M, name)(I, eps=sreal('eps'))
    tm = I.mask(I.template.as_vector())
    mi = sint('max_iters')
    s2 = 1.0 / (I.shape_model.noise_variance() or 1)
    L = map_prior(zreal(s2), I.shape_model.eigenvalues, k)
    e = Setup()
    e.__dict__.update(locals())
    return e


def atm_run(name):
    e = atm(name)
    rc = ctx().branch(z3.Bool('return_costs'))
    kw = run(e, return_costs=rc, map_inference=sbool('map_inference'))
    cnt = common(e, kw)
    c0 = e.s.start.t
    if not rc:
        prove('no costs unless asked for', kw['costs'] is None)
        return

    def cost(j):
        er = e.I.mask(e.I.warped(c0 + j).as_vector()) - e.tm
        return er.dot(er)
    history('costs', kw['costs'], cnt, cost)


for _n in ('ForwardCompositional', 'InverseCompositional'):
    unit(PID, 'history of template %s' % _n, [ATM + ':Compositional.run', ATM + ':%s._update_warp' % _n],
         budget=200)(lambda _n=_n: atm_run(_n))


# --- constrained local models ----------------------------------------------
GD = 'menpofit.clm.algorithm.gd'
CLM_ALGS = ('ActiveShapeModel', 'RegularisedLandmarkMeanShift')


class Density(object):
    """scipy's multivariate normal: a function of the coordinates"""
    __vtrusted__ = ('scipy multivariate_normal.pdf: a function of the two coordinates of each point, '
                    'axes of length one removed (search windows of at least 2 x 2)')

    def __init__(self, mean=None, cov=None):
        self.f = z3.Function('density', REAL, REAL, REAL)

    def pdf(self, x):
        x = T.as_tensor(x)
        e = x.frozen()
        r = STensor(x.axes[:-1], lambda i: self.f(*[zreal(wrap(e(list(i) + [(z3.IntVal(c),)]))) for c in range(2)]), 'r')
        return r.squeeze()


class Experts(object):
    __vtrusted__ = 'expert ensembles: one map of responses per landmark, a function of the image and the landmarks (C13)'

    def __init__(self, e, h, w):
        self.e, self.search_shape = e, VTuple([h, w])
        self.h, self.w = h, w
        self.R = fun('response', 4)

    def predict_probability(self, image, target):
        e = self.e
        prove('the image fitted is the given image', z3.BoolVal(image is e.image))
        prove('responses at the current shape', T.tensor_eq(target.points, e.s.points(e.s.c)))
        return self.responses(zint(e.s.c))

    def responses(self, c):
        c = zi_(c)
        return STensor([(zi_(self.e.n),), (1,), (zi_(self.h),), (zi_(self.w),)],
                       lambda i: self.R(c, i[0][0], i[2][0], i[3][0]), 'r')


def grid(h, w):
    """the offsets of a search window, its centre at zero"""
    return STensor([(zi_(h),), (zi_(w),), (2,)], lambda i: z3.If(
        i[2][0] == 0, i[0][0] - zi_(h) / 2, i[1][0] - zi_(w) / 2), 'i')


def gd(name):
    bridge.enable()
    w = World(stubs={'menpofit.base': {'build_grid': lambda s: grid(*s)},
                     'menpofit.fitter': {'raise_costs_warning': lambda c: None},
                     'menpofit.result': {'ParametricIterativeResult': Result},
                     'scipy.stats': {'multivariate_normal': Density}})
    M = w.load(GD)
    n, k = sint('n', 3), sint('k', 1)
    np_ = wrap(k.t + 4)
    h, wd = sint('h', 2), sint('w', 2)
    ctx().assume(2 * n.t >= np_.t)
    e = Setup()
    s = State(n, np_)
    e.n, e.s, e.k, e.np_ = n, s, k, np_
    s.model = ShapeModel(k)
    dX = fresh('dX', [(n.t,), (np_.t,), (2,)])
    s.d_dp = lambda p: dX.copy()
    image = opq('image')
    ex = Experts(e, h, wd)
    alg = getattr(M, name)(ex, s, eps=sreal('eps'))
    mi = sint('max_iters')
    L = map_prior(zreal(s.model.noise_variance()), s.model.eigenvalues, k, 0)
    I = Setup()
    I.image = image
    e.__dict__.update({a: b for a, b in locals().items() if a != 'e'})
    return e


def gd_run(name):
    e = gd(name)
    kw = run(e, return_costs=sbool('return_costs'), map_inference=sbool('map_inference'))
    common(e, kw)


for _n in CLM_ALGS:
    unit(PID, 'history of %s' % _n, [GD + ':%s.run' % _n], [Density.__vtrusted__, Experts.__vtrusted__],
         budget=200)(lambda _n=_n: gd_run(_n))


# --- image alignment -------------------------------------------------------
LKI = 'menpofit.lk.algorithm'


class LKState(State):
    """parametric transform of image alignment"""

    def d_dp(self, p):
        prove('derivative at the pixels of the template', p is self.e.idx)
        return self.e.dW(self.c)

    def from_vector_inplace(self, v):
        self.update(v)

    def compose_after_from_vector_inplace(self, v):
        self.composed(v)
        self.c = wrap(z3.simplify(zint(self.c) + 1))

    def pseudoinverse_vector(self, v):
        return self.e.pseudo(v)


class LKResidual(object):
    __vtrusted__ = ('residuals: steepest descent images, Hessian, update and cost are functions of the images, '
                    'the derivative of the warp and the shape (C15)')

    def __init__(self, e):
        self.e = e
        self.at = None

    def steepest_descent_images(self, image, dW, forward=None):
        e, s = self.e, self.e.s
        if forward is not None:
            prove('gradient of the image, warped', z3.BoolVal(image is e.image and len(forward) == 2 and
                                                              forward[0] is e.template and forward[1] is s))
            c = s.c
        elif image is e.template:
            c = None
        else:
            prove('steepest descent images of the warped image', z3.And(z3.BoolVal(isinstance(image, Im)), image.args[0] == zint(s.c)))
            c = s.c
        prove_eq('derivative of the warp, pixel by pixel', dW, e.dW_images(s.c if e.additive else e.c_pre))
        # of which iteration these are
        return e.handle('F', c), e.handle('J', c)

    def hessian(self, sdi, sdi2=None):
        prove('Hessian of the steepest descent images', z3.BoolVal(sdi2 is not None and sdi[0] == 'F' and sdi2[0] == 'J')
              if not isinstance(sdi2, STensor) else z3.BoolVal(False))
        self.e.same_iteration(sdi, sdi2)
        return self.e.Ht(sdi[1])

    def steepest_descent_update(self, sdi, image, template):
        e = self.e
        prove('update with the filtered images', sdi[0] == 'F')
        e.current(sdi)
        prove('warped image minus the template', z3.And(z3.BoolVal(isinstance(image, Im) and template is e.template),
                                                        image.args[0] == zint(e.s.c)))
        self.at = zint(e.s.c)
        return e.bt(e.s.c)

    def cost_closure(self):
        return wrap(self.e.cost(self.at)) if z3.is_expr(self.at) else fail('cost', 'before any update')


def lk(name):
    bridge.enable()
    w = World(stubs={'scipy.linalg': {'norm': shim.np_norm},
                     LKI.rsplit('.', 1)[0] + '.result': {'LucasKanadeAlgorithmResult': Result}})
    M = w.load(LKI)
    n, k = sint('n', 3), sint('k', 1)
    h, wd = sint('h', 1), sint('w', 1)
    e = Setup()
    s = LKState(n, k)
    s.e = e
    e.w, e.n, e.s, e.k, e.h, e.wd, e.name = w, n, s, k, h, wd, name
    e.additive = name == 'ForwardAdditive'
    e.idx = fresh('idx', [(zi_(h), zi_(wd)), (2,)])
    D = fun('dW', 4)

    def dW(c):
        c = zi(zint(c))
        return STensor([(zi_(h), zi_(wd)), (zi_(k),), (2,)], lambda i: D(c, i[0][0] * zi_(wd) + i[0][1], i[1][0], i[2][0]), 'r')

    def dW_images(c):
        c = zi(zint(c))
        return STensor([(2,), (zi_(h),), (zi_(wd),), (zi_(k),)],
                       lambda i: D(c, i[1][0] * zi_(wd) + i[2][0], i[3][0], i[0][0]), 'r')
    e.dW, e.dW_images = dW, dW_images
    image = opq('image')

    class Template(object):
        mask = opq('mask')
        shape = (h, wd)

        def indices(self):
            return e.idx

        def as_vector(self):
            raise Unsupported('pixels of the template')
    e.template = Template()
    W = fun('warped', 2)

    class Image(object):
        def warp_to_mask(self, mask, transform, warp_landmarks=True):
            prove('warped onto the template at the current shape', z3.BoolVal(mask is e.template.mask and transform is s and
                                                                             warp_landmarks is False))
            return Im(W, [zint(s.c)], sint('N', 1), 'warped')
    e.image = Image()
    Hf, bf, bt = fun('H', 3), fun('H0', 2), fun('b', 2)

    def Ht(c):
        f = (lambda i: bf(i[0][0], i[1][0])) if c is None else (lambda i: Hf(zint(c), i[0][0], i[1][0]))
        return STensor([(zi_(k),), (zi_(k),)], f, 'r')
    e.Ht = Ht
    e.bt = lambda c: vec(bt, [zint(c)], k)
    e.cost = z3.Function('cost', INT, REAL)
    # of an iteration the residual gives opaque arrays
    e.handle = lambda kind, c: Handle(kind, c)

    def same_iteration(a, b):
        e.current(a), e.current(b)

    def current(a):
        if e.pre:
            prove('precomputed from the template', a[1] is None)
        else:
            prove('of this iteration', z3.BoolVal(False) if a[1] is None else zint(a[1]) == zint(s.c))
    e.same_iteration, e.current = same_iteration, current
    e.pre = name == 'InverseCompositional'
    e.c_pre = s.c
    # the solution of the system of state c
    Sf, pi = fun('dp', 2), fun('inv', 2)
    e.dp = lambda c: vec(Sf, [zint(c)], k)
    e.inv = lambda c: vec(pi, [zint(c)], k)

    def solve(H, b):
        prove_eq('solves the system of the iteration: matrix', H, Ht(None if e.pre else s.c))
        prove_eq('solves the system of the iteration: right hand side', b, e.bt(s.c))
        return e.dp(s.c)
    w.np.linalg.solve = solve

    def pseudo(v):
        prove_eq('inverse of the update', v, e.dp(s.c))
        return e.inv(s.c)
    e.pseudo = pseudo

    def composed(v):
        prove_eq('composed with the update', v, e.inv(s.c) if e.pre else -e.dp(s.c))
    s.composed = composed
    s.hook = lambda v: prove_eq('added to the parameters', v, s.params(s.c) - e.dp(s.c))
    e.alg = getattr(M, name)(e.template, s, LKResidual(e), eps=sreal('eps'))
    e.mi = sint('max_iters')
    e.I = Setup()
    e.I.image = e.image
    return e


class Handle(object):
    """an array of the residual"""
    __vleaf__ = True

    def __init__(self, kind, c):
        self.v = (kind, c)

    def __getitem__(self, i):
        return self.v[i]


def lk_run(name):
    e = lk(name)
    s = e.s
    rc = ctx().branch(z3.Bool('return_costs'))
    kw = run(e, return_costs=rc)
    prove('the fit starts from the given shape', len(e.given) == 1 and e.given[0] is e.ini)
    cnt = z3.simplify(zint(as_vlist(kw['shapes']).zlen()))
    c0 = s.start.t
    history('shapes', kw['shapes'], cnt, lambda j: s.points(c0 + j))
    history('parameters', kw['homogeneous_parameters'], cnt, lambda j: s.params(c0 + j))
    prove('the last shape is where the algorithm ended', zint(s.c) == c0 + cnt - 1)
    prove('iterations within the budget', z3.And(cnt >= 1, cnt - 1 <= z3.If(zint(e.mi) > 0, zint(e.mi), 0)))
    d = shim.np_norm(e.dp(c0 + cnt - 2))
    prove('stops early only when the parameters did not change', z3.Implies(
        cnt - 1 < zint(e.mi), z3.And(cnt >= 2, val(d) <= zreal(e.alg.eps))))
    prove('image, starting shape and ground truth passed on',
          z3.BoolVal(kw['image'] is e.image and kw['initial_shape'] is e.ini and kw['gt_shape'] is e.gt))
    if not rc:
        prove('no costs unless asked for', kw['costs'] is None)
    else:
        history('costs, at the start of each iteration', kw['costs'], cnt - 1, lambda j: wrap(e.cost(c0 + j)))


for _n in ('ForwardAdditive', 'ForwardCompositional', 'InverseCompositional'):
    unit(PID, 'history of image %s' % _n, ['%s:%s' % (LKI, _n)], [LKResidual.__vtrusted__],
         budget=200)(lambda _n=_n: lk_run(_n))
