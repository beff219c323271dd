"""Contracts of what the iterative fitting algorithms work with, for C06, C07.

Everything that changes during a fit is named by how often it has been set: the
state of the transform after j updates has parameters P(c0+j) and points X(c0+j),
the image warped there has the pixels I(c0+j), the j-th appearance instance has
weights C(a0+j) and pixels A(a0+j).  These are arbitrary functions, so whatever is
proved holds for every sequence of values."""
from .common import *
from .algs import Result
from ..engine import ring, bridge
from ..engine.tensor import STensor
from ..engine.ring import Mat


def vec(f, args, n, name=None):
    """the vector i -> f(*args, i)"""
    args = [a.t if isinstance(a, SInt) else zi(a) for a in args]
    r = STensor([(zi_(n),)], lambda idx: f(*(args + [idx[0][0]])), 'r')
    r.name = name
    return r


def zi(x):
    return x if z3.is_expr(x) else z3.IntVal(int(x))


def zi_(n):
    return n.t if isinstance(n, SInt) else n


def fun(name, k):
    return z3.Function(name, *([INT] * k + [REAL]))


def name_as(v, t):
    """v is known by the name t from now on"""
    if isinstance(v, (Mat, STensor)):
        if '_deft' not in v.__dict__:
            v._deft = (v.version(), t)
    return v


class State(object):
    """the transform of an algorithm"""
    __vtrusted__ = 'the transform of an algorithm: target generated by the parameters, as_vector reads them back (C09)'

    def __init__(self, n, np_, name='s', dim=2):
        self.n, self.np_ = n, np_
        self.c = sint(name + '_c', 0)
        self.X, self.P = fun('pos_' + name, 3), fun('par_' + name, 2)
        self.hook = None
        self.start = None

    n_parameters = property(lambda s: s.np_)
    n_dims = 2

    def points(self, c):
        c = zi(zint(c))
        return STensor([(zi_(self.n),), (2,)], lambda idx: self.X(c, idx[0][0], idx[1][0]), 'r')

    @property
    def target(self):
        return SPointCloud(self.points(self.c))

    def params(self, c):
        return vec(self.P, [c], self.np_, 'p')

    def as_vector(self):
        return self.params(self.c)

    def set_target(self, t):
        if self.start is not None and provable(T.tensor_eq(t.points, self.points(self.c))):
            return
        self.c = wrap(z3.simplify(zint(self.c) + 1))
        self.start = self.c
        self.given = t
        if self.on_start is not None:
            self.on_start(t)
    on_start = None

    def k(self):
        """updates since the start"""
        return z3.simplify(zint(self.c) - zint(self.start))

    def update(self, v):
        if self.hook is not None:
            self.hook(v)
        self.c = wrap(z3.simplify(zint(self.c) + 1))
        name_as(v, self.params(self.c))
        if isinstance(v, STensor):
            i = z3.Int('pi!')
            c = self.c.t
            e = v.frozen()
            ctx().assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < zi(zi_(self.np_))), self.P(c, i) == zreal(wrap(e([(i,)])))),
                                   patterns=[self.P(c, i)]))
    _from_vector_inplace = from_vector_inplace = update


class Im(object):
    """an image whose pixels are f(*args, .)"""
    __vframe__ = ('f', 'n')
    __vleaf__ = True

    def __init__(self, f, args, n, kind):
        self.f, self.args, self.n, self.kind = f, list(args), n, kind

    def as_vector(self, **k):
        return vec(self.f, self.args, self.n)

    @property
    def pixels(self):
        return self.as_vector()

    def from_vector(self, v):
        return self.owner.from_vector(v)

    def __veq__(self, o):
        if self.kind != o.kind or len(self.args) != len(o.args):
            return z3.BoolVal(False)
        return z3.And(*[zint(a) == zint(b) for a, b in zip(self.args, o.args)]) if self.args else z3.BoolVal(True)


class Grad(object):
    def __init__(self, im, sign=1):
        self.im, self.sign = im, sign

    def __neg__(self):
        return Grad(self.im, -self.sign)


class Jac(STensor):
    """steepest descent images; their products with parameter updates get a name"""
    def dot(self, o):
        r = STensor.dot(self, o)
        if isinstance(o, Mat) and o.vec and self.nameof is not None:
            if self.check is not None:
                self.check(self, o)
            name_as(r, self.nameof())
        return r
    nameof = check = None


class Appearance(object):
    __vtrusted__ = 'menpo PCAModel: instance(c) = mean + components^T c'

    def __init__(self, N, m, IM):
        self.N, self.m = N, m
        self.a = sint('a_c', 0)
        self.A, self.C = fun('inst', 2), fun('weights', 2)
        self.components = fresh('U', axes_of(m, N))
        self.eigenvalues = fresh('S', axes_of(m))
        self.mean_f = fun('mean', 1)
        self.start = None
        self.hook = None

    n_active_components = property(lambda s: s.m)

    def noise_variance(self):
        return sreal('app_noise')

    def inverse_noise_variance(self):
        return sreal('app_inv_noise')

    def mean(self):
        return Im(self.mean_f, [], self.N, 'mean')

    def restart(self):
        self.start = wrap(z3.simplify(zint(self.a) + 1))

    def j(self):
        return z3.simplify(zint(self.a) + 1 - zint(self.start))

    def weights(self, a):
        return vec(self.C, [a], self.m, 'c')

    def inst(self, a):
        return Im(self.A, [a], self.N, 'inst')

    def instance(self, c):
        if self.hook is not None:
            self.hook(c, self.j())
        self.a = wrap(z3.simplify(zint(self.a) + 1))
        name_as(c, self.weights(self.a))
        return self.inst(self.a)


class Interface(object):
    """what an algorithm's interface promises (C15 for the images and the solvers
    it inherits from the real class)"""

    def __init__(self, cls, n, np_, N, nm, m=None, shape_model=None):
        self.cls = cls
        self.transform = State(n, np_)
        self.np_, self.N, self.nm = np_, N, nm
        im = z3.Function('sel', INT, INT)
        self.i_mask = STensor([(nm.t,)], lambda idx: im(idx[0][0]), 'i')
        j = z3.Int('selj!')
        ctx().assume(z3.ForAll([j], z3.And(im(j) >= 0, im(j) < N.t), patterns=[im(j)]))
        self.W = fun('warped', 2)
        self.template = Im(fun('template', 1), [], N, 'template')
        self.shape_model = shape_model
        if m is not None:
            self.appearance_model = Appearance(N, m, self.i_mask)
        self.dw = fresh('dW', axes_of(2, nm, np_))
        self.JF = {}
        self.im_key = sint('im_c', 0)
        self.results = []

    n = property(lambda s: s.np_)

    @property
    def m(self):
        return self.appearance_model.m

    def warp_jacobian(self):
        return self.dw.copy()

    def warp(self, image):
        prove('the image fitted is the given image', z3.BoolVal(image is self.image))
        return self.warped(self.transform.c)

    def warped(self, c):
        return Im(self.W, [c], self.N, 'warped')

    def gradient(self, im):
        if not isinstance(im, Im):
            raise Unsupported('gradient of %r' % (im,))
        return Grad(im)

    on_jdp = None

    def sdi(self, im, sign):
        k = len(im.args)
        f = self.JF.setdefault((im.kind, k), fun('J_' + im.kind, k + 2))
        args = [zint(a) for a in im.args]

        def elem(idx):
            v = f(*(args + [idx[0][0], idx[1][0]]))
            return v if sign == 1 else -v
        r = Jac([(self.nm.t,), (zi_(self.np_),)], elem, 'r')
        r.name = 'J'
        return r

    def steepest_descent_images(self, nabla, dw):
        if dw is not self.dw:
            prove('derivative of the warp', T.tensor_eq(dw, self.dw))
        r = self.sdi(nabla.im, nabla.sign)
        f = fun('Jdp', 2)
        r.check = self.on_jdp
        r.nameof = lambda: vec(f, [self.transform.c], self.nm, 'Jdp')
        return r

    def algorithm_result(self, **k):
        return Result(**k)

    def mask(self, t):
        return t[self.i_mask]

    def __getattr__(self, k):
        if k.startswith('__') or 'cls' not in self.__dict__:
            raise AttributeError(k)
        if k in ('solve_shape_map', 'solve_shape_ml', 'solve_all_map', 'solve_all_ml'):
            a = getattr(self.cls, k)
            return a.__get__(self) if not isinstance(self.cls.__dict__.get(k), classmethod) and not hasattr(a, '__self__') else a
        raise Unsupported('interface.%s' % k)


def projection(alg_cls, A, nm):
    """contract of project_out: multiplication by I - A pinv(A) (proved in its own unit)"""
    Am = bridge.mat(A)
    Qm = ring.identity(Am.shape[0]) - Am.dot(ring.pinv(Am))
    Q = fresh('Q', axes_of(nm, nm))
    bridge.mean(Q, Qm)

    def project_out(self, J):
        return Q.dot(J)
    alg_cls.project_out = project_out
    return Q, Qm


def hcat(*ts):
    return shim.np_hstack(list(ts))


def diagm(v):
    return shim.np_diag(v)


class ShapeModel(object):
    def __init__(self, k):
        self.k = k
        self.eigenvalues = fresh('eig', axes_of(k))

    def noise_variance(self):
        return sreal('shape_noise')

    def inverse_noise_variance(self):
        return sreal('shape_inv_noise')


def map_prior(num, eig, k, sim=1):
    """prior precisions: similarity, then the shape components"""
    e = eig.frozen()
    return STensor([(z3.simplify(k.t + 4),)], lambda idx: z3.If(idx[0][0] < 4, z3.RealVal(sim), rdiv(
        num, zreal(wrap(e([(idx[0][0] - 4,)]))))), 'r')


def history(name, got, count, want):
    """got has count elements, the j-th is want(j)"""
    if got is None:
        fail(name, 'nothing recorded')
        return
    got = as_vlist(got)
    prove(name + ': one per iterate', got.zlen() == count)
    j = z3.Int(ctx().fresh('hist'))
    ctx().assume(z3.And(j >= 0, j < count))
    x = loops.deft(got.at(j))
    w = want(j)
    if isinstance(x, SPointCloud):
        x = x.points
    prove(name + ' of each iterate', equal_values(x, w))


DIMS = dict(n=5, k=2, m=3, nm=14, N=20)
