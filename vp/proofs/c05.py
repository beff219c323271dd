"""C05: fits are reported in the coordinates of the image the caller passed."""
from .common import *
from .c04 import olist, is_

PID = 'C05'
FI = 'menpofit.fitter'
AP = z3.Function('ap', V, V, V)          # transform, shape -> moved shape
INV = z3.Function('inv', V, V)
ONE = z3.Const('identity', V)
LM = z3.Function('landmarks_of', V, V, V)  # image, group -> shape
RESC = z3.Function('rescaled', V, REAL, V)
RTR = z3.Function('rescale_transform', V, REAL, V)   # rescaled image -> image
FEAT = z3.Function('features', V, V, V)
ALIGN = z3.Function('align_affine', V, V, V)


def zi(i):
    return i if z3.is_expr(i) else z3.IntVal(i)


def theory():
    a, x, im, g = z3.Const('th_a', V), z3.Const('th_x', V), z3.Const('th_im', V), z3.Const('th_g', V)
    s = z3.Real('th_s')
    c = ctx()
    A = c.axioms
    A.append(z3.ForAll([a, x], AP(INV(a), AP(a, x)) == x, patterns=[AP(INV(a), AP(a, x))]))
    A.append(z3.ForAll([a, x], AP(a, AP(INV(a), x)) == x, patterns=[AP(a, AP(INV(a), x))]))
    A.append(z3.ForAll([x], AP(ONE, x) == x, patterns=[AP(ONE, x)]))
    # landmarks move with the pixels: the transform of a rescale maps those of the result to those of the image
    A.append(z3.ForAll([im, s, g], AP(RTR(im, s), LM(RESC(im, s), g)) == LM(im, g), patterns=[LM(RESC(im, s), g)]))
    # rescaling by one changes nothing
    A.append(z3.ForAll([im], RESC(im, z3.RealVal(1)) == im))
    A.append(z3.ForAll([im], RTR(im, z3.RealVal(1)) == ONE))
    # the affine alignment of affinely related shapes is exact (see assumption)
    A.append(z3.ForAll([a, x], AP(ALIGN(a, x), a) == x, patterns=[ALIGN(a, x)]))


TR = ['menpo.transform: (a.compose_after(b)).apply is a.apply after b.apply, a.compose_before(b) is b after a, '
      'pseudoinverse inverts an invertible affine map, Scale(1) is the identity',
      'AlignmentAffine(s, t) maps s to t exactly when t is an affine image of s (three points not on a line)',
      'menpo.image: rescale moves landmarks with pixels and returns the transform back to the image it was called on; '
      'rescaling by 1 changes nothing; the landmark manager holds copies']


class Tf(object):
    __vatomic__ = True

    def __init__(self, t=None, word=None):
        self.word = word if word is not None else [t]     # applied right to left

    def apply(self, x):
        r = enc(x)
        for t in reversed(self.word):
            r = AP(t, r)
        return Opq(r)

    def compose_after(self, o):
        return Tf(word=self.word + o.word)

    def compose_before(self, o):
        return o.compose_after(self)

    def compose_after_inplace(self, o):
        self.word = self.word + o.word

    def compose_before_inplace(self, o):
        self.word = o.word + self.word

    def pseudoinverse(self, *a):
        return Tf(word=[INV(t) for t in reversed(self.word)])

    def copy(self):
        return Tf(word=list(self.word))

    def __enc__(self):
        if len(self.word) == 1:
            return self.word[0]
        raise Unsupported('a composition as a value')

    def __vsubst__(self, pairs):
        return Tf(word=[z3.substitute(t, *pairs) for t in self.word])

    def __vite__(self, c, b):
        if len(self.word) != len(b.word):
            raise Unsupported('choice of transforms')
        return Tf(word=[z3.If(c, s, t) for s, t in zip(self.word, b.word)])


def Scale(f, n_dims=None):
    if not provable(zreal(f) == 1):
        raise Unsupported('another scale')
    return Tf(ONE)


def AlignAffine(s, t):
    return Tf(ALIGN(enc(s), enc(t)))


class Feat(object):
    """a holistic feature function"""
    __vatomic__ = True

    def __init__(self, t):
        self.t = t

    def __call__(self, im):
        return FImg(FEAT(self.t, im.t))

    def __eq__(self, o):
        return wrap(self.t == o.t)

    def __ne__(self, o):
        return wrap(self.t != o.t)

    __hash__ = object.__hash__

    def __vsubst__(self, pairs):
        return Feat(z3.substitute(self.t, *pairs))

    def __vite__(self, c, b):
        return Feat(z3.If(c, self.t, b.t))


class FImg(object):
    """an image made during preparation; its landmarks move with its pixels"""
    __vatomic__ = True

    def __init__(self, t):
        self.t = t

    @property
    def landmarks(self):
        return self

    def __getitem__(self, g):
        return Opq(LM(self.t, enc(g)))

    def __setitem__(self, g, v):
        raise Unsupported('landmarks written on a working image')

    def rescale(self, s, round='ceil', order=1, return_transform=False):
        r = FImg(RESC(self.t, zreal(s)))
        return VTuple([r, Tf(RTR(self.t, zreal(s)))]) if return_transform else r

    def __enc__(self):
        return self.t

    def __vsubst__(self, pairs):
        return FImg(z3.substitute(self.t, *pairs))

    def __vite__(self, c, b):
        return FImg(z3.If(c, self.t, b.t))


class Manager(object):
    def __init__(self, im):
        self.im, self.d = im, {}

    def __setitem__(self, g, v):
        self.d[g] = Opq(enc(v))

    def __getitem__(self, g):
        return self.d[g] if g in self.d else Opq(LM(self.im.base, enc(g)))

    def __delitem__(self, g):
        del self.d[g]

    def __contains__(self, g):
        return g in self.d

    def keys(self):
        return list(self.d)

    def copy(self):
        m = Manager(self.im)
        m.d = dict(self.d)
        return m


class Caller(object):
    """the image of the caller: only its landmarks can change"""
    n_dims = 2

    def __init__(self):
        self.base = z3.Const('image', V)
        self.landmarks = Manager(self)
        self.n = 0

    def copy(self):
        c = Caller()
        c.landmarks = self.landmarks.copy()
        return c

    def rescale_to_pointcloud(self, pointcloud, group=None, round='ceil', order=1, return_transform=False):
        return self._resized(('to', enc(pointcloud), enc(self.landmarks[group])), return_transform)

    def rescale(self, s, round='ceil', order=1, return_transform=False):
        return self._resized(('by', enc(SReal(zreal(s)))), return_transform)

    def _resized(self, how, rt):
        if rt:
            raise Unsupported('transform of the rescale to the reference shape')
        t = app('resized_' + how[0], Opq(self.base), *[Opq(x) for x in how[1:]]).t
        m = z3.Const('R', V)
        ctx().extra['R'] = t
        # every landmark of the image, also those attached for the fit, moves by one affine map
        for g in self.landmarks.d:
            ctx().assume(LM(t, enc(g)) == AP(m, self.landmarks.d[g].t))
        return FImg(t)

    def __enc__(self):
        return self.base


def world(**r):
    return World(stubs={'menpo.transform': {'Scale': Scale, 'AlignmentAffine': AlignAffine,
                                            'AlignmentSimilarity': lambda *a, **k: app('align_sim', *a)},
                        'menpo.shape': {'PointCloud': object}}, replace=r)


F = z3.Function('feature', INT, V)
SC = z3.Function('scale', INT, REAL)
INI, GT = z3.Const('initial', V), z3.Const('ground_truth', V)


def fitter(m, n, cls='MultiScaleNonParametricFitter', algorithms=None):
    f = object.__new__(getattr(m, cls))
    getattr(m, cls).__init__(f, slist('scales', n, lambda i: SReal(SC(zi(i)))), opq('reference'),
                             slist('features', n, lambda i: Feat(F(zi(i)))), algorithms)
    return f


def work(i, R):
    """working image of scale i"""
    return RESC(FEAT(F(zi(i)), R), SC(zi(i)))


def aff(i, R):
    return ALIGN(LM(FEAT(F(zi(i)), R), enc('__initial_shape')), INI)


def sct(i, R):
    return RTR(FEAT(F(zi(i)), R), SC(zi(i)))


@unit(PID, 'working images', [FI + ':MultiScaleNonParametricFitter._prepare_image'], TR, budget=60)
def prepare():
    theory()
    m = world().load(FI)
    n = sint('n_scales', 1)
    f = fitter(m, n)
    im = Caller()
    ini = Opq(INI)
    gt = Opq(GT) if ctx().branch(z3.Bool('with_gt')) else None
    if gt is not None:
        gt = Truthy(gt)
    images, inis, gts, affs, scs = f._prepare_image(im, ini, gt_shape=gt)
    R = ctx().extra.get('R')
    if R is None:
        raise Unsupported('image not resized')
    prove('landmarks of the image as before', len(im.landmarks.d) == 0)
    prove('initial shape not modified', ini.t == INI)
    i = z3.Int('i')
    ctx().assume(z3.And(i >= 0, i < n.t))
    for nm, L in (('images', images), ('initial shapes', inis), ('affine transforms', affs), ('scale transforms', scs)):
        prove('one per scale: ' + nm, as_vlist(L).zlen() == n.t)
    images, inis, affs, scs = (as_vlist(x) for x in (images, inis, affs, scs))
    prove('image of the scale: its features, its factor', enc(images.at(i)) == work(i, R))
    prove('initial shape of the scale: the one moved with that image', enc(inis.at(i)) == LM(work(i, R), enc('__initial_shape')))
    back = affs.at(i).apply(scs.at(i).apply(inis.at(i)))
    prove('initial shape maps back to the given one', enc(back) == INI)
    prove('scale transform: from the working image to its features', enc(scs.at(i)) == sct(i, R))
    prove('affine transform: from the features of the scale to the image', enc(affs.at(i)) == aff(i, R))
    if gt is None:
        prove('no ground truth', gts is None)
    else:
        prove('ground truth not modified', gt.t == GT)
        g = as_vlist(gts)
        prove('one per scale: ground truth', g.zlen() == n.t)
        prove('ground truth of the scale: the one moved with that image', enc(g.at(i)) == LM(work(i, R), enc('__gt_shape')))


class Truthy(Opq):
    """a shape object is true"""
    def __bool__(self):
        return True

    def __init__(self, o):
        Opq.__init__(self, o.t)


class Alg(object):
    """algorithm of a scale: checked against what _fit must give it; may return any shape"""
    __vatomic__ = True

    def __init__(self, i, env):
        self.i, self.env = i, env

    def __vsubst__(self, pairs):
        return Alg(z3.substitute(self.i, *pairs), self.env)

    def __enc__(self):
        return z3.Function('Alg', INT, V)(self.i)

    def run(self, image, shape, gt_shape=None, max_iters=20, return_costs=False, **kw):
        e, i = self.env, self.i
        prove('the image of the scale', enc(image) == e['IM'](i))
        if e['gt']:
            prove('the ground truth of the scale', enc(gt_shape) == e['GTS'](i))
        else:
            prove('no ground truth', gt_shape is None)
        prove('the budget of the scale', zint(max_iters) == e['MI'](i))
        prove('costs as asked', is_(return_costs, e['rc']))
        prove('options passed on', sorted(kw) == ['option'] and enc(kw['option']) == enc(e['opt']))
        A, S = e['A'], e['S']
        here = AP(A(i), AP(S(i), enc(shape)))
        j = z3.simplify(i - 1)
        there = AP(A(j), AP(S(j), e['FIN'](j)))
        prove('first scale starts from the given shape', z3.Implies(i == 0, enc(shape) == INI))
        prove('later scales start where the previous one ended', z3.Implies(i > 0, here == there))
        return Res(i, e)


class Res(object):
    __vatomic__ = True

    def __init__(self, i, e):
        self.i, self.e = i, e

    @property
    def final_shape(self):
        return Opq(self.e['FIN'](self.i))

    def __enc__(self):
        return z3.Function('Res', INT, V)(self.i)

    def __vsubst__(self, pairs):
        return Res(z3.substitute(self.i, *pairs), self.e)


def ofun(name):
    return z3.Function(name, INT, V)


def fit(with_gt):
    theory()
    n = sint('n_scales', 1)
    A, S = ofun('affine'), ofun('scaletr')
    MI = z3.Function('budget', INT, INT)
    e = dict(IM=ofun('im'), GTS=ofun('gts'), MI=MI, FIN=ofun('final'), A=A, S=S, opt=opq('opt'), gt=with_gt,
             rc=wrap(z3.Bool('return_costs')))
    asked = []

    def budget(mi, k):
        asked.append((mi, k))
        return slist('budget', n, lambda i: SInt(MI(zi(i))))
    m = world(**{'menpofit.checks': {'check_max_iters': budget}}).load(FI)
    f = fitter(m, n, algorithms=slist('algs', n, lambda i: Alg(zi(i), e)))
    # precondition, what _prepare_image establishes (proved above): equal features have equal affine transforms,
    # with equal scales also equal scale transforms
    i = z3.Int('pi')
    ctx().axioms.append(z3.ForAll([i], z3.Implies(F(i) == F(i + 1), A(i) == A(i + 1)), patterns=[A(i + 1)]))
    ctx().axioms.append(z3.ForAll([i], z3.Implies(z3.And(F(i) == F(i + 1), SC(i) == SC(i + 1)), S(i) == S(i + 1)),
                                  patterns=[S(i + 1)]))
    ini = Opq(INI)
    im = slist('images', n, lambda i: FImg(e['IM'](zi(i))))
    gts = olist('gts', n) if with_gt else None
    mi = opq('max_iters')
    r = f._fit(images=im, initial_shape=ini, affine_transforms=slist('af', n, lambda i: Tf(A(zi(i)))),
               scale_transforms=slist('sc', n, lambda i: Tf(S(zi(i)))), gt_shapes=gts, max_iters=mi,
               return_costs=e['rc'], option=e['opt'])
    prove('budget from the given one', len(asked) == 1 and enc(asked[0][0]) == enc(mi) and
          provable(zint(asked[0][1]) == n.t))
    list_eq('one result per scale, in order', r, slist('res', n, lambda i: Res(zi(i), e)))
    prove('initial shape not modified', ini.t == INI)


for _g in (True, False):
    unit(PID, 'scales follow each other%s' % (' with ground truth' if _g else ''),
         [FI + ':MultiScaleNonParametricFitter._fit'],
         TR + ['an algorithm run may return any final shape in its working image (C06)',
               'contract of check_max_iters (C01)'], budget=200)(lambda g=_g: fit(g))


@unit(PID, 'fit from a shape', [FI + ':MultiScaleNonParametricFitter.' + x for x in
                                ('fit_from_shape', 'fit_from_bb', '_fitter_result')] +
      [FI + ':align_shape_with_bounding_box', FI + ':MultiScaleParametricFitter._fitter_result'],
      ['contracts of _prepare_image and _fit (proved above), of the multi-scale results (C04)'])
def glue():
    got = {}

    def rec(name):
        def f(**k):
            got[name] = k
            return name
        return f
    for cls, name in (('MultiScaleNonParametricFitter', 'MultiScaleNonParametricIterativeResult'),
                      ('MultiScaleParametricFitter', 'MultiScaleParametricIterativeResult')):
        w = world(**{'menpofit.result': {'MultiScaleNonParametricIterativeResult': rec('MultiScaleNonParametricIterativeResult'),
                                         'MultiScaleParametricIterativeResult': rec('MultiScaleParametricIterativeResult')}})
        m = w.load(FI)
        n = sint('n_scales', 1)
        f = fitter(m, n, cls)
        P = {k: opq(k) for k in ('images', 'gts', 'affs', 'scs')}
        inis = olist('inis', n)

        def prep(image, initial_shape, gt_shape=None):
            got['prep'] = (image, initial_shape, gt_shape)
            return P['images'], inis, P['gts'], P['affs'], P['scs']

        def _fit(images, initial_shape, affine_transforms, scale_transforms, gt_shapes=None, max_iters=20,
                 return_costs=False, **k):
            got['fit'] = dict(images=images, initial_shape=initial_shape, affs=affine_transforms, scs=scale_transforms,
                              gts=gt_shapes, mi=max_iters, rc=return_costs, kw=k)
            return opq('results')
        f._prepare_image, f._fit = prep, _fit
        im, ini, gt, mi, rc, bb = opq('im'), opq('ini'), opq('gt'), opq('mi'), opq('rc'), opq('bb')

        def check(start):
            a, b, c = got['prep']
            prove('prepares the given image', z3.And(enc(a) == enc(im), enc(c) == enc(gt)))
            prove('prepares the initial shape', enc(b) == start)
            k = got['fit']
            prove('fits what was prepared', z3.And(*[enc(k[x]) == enc(P[x]) for x in ('images', 'affs', 'scs', 'gts')]))
            prove('starts from the initial shape of the first scale', enc(k['initial_shape']) == enc(inis.at(0)))
            prove('options passed on', z3.And(enc(k['mi']) == enc(mi), enc(k['rc']) == enc(rc)))
            prove('other options passed on', sorted(k['kw']) == ['other'] and enc(k['kw']['other']) == enc('o'))
            q = got[name]
            prove('result of the own kind', r == name)
            prove('reported with the transforms of the fit', z3.And(enc(q['affine_transforms']) == enc(P['affs']),
                                                                   enc(q['scale_transforms']) == enc(P['scs'])))
            prove('results of the fit', enc(q['results']) == enc(opq('results')))
            prove('the given image and ground truth', z3.And(enc(q['image']) == enc(im), enc(q['gt_shape']) == enc(gt)))
            prove('own scales', q['scales'] is f.scales)
        r = f.fit_from_shape(im, ini, max_iters=mi, gt_shape=gt, return_costs=rc, other='o')
        check(enc(opq('ini')))
        got.clear()
        r = f.fit_from_bb(im, bb, max_iters=mi, gt_shape=gt, return_costs=rc, other='o')
        ref = opq('reference')
        al = app('align_sim', app('m_bounding_box', ref), bb)
        check(enc(al.apply(ref)))
