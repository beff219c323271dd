"""C04: a fitting result reports one coherent history of the fit."""
from .common import *
from ..engine.seq import Cat, isum

PID = 'C04'
M = 'menpofit.result'


class SImage(object):
    """contract of menpo.image.Image: a copy of the pixels it is given"""
    __vtrusted__ = 'menpo.image.Image(pixels) holds a copy of the pixels'

    def __init__(self, pixels, copy=True):
        self.pixels = pixels.copy() if copy else pixels


class Transform(object):
    """contract of menpo.transform: apply returns the moved shape, its argument untouched"""
    __vatomic__ = True

    def __init__(self, t):
        self.t = t

    def __enc__(self):
        return self.t

    def __vite__(self, c, b):
        return Transform(z3.If(c, self.t, b.t))

    def __vsubst__(self, pairs):
        return Transform(z3.substitute(self.t, *pairs))

    def apply(self, x):
        return app('apply', self, x)


def bb_error(a, b):
    return app_real('bb_error', a, b)


def my_error(a, b):
    return app_real('my_error', a, b)


def world(mods=()):
    return World(stubs={'menpo.image': {'Image': SImage}, 'menpofit.error': {'euclidean_bb_normalised_error': bb_error}})


def mod(name=M):
    return world().load(name)


def olist(name, n):
    f = z3.Function(name, INT, V)
    return slist(name, n, lambda i: Opq(f(i)))


def rlist(name, n):
    f = z3.Function(name, INT, REAL)
    return slist(name, n, lambda i: SReal(f(i)))


def opt(name):
    """None or a shape"""
    return None if ctx().branch(z3.Bool('no_' + name)) else opq(name)


def img():
    return SImage(fresh('pixels', axes_of(sint('ch', 1), sint('hh', 1), sint('ww', 1))), copy=False)


def is_(a, b):
    if a is None or b is None:
        return a is b
    return equal_values(a, b)


# ------------------------------------------------------------------ single results
@unit(PID, 'Result', [M + ':Result.__init__', M + ':Result.final_shape', M + ':Result.initial_shape',
                      M + ':Result.gt_shape', M + ':Result.image', M + ':Result.final_error',
                      M + ':Result.initial_error'])
def result():
    m = mod()
    fin, ini, gt = opq('final'), opt('initial'), opt('gt')
    im = None if ctx().branch(z3.Bool('no_image')) else img()
    r = m.Result(fin, image=im, initial_shape=ini, gt_shape=gt)
    prove('final shape', is_(r.final_shape, fin))
    prove('initial shape', is_(r.initial_shape, ini))
    prove('ground truth shape', is_(r.gt_shape, gt))
    prove('not iterative', r.is_iterative is False)
    if im is None:
        prove('no image', r.image is None)
    else:
        prove_eq('same pixels', r.image.pixels, im.pixels)
        prove('the image is a copy', r.image is not im and r.image.pixels is not im.pixels)
    for kw, e in (({}, bb_error), (dict(compute_error=my_error), my_error)):
        if gt is None:
            expect_raises('final error needs a ground truth', ValueError, lambda: r.final_error(**kw))
        else:
            prove('final error', is_(r.final_error(**kw), e(fin, gt)))
        if gt is None or ini is None:
            expect_raises('initial error needs both shapes', ValueError, lambda: r.initial_error(**kw))
        else:
            prove('initial error', is_(r.initial_error(**kw), e(ini, gt)))


def hist(ini, shapes):
    return shapes if ini is None else VList([ini]) + shapes


def history(r, ini, shapes, gt, costs):
    list_eq('initial shape first, then every shape in order', r.shapes, hist(ini, shapes))
    prove('final shape is the last one', is_(r.final_shape, r.shapes[-1]))
    prove('final shape', is_(r.final_shape, shapes[-1]))
    prove('initial shape', is_(r.initial_shape, ini))
    prove('ground truth shape', is_(r.gt_shape, gt))
    prove('iterative', r.is_iterative is True)
    prove('costs unaltered', is_(r.costs, costs))
    for kw, e in (({}, bb_error), (dict(compute_error=my_error), my_error)):
        if gt is None:
            expect_raises('errors need a ground truth', ValueError, lambda: r.errors(**kw))
        else:
            h = hist(ini, shapes)
            list_eq('error of every shape in order', r.errors(**kw), VList(segs=[Seg(h.zlen(), lambda i: e(h.at(i), gt))]))


@unit(PID, 'iterative result', [M + ':NonParametricIterativeResult.__init__', M + ':NonParametricIterativeResult.errors',
                                M + ':NonParametricIterativeResult.shapes', M + ':NonParametricIterativeResult.costs',
                                M + ':NonParametricIterativeResult.n_iters'])
def nonparam():
    m = mod()
    n = sint('n', 1)
    ini, gt = opt('initial'), opt('gt')
    shapes = olist('S', n)
    before = list(shapes.segs)
    costs = None if ctx().branch(z3.Bool('no_costs')) else rlist('C', sint('nc', 0))
    r = m.NonParametricIterativeResult(shapes, initial_shape=ini, image=None, gt_shape=gt, costs=costs)
    history(r, ini, olist('S', n), gt, costs)
    prove('one iteration per shape', zint(r.n_iters) == n.t)
    prove('list of shapes not modified', len(shapes.segs) == len(before) and all(a is b for a, b in zip(shapes.segs, before)))


@unit(PID, 'conversion to a plain result', [M + ':NonParametricIterativeResult.to_result'])
def to_result():
    m = mod()
    n = sint('n', 1)
    ini, gt = opt('initial'), opt('gt')
    im = img()
    r = m.NonParametricIterativeResult(olist('S', n), initial_shape=ini, image=im, gt_shape=gt)
    a, b, c = (ctx().branch(z3.Bool('pass_%d' % k)) for k in range(3))
    q = r.to_result(pass_image=a, pass_initial_shape=b, pass_gt_shape=c)
    prove('a plain result', type(q) is m.Result and q.is_iterative is False)
    prove('final shape', is_(q.final_shape, olist('S', n)[-1]))
    prove('initial shape as selected', is_(q.initial_shape, ini if b else None))
    prove('ground truth as selected', is_(q.gt_shape, gt if c else None))
    if a:
        prove_eq('image as selected', q.image.pixels, im.pixels)
    else:
        prove('image as selected', q.image is None)
    q = r.to_result()
    prove('default: everything', z3.And(is_(q.initial_shape, ini), is_(q.gt_shape, gt), is_(q.final_shape, r.final_shape)))
    prove_eq('default: image', q.image.pixels, im.pixels)


def clouds(n, k, d):
    return slist('S', n, lambda s: SPointCloud(fresh('P', axes_of(k, d), params=[s]), copy=False))


@unit(PID, 'displacements', [M + ':NonParametricIterativeResult.displacements',
                             M + ':NonParametricIterativeResult.displacements_stats'], budget=100)
def displacements():
    m = mod()
    n, k, d = sint('n', 1), sint('k', 1), sint('d', 1)
    S = z3.Function('P', INT, INT, INT, REAL)
    ini = ctx().branch(z3.Bool('with_initial'))
    P0 = pts('P0', k, d)
    i0 = SPointCloud(P0, copy=False) if ini else None
    r = m.NonParametricIterativeResult(clouds(n, k, d), initial_shape=i0)
    D = as_vlist(r.displacements())
    N = z3.simplify(n.t - 1 + (1 if ini else 0))
    prove('one displacement per update', D.zlen() == N)
    j, p = z3.Int('j'), z3.Int('p')

    def pt(s, p, q):
        if not ini:
            return S(s, p, q)
        return z3.If(s == 0, at(P0, p, q), S(s - 1, p, q))

    def spec(j, p):
        return rsqrt(ssum(d, lambda q: (pt(j, p, q) - pt(j + 1, p, q)) * (pt(j, p, q) - pt(j + 1, p, q))))
    ctx().assume(z3.And(j >= 0, j < N, p >= 0, p < k.t))
    x = D.at(j)
    prove('one value per point', z3.And(x.ndim == 1, zint(x.shape[0]) == k.t))
    prove('distance each point moved between consecutive shapes', at(x, p) == spec(j, p))
    expect_raises('unknown statistic', ValueError, lambda: r.displacements_stats('nope'))
    for st in ('mean', 'median', 'max', 'min'):
        L = as_vlist(r.displacements_stats(stat_type=st) if st != 'mean' else r.displacements_stats())
        prove('one %s per update' % st, L.zlen() == N)
        ref = D.at(j)
        e = dict(mean=lambda: T.reduce_mean(ref), median=lambda: shim_np.median(ref), max=lambda: T.reduce_op('max', ref),
                 min=lambda: T.reduce_op('min', ref))[st]()
        prove('%s of the displacements' % st, val(L.at(j)) == val(e))


shim_np = shim.NpShim()


@unit(PID, 'parametric result', [M + ':ParametricIterativeResult.__init__',
                                 M + ':ParametricIterativeResult.reconstructed_initial_shape',
                                 M + ':ParametricIterativeResult.shape_parameters',
                                 M + ':ParametricIterativeResult._reconstruction_indices',
                                 M + ':ParametricIterativeResult.reconstructed_initial_error'])
def param():
    m = mod()
    n = sint('n', 1)
    ini, gt = opt('initial'), opt('gt')
    sp = olist('p', n)
    costs = None if ctx().branch(z3.Bool('no_costs')) else rlist('C', n)
    r = m.ParametricIterativeResult(olist('S', n), sp, initial_shape=ini, image=None, gt_shape=gt, costs=costs)
    history(r, ini, olist('S', n), gt, costs)
    prove('iterations: updates after the reconstruction', zint(r.n_iters) == n.t - 1)
    list_eq('parameters unaltered', r.shape_parameters, olist('p', n))
    s0 = olist('S', n)[0]
    prove('reconstructed initial shape', is_(r.reconstructed_initial_shape, s0))
    ids = r._reconstruction_indices
    prove('position of the reconstruction', len(ids) == 1 and is_(r.shapes[ids[0]], s0))
    for kw, e in (({}, bb_error), (dict(compute_error=my_error), my_error)):
        if gt is None:
            expect_raises('needs a ground truth', ValueError, lambda: r.reconstructed_initial_error(**kw))
        else:
            prove('reconstructed initial error', is_(r.reconstructed_initial_error(**kw), e(s0, gt)))


@unit(PID, 'shapes mapped back', [M + ':_rescale_shapes_to_reference'])
def rescale():
    m = mod()
    n = sint('n', 0)
    L = olist('S', n)
    a, s = Transform(z3.Const('aff', V)), Transform(z3.Const('sc', V))
    r = m._rescale_shapes_to_reference(L, a, s)
    list_eq('scale, then affine, each shape in order', r, mapped(a, s, olist('S', n)))
    r = m._rescale_shapes_to_reference(shapes=L, affine_transform=a, scale_transform=s)
    list_eq('by keyword', r, mapped(a, s, olist('S', n)))


def mapped(a, s, L):
    return VList(segs=[Seg(L.zlen(), lambda i: a.apply(s.apply(L.at(i))))])


# ------------------------------------------------------------------ multi scale
class Scales(object):
    """results of an arbitrary number of scales, each with its own number of shapes"""

    def __init__(self, cls, with_init, with_costs, extra=(), none_extra=False):
        self.R = sint('n_scales', 1)
        self.nf = z3.Function('n_shapes', INT, INT)
        self.S = z3.Function('S', INT, INT, V)
        self.I = z3.Function('I', INT, V)
        self.wi, self.wc = with_init, with_costs
        i = z3.Int('wf')
        ctx().assume(z3.ForAll([i], self.nf(i) >= 1))
        self.cls, self.extra, self.none_extra = cls, extra, none_extra
        self.cache = {}
        self.results = slist('results', self.R, self.result)
        af, sf = z3.Function('affine', INT, V), z3.Function('scaletr', INT, V)
        self.affine = slist('affine', self.R, lambda i: Transform(af(i)))
        self.scale = slist('scaletr', self.R, lambda i: Transform(sf(i)))
        self.scales = rlist('scales', self.R)

    def list2(self, name, i, sort=V):
        f = z3.Function(name, INT, INT, sort)
        return slist(name, SInt(self.nf(i)), lambda j: wrap(f(i, j)) if sort is REAL else Opq(f(i, j)))

    def result(self, i):
        i = i if z3.is_expr(i) else z3.IntVal(i)
        k = z3.simplify(i).sexpr()
        c = ctx()
        if k not in self.cache:
            c.assume(self.nf(i) >= 1)
            kw = dict(initial_shape=Opq(self.I(i)) if self.wi else None,
                      costs=self.list2('cost', i, REAL) if self.wc else None)
            for e in self.extra:
                kw[e] = None if self.none_extra else self.list2(e, i)
            self.cache[k] = self.cls(self.list2('S', i), **kw)
        return self.cache[k]

    def cat(self, f):
        return VList(segs=[Cat(self.R.t, f)])

    def block(self, i):
        return mapped(self.affine.at(i), self.scale.at(i), self.list2('S', i))


def multi_history(z, r, ini, gt, per_shape, n_iters):
    sh = z.cat(z.block)
    spec = sh if ini is None else VList([ini]) + sh
    list_eq('shapes of the scales in order, mapped back', r.shapes, spec)
    prove('initial shape', is_(r.initial_shape, ini))
    last = z3.simplify(z.R.t - 1)
    prove('final shape', is_(r.final_shape, z.block(last)[-1]))
    prove('number of iterations', zint(r.n_iters) == n_iters)
    prove('number of scales', zint(r.n_scales) == z.R.t)
    prove('ground truth untouched', is_(r.gt_shape, gt))
    j = z3.Int('sj')
    ctx().assume(z3.And(j >= 0, j < z.R.t))
    prove('iterations per scale', z3.And(as_vlist(r.n_iters_per_scale).zlen() == z.R.t,
                                         zint(as_vlist(r.n_iters_per_scale).at(j)) == per_shape(j)))
    if z.wc:
        list_eq('costs of the scales in order', r.costs, z.cat(lambda i: z.list2('cost', i, REAL)))
    else:
        prove('no costs', r.costs is None)
    return j


def first_initial(z):
    if not z.wi:
        return None
    return z.affine.at(0).apply(z.scale.at(0).apply(Opq(z.I(z3.IntVal(0)))))


def frame(z, r0):
    prove('results not modified', len(z.results.segs) == 1 and z.results.segs[0] is r0)
    for k, x in z.cache.items():
        i = x
        prove('shapes of a scale not modified', x._shapes.zlen() == zint(as_vlist(x._shapes).zlen()))


for _wi in (True, False):
    for _wc in (True, False):
        def _mk(wi, wc):
            tag = ' (%s initial shape, %s costs)' % ('with' if wi else 'no', 'with' if wc else 'no')

            @unit(PID, 'multi-scale result' + tag, [M + ':MultiScaleNonParametricIterativeResult.__init__',
                                                    M + ':MultiScaleNonParametricIterativeResult.n_iters_per_scale',
                                                    M + ':MultiScaleNonParametricIterativeResult.n_scales'])
            def f():
                m = mod()
                z = Scales(m.NonParametricIterativeResult, wi, wc)
                seg = z.results.segs[0]
                gt = opt('gt')
                r = m.MultiScaleNonParametricIterativeResult(z.results, z.scales, z.affine, z.scale, image=None, gt_shape=gt)
                multi_history(z, r, first_initial(z), gt, z.nf, isum(z.R.t, z.nf))
                prove('results not modified', len(z.results.segs) == 1 and z.results.segs[0] is seg)
                n2 = sint('other', 1)
                if not ctx().branch(n2.t == z.R.t):
                    expect_raises('one scale per result', ValueError, lambda: m.MultiScaleNonParametricIterativeResult(
                        z.results, rlist('scales', n2), z.affine, z.scale))

            @unit(PID, 'multi-scale parametric result' + tag, [
                M + ':MultiScaleParametricIterativeResult.__init__',
                M + ':MultiScaleParametricIterativeResult.shape_parameters',
                M + ':MultiScaleParametricIterativeResult.reconstructed_initial_shapes',
                M + ':MultiScaleParametricIterativeResult._reconstruction_indices',
                M + ':MultiScaleParametricIterativeResult.reconstructed_initial_error'], budget=100)
            def g():
                m = mod()
                z = Scales(m.ParametricIterativeResult, wi, wc, ('shape_parameters',))
                gt = opt('gt')
                r = m.MultiScaleParametricIterativeResult(z.results, z.scales, z.affine, z.scale, image=None, gt_shape=gt)
                param_history(z, r, gt)
        _mk(_wi, _wc)


def param_history(z, r, gt, pname='shape_parameters', attr='shape_parameters'):
    j = multi_history(z, r, first_initial(z), gt, lambda i: z.nf(i) - 1, isum(z.R.t, lambda i: z.nf(i) - 1))
    if attr:
        list_eq('parameters of the scales in order', getattr(r, attr), z.cat(lambda i: z.list2(pname, i)))
    rec = as_vlist(r.reconstructed_initial_shapes)
    prove('one reconstruction per scale', rec.zlen() == z.R.t)
    prove('the reconstruction each scale started from', is_(rec.at(j), z.block(j)[0]))
    for kw, e in (({}, bb_error), (dict(compute_error=my_error), my_error)):
        if gt is None:
            expect_raises('needs a ground truth', ValueError, lambda: r.reconstructed_initial_error(**kw))
        else:
            prove('reconstructed initial error', is_(r.reconstructed_initial_error(**kw), e(z.block(z3.IntVal(0))[0], gt)))


# ------------------------------------------------------------------ algorithm specific results
def special(title, modname, alg, multi, extras, params='shape_parameters'):
    q = 'menpofit.%s.result' % modname
    fns = [q + ':%s.__init__' % alg, q + ':%s.__init__' % multi] + [q + ':%s.%s' % (c, e) for e in extras
                                                                   for c in (alg, multi)]

    @unit(PID, title + ' result', fns)
    def f():
        m = world().load(q)
        n = sint('n', 1)
        ini, gt = opt('initial'), opt('gt')
        kw = {e: None if ctx().branch(z3.Bool('no_' + e)) else olist(e, n) for e in extras}
        kw[params] = olist('p', n)
        r = getattr(m, alg)(olist('S', n), initial_shape=ini, image=None, gt_shape=gt, costs=rlist('C', n), **kw)
        history(r, ini, olist('S', n), gt, rlist('C', n))
        prove('iterations', zint(r.n_iters) == n.t - 1)
        list_eq('parameters', getattr(r, params), olist('p', n))
        for e in extras:
            prove('%s unaltered' % e, is_(getattr(r, e), kw[e]))

    for none in ((False, True) if extras else (False,)):
        def mk(none):
            @unit(PID, title + ' multi-scale result' + (' without ' + ' and '.join(extras) if none else ''), fns, budget=100)
            def g():
                m = world().load(q)
                ex = (params,)
                z = Scales(lambda s, **k: getattr(m, alg)(s, **dict(k, **{e: (None if none else z.list2(e, iof(s)))
                                                                         for e in extras})), True, True, ex)

                def iof(s):
                    return s.segs[0].f(z3.IntVal(0)).t.arg(0)
                gt = opt('gt')
                r = getattr(m, multi)(z.results, z.scales, z.affine, z.scale, image=None, gt_shape=gt)
                param_history(z, r, gt, params, params)
                for e in extras:
                    if none:
                        prove('no ' + e, getattr(r, e) is None)
                    else:
                        list_eq('%s of the scales in order' % e, getattr(r, e), z.cat(lambda i: z.list2(e, i)))
        mk(none)


special('AAM', 'aam', 'AAMAlgorithmResult', 'AAMResult', ('appearance_parameters',))
special('unified AAM-CLM', 'unified_aam_clm', 'UnifiedAAMCLMAlgorithmResult', 'UnifiedAAMCLMResult',
        ('appearance_parameters',))
special('APS', 'aps', 'APSAlgorithmResult', 'APSResult', ('appearance_costs', 'deformation_costs'))
special('Lucas-Kanade', 'lk', 'LucasKanadeAlgorithmResult', 'LucasKanadeResult', (), 'homogeneous_parameters')
