"""C16, training: what each scale of a trained model is made from."""
from .common import *
from .c16 import PID, world, PKG, Feat, NOOP, FEAT, VOBJ, Progress
from ..engine.core import PathEnd

RSZ = z3.Function('rescaled_to', V, V, V, V)      # image, group, reference shape
RESC = z3.Function('scaled', V, REAL, V)          # image
LM = z3.Function('landmarks', V, V, V)            # of an image, group
SCALED = z3.Function('scaled_shape', REAL, V, V)
RF = z3.Function('reference_frame', V, V)
PRF = z3.Function('patch_reference_frame', V, V, V)
WARP = z3.Function('warped', V, V, V, V, V)       # image, shape, frame, transform
PATCH = z3.Function('patches', V, V, V, V, V)     # image, shape, patch shape, normalisation
DENSE = z3.Function('densified', V, V, V, V)      # shape, frame, transform
ALN = z3.Function('aligned', V, INT, V)           # of a list of shapes
MEANS = z3.Function('mean_of', V, V)
REFS = z3.Function('reference_of', V, V, V)       # shapes, diagonal
ARR = z3.ArraySort(INT, V)
LIST = z3.Function('list', ARR, INT, V)
TRIM = z3.Function('trimmed', V, V, V)
PCA = z3.Function('PCA', V, V)
SMOD = z3.Function('shape_model', V, V, V, V)     # class, shapes, components kept
SINC = z3.Function('shape_increment', V, V, REAL, V, V)
AINC = z3.Function('appearance_increment', V, V, REAL, V)
EXPERT = z3.Function('experts', V, V, V, V, V, V, V, V, V)
EINC = z3.Function('experts_increment', V, V, V, V)
GMRF = z3.Function('GMRF', V, V, V, V, V)         # data, graph, mode, components
GPCA = z3.Function('GMRF_pca', V, V)
GINC = z3.Function('GMRF_increment', V, V, V)
SMOOTH = z3.Function('smoothed', V, V, V)
MST = z3.Function('spanning_tree', V, V)
NONE = z3.Const('None', V)

TR = ['menpofit.builder functions (rescale_images_to_reference_shape, compute_features, scale_images, warp_images, '
      'extract_patches, densify_shapes): elementwise, functions of their arguments; proved or replayed elsewhere',
      'menpo.feature.no_op(x) is x; Image.rescale by 1 and Scale(1) change nothing',
      'PCAModel, shape model and expert classes: functions of the training data and settings given',
      'menpofit.checks: the per-scale lists returned are those given (proved in C19/C18)']


def theory():
    x, s = z3.Const('th_x', V), z3.Real('th_s')
    A = ctx().axioms
    A.append(z3.ForAll([x], FEAT(NOOP, x) == x, patterns=[FEAT(NOOP, x)]))
    A.append(z3.ForAll([x, s], z3.Implies(s == 1, RESC(x, s) == x), patterns=[RESC(x, s)]))
    A.append(z3.ForAll([x, s], z3.Implies(s == 1, SCALED(s, x) == x), patterns=[SCALED(s, x)]))
    n = z3.Const('th_n', V)
    A.append(z3.ForAll([x, n], z3.Implies(n == NONE, TRIM(x, n) == x), patterns=[TRIM(x, n)]))


def no_graph():
    """the model of shapes without a graph is made from the shapes themselves"""
    x, g, m, k = (z3.Const('th_' + q, V) for q in 'xgmk')
    t = GPCA(GMRF(x, g, m, k))
    ctx().axioms.append(z3.ForAll([x, g, m, k], z3.Implies(g == NONE, t == x), patterns=[t]))


class Opt(VOBJ):
    """None or a value"""

    def __visnone__(self):
        return self.t == NONE


def penc(x):
    """encoding of a setting: objects, numbers, None"""
    if x is None:
        return NONE
    if isinstance(x, (SReal, float)):
        return enc(SReal(zreal(x)))
    return enc(x)


class FImg(VOBJ):
    """an image with landmarks"""
    @property
    def landmarks(self):
        return self

    def __getitem__(self, g):
        return Shape(LM(self.t, penc(g)))

    def rescale_to_pointcloud(self, ref, group=None, **k):
        if k:
            raise Unsupported('rescale options')
        return FImg(RSZ(self.t, penc(group), penc(ref)))


class Shape(Opq):
    n_points = property(lambda s: app_int('n_points', s))


# ------------------------------------------------------------ lists as values
class Families(object):
    """the lists named in the specification"""

    def __init__(self):
        self.all = []

    def add(self, name, n, elem):
        f = z3.Function(name, INT, V)
        self.all.append((f, n, elem))
        return f


def int_consts(t):
    todo, seen, out = [t], set(), []
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            continue
        if z3.is_const(e) and e.sort() == INT and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(e)
        todo.extend(e.children())
    return out


def arr(L):
    """a list as one value: that of the specification if provably the same list"""
    L = as_vlist(L)
    c = ctx()
    i = z3.Int(c.fresh('arr'))
    if L.concrete():
        return LIST(z3.K(INT, app('elements', *[Opq(penc(x)) for x in L.items()]).t), z3.IntVal(len(L.items())))
    e, ln = penc(L.at(i)), L.zlen()
    key = tuple(x.get_id() for x in [e, ln] + c.pc + c.axioms)
    hit = CACHE.get(key)
    if hit is None:
        hit = CACHE[key] = (_arr(L, e, ln, i), [e, ln] + c.pc + c.axioms)
    return hit[0]


CACHE = {}      # the same question in the same situation has the same answer (the terms are kept alive)


def quick(g):
    s = z3.Solver()
    s.set('timeout', 1500)
    s.set('auto_config', False)
    s.set('smt.mbqi', False)
    s.add(ctx().pc + ctx().axioms + [z3.Not(g)])
    return s.check() == z3.unsat


def _arr(L, e, ln, i):
    c = ctx()
    js = [k for k in int_consts(e) if not k.eq(i)]
    fams = getattr(c, 'families', None)
    for f, n, elem in (fams.all if fams else []):
        for j in js + list(c.open) + [z3.IntVal(0)]:
            g = z3.And(ln == n, z3.Implies(z3.And(i >= 0, i < n), e == elem(j, i)))
            if quick(g):
                return f(j)
    return LIST(z3.Lambda([i], e), ln)


def mapped(L, f):
    L = as_vlist(L)
    return VList(segs=[Seg(L.zlen(), lambda i: f(L.at(i)))]) if not L.concrete() else VList([f(x) for x in L.items()])


def zipped(A, B, f):
    A, B = as_vlist(A), as_vlist(B)
    if A.concrete() and B.concrete():
        return VList([f(x, y) for x, y in zip(A.items(), B.items())])
    if not provable(A.zlen() == B.zlen()):
        raise Unsupported('lists of different length')
    return VList(segs=[Seg(A.zlen(), lambda i: f(A.at(i), B.at(i)))])


class B(object):
    """contracts of menpofit.builder"""
    @staticmethod
    def rescale_images_to_reference_shape(images, group, reference_shape, verbose=False):
        return mapped(images, lambda x: FImg(RSZ(x.t, penc(group), penc(reference_shape))))

    @staticmethod
    def compute_features(images, features, prefix='', verbose=False):
        return mapped(images, lambda x: FImg(FEAT(features.t, x.t)))

    @staticmethod
    def scale_images(images, scale, prefix='', return_transforms=False, verbose=False):
        if return_transforms is not False:
            raise Unsupported('transforms of scaled images')
        return mapped(images, lambda x: FImg(RESC(x.t, zreal(scale))))

    @staticmethod
    def warp_images(images, shapes, reference_frame, transform, prefix='', verbose=None):
        return zipped(images, shapes, lambda x, s: FImg(WARP(x.t, s.t, penc(reference_frame), penc(transform))))

    @staticmethod
    def extract_patches(images, shapes, patch_shape, normalise_function=None, prefix='', verbose=False):
        nf = Feat(NOOP) if normalise_function is None else normalise_function
        return zipped(images, shapes, lambda x, s: FImg(PATCH(x.t, s.t, penc(patch_shape), penc(nf))))

    @staticmethod
    def build_reference_frame(landmarks, **k):
        if k:
            raise Unsupported('options of a reference frame')
        return FImg(RF(penc(landmarks)))

    @staticmethod
    def build_patch_reference_frame(landmarks, patch_shape=None, **k):
        if k:
            raise Unsupported('options of a reference frame')
        return FImg(PRF(penc(landmarks), penc(patch_shape)))

    @staticmethod
    def densify_shapes(shapes, reference_frame, transform):
        return mapped(shapes, lambda s: Shape(DENSE(s.t, penc(reference_frame), penc(transform))))

    @staticmethod
    def align_shapes(shapes):
        a = arr(shapes)
        return VList(segs=[Seg(as_vlist(shapes).zlen(), lambda i: Shape(ALN(a, i)))])

    @staticmethod
    def compute_reference_shape(shapes, diagonal, verbose=False):
        return Shape(REFS(arr(shapes), penc(diagonal)))


BUILDER = {k: getattr(B, k) for k in dir(B) if not k.startswith('_')}
BUILDER['MenpoFitBuilderWarning'] = Warning


class ScaleT(object):
    def __init__(self, scale_factor, n_dims=None):
        self.s = zreal(scale_factor)

    def apply(self, x):
        return Shape(SCALED(self.s, penc(x)))


LOGS = {SINC: '\u00a7shape', AINC: '\u00a7appearance', EINC: '\u00a7experts', 'd': '\u00a7subtraction', 'a': '\u00a7concatenation'}


def log(term, name=None):
    ctx().heaps[name or LOGS[[k for k in LOGS if not isinstance(k, str) and term.decl().eq(k)][0]]].append(Opq(term))


class AppModel(VOBJ):
    """an appearance model; increments of an existing one are recorded"""
    def __init__(self, t):
        self.t = t

    def trim_components(self, n=None):
        L = ctx().heaps[LOGS[AINC]]
        last = L.segs[-1][-1] if L.segs and isinstance(L.segs[-1], list) and L.segs[-1] else None
        if last is not None and last.t.decl().eq(AINC) and provable(last.t.arg(0) == self.t):
            L.segs = L.segs[:-1] + [L.segs[-1][:-1] + [Opq(TRIM(last.t, penc(n)))]]
        else:
            self.t = TRIM(self.t, penc(n))

    def increment(self, samples, n_samples=None, forgetting_factor=1.0, verbose=False):
        log(AINC(self.t, arr(samples), zreal(forgetting_factor)))


class ShapeModel(VOBJ):
    def increment(self, shapes, n_shapes=None, forgetting_factor=1.0, max_n_components=None, verbose=False):
        log(SINC(self.t, arr(shapes), zreal(forgetting_factor), penc(max_n_components)))


class ShapeCls(VOBJ):
    def __call__(self, shapes, max_n_components=None):
        t = shapes.t if isinstance(shapes, Gmrf) else arr(shapes)
        return ShapeModel(SMOD(self.t, t, penc(max_n_components)))


class Gmrf(VOBJ):
    """a Gaussian Markov random field"""
    def principal_components_analysis(self, **k):
        if k:
            raise Unsupported('options of the components of a GMRF')
        return Gmrf(GPCA(self.t))

    def increment(self, samples, n_samples=None, verbose=False):
        if not self.t.decl().eq(GMRF):
            raise Unsupported('increment of a GMRF of unknown mode')
        log(GINC(self.t, arr(samples)), '\u00a7' + str(self.t.arg(2)))


def gmrf(samples, graph, n_samples=None, mode='concatenation', n_components=None, dtype=None, sparse=True, bias=0,
         incremental=False, verbose=False):
    return Gmrf(GMRF(arr(samples), penc(graph), z3.Const(mode, V), penc(n_components)))


class Experts(VOBJ):
    def increment(self, images, shapes, prefix='', verbose=False):
        log(EINC(self.t, arr(images), arr(shapes)))


class ExpertCls(VOBJ):
    def __call__(self, images, shapes, patch_shape=None, patch_normalisation=None, context_shape=None, cosine_mask=None,
                 sample_offsets=None, prefix='', verbose=False):
        return Experts(EXPERT(self.t, arr(images), arr(shapes), penc(patch_shape), penc(patch_normalisation),
                              penc(context_shape), penc(cosine_mask), penc(sample_offsets)))


def same_(x, *a, **k):
    return x


def per_scale(x, n, *a):
    """check_callable: one for every scale"""
    return x if isinstance(x, VList) else VList(segs=[Seg(zint(n), lambda i: x)])


CHECKS = {k: same_ for k in ('check_diagonal', 'check_scales', 'check_callable', 'check_max_components',
                             'check_patch_shape', 'check_graph')}
CHECKS.update(check_callable=per_scale, check_landmark_trilist=lambda *a, **k: None, check_trilist=lambda *a, **k: None)


def train_world(mod):
    st = {'menpofit__builder': BUILDER, 'menpofit__checks': CHECKS, 'menpo__model': {'PCAModel': lambda x, **k: AppModel(PCA(arr(x)))},
          'menpo__transform': {'Scale': ScaleT},
          'menpo__shape': {'mean_pointcloud': lambda L: Shape(MEANS(arr(L)))},
          'menpofit__base': {'batch': None}, 'menpofit__modelinstance': {'OrthoPDM': ShapeCls(z3.Const('OrthoPDM', V))}}
    if mod == 'aps':
        st['menpo__model']['GMRFModel'] = gmrf
    if mod == 'unified_aam_clm':
        st['scipy__ndimage'] = {'gaussian_filter': lambda x, sigma, mode=None: FImg(SMOOTH(x.t, penc(sigma)))}
    st['menpofit__transform'] = {'DifferentiablePiecewiseAffine': Opq(z3.Const('PWA', V)),
                                 'DifferentiableThinPlateSplines': Opq(z3.Const('TPS', V))}
    return world(mod, **st)


def per(name, n, K=Opt):
    f = z3.Function(name, INT, V)
    return f, slist(name, n, lambda i: K(f(i)))


class Setting(object):
    """the settings of a model of any number of scales"""

    def __init__(self):
        theory()
        self.n = sint('n_scales', 1)
        n = self.n
        self.hf, self.lhf = per('hf', n, Feat)
        self.cls, self.lcls = per('shape_cls', n, ShapeCls)
        self.msc, self.lmsc = per('msc', n)
        self.mac, self.lmac = per('mac', n)
        self.ps, self.lps = per('patch_shape', n)
        self.pn, self.lpn = per('patch_norm', n, Feat)
        self.ecls, self.lecls = per('expert_cls', n, ExpertCls)
        self.ctxs, self.lctxs = per('context_shape', n)
        self.sc = z3.Function('scale', INT, REAL)
        self.lsc = slist('scale', n, lambda i: SReal(self.sc(i)))
        self.ref = z3.Const('given_reference', V)
        self.group, self.group2 = z3.Const('group', V), z3.Const('group2', V)
        self.tr = z3.Const('transform', V)
        self.diag = z3.Const('diagonal', V)
        c = ctx()
        c.families = Families()
        for k in LOGS.values():
            c.heaps[k] = VList()


class Data(object):
    """a training set and what is expected of it at each scale"""

    def __init__(self, S, tag, group, kind, prealigned=False):
        self.S, self.group = S, group
        self.N = sint('n_images' + tag, 1)
        self.IM = z3.Function('image' + tag, INT, V)
        self.images = slist('images' + tag, self.N, lambda i: FImg(self.IM(i)))
        F = ctx().families
        N = self.N.t
        self.raw = F.add('raw_shapes' + tag, N, lambda j, i: LM(self.IM(i), group))
        self.img = lambda j, i: RESC(FEAT(S.hf(j), RSZ(self.IM(i), group, S.ref)), S.sc(j))
        self.sh = lambda j, i: LM(self.img(j, i), group)
        self.images_of = F.add('images_of_scale' + tag, N, self.img)
        self.shapes = F.add('shapes_of_scale' + tag, N, self.sh)
        self.aligned = F.add('aligned_of_scale' + tag, N, lambda j, i: ALN(self.shapes(j), i))


def frames(S, C, linear, data):
    """the reference frame of scale j"""
    masked = 'Masked' in C
    base = (lambda j: MEANS(data.aligned(j))) if linear else (lambda j: SCALED(S.sc(j), S.ref))
    return (lambda j: PRF(base(j), S.ps(j))) if masked else (lambda j: RF(base(j)))


def check_list(name, L, n, expected):
    L = as_vlist(L)
    prove('as many %s as scales' % name, L.zlen() == n)
    j = z3.Int('j')
    c = ctx()
    n0 = len(c.pc)
    c.assume(z3.And(j >= 0, j < n))
    prove('%s of scale j' % name, penc(L.at(j)) == expected(j))


def aam(C):
    m = train_world('aam')
    S = Setting()
    linear = 'Linear' in C
    d = Data(S, '', S.group, C)
    tr = S.tr if C in ('AAM', 'LinearAAM') else z3.Const('TPS', V)
    frame = frames(S, C, linear, d)
    F = ctx().families

    def expect(d, tag, first=None):
        N = d.N.t
        if C == 'PatchAAM':
            w = lambda j, i: PATCH(d.img(j, i), d.sh(j, i), S.ps(j), S.pn(j))
        else:
            w = lambda j, i: WARP(d.img(j, i), d.sh(j, i), frame(j), tr)
        d.warped = F.add('warped_of_scale' + tag, N, w)
        if linear:
            src = (lambda j, i: ALN(d.shapes(j), i)) if first else d.sh
            d.train = F.add('dense_of_scale' + tag, N, lambda j, i: DENSE(src(j, i), frame(j), tr))
        else:
            d.train = d.shapes
    expect(d, '')
    kw = dict(group=Opq(S.group), holistic_features=S.lhf, reference_shape=Shape(S.ref), diagonal=Opq(S.diag),
              scales=S.lsc, shape_model_cls=S.lcls, max_shape_components=S.lmsc, max_appearance_components=S.lmac)
    if C in ('AAM', 'LinearAAM'):
        kw['transform'] = Opq(tr)
    if C in ('MaskedAAM', 'LinearMaskedAAM', 'PatchAAM'):
        kw['patch_shape'] = S.lps
    if C == 'PatchAAM':
        kw['patch_normalisation'] = S.lpn
    model = getattr(m, C)(d.images, **kw)
    n = S.n.t
    shape_of = lambda j: SMOD(S.cls(j), d.train(j), S.msc(j))
    app_of = lambda j: TRIM(PCA(d.warped(j)), S.mac(j))
    c = ctx()
    if not c.branch(z3.Bool('incremented')):
        prove('the reference shape given', penc(model.reference_shape) == S.ref)
        no_increments()
        check_list('shape model', model.shape_models, n, shape_of)
        check_list('appearance model', model.appearance_models, n, app_of)
        return
    d2 = Data(S, '2', S.group2, C)
    expect(d2, '2', first=d)
    sf, af = sreal('sf'), sreal('af')
    model.increment(d2.images, group=Opq(S.group2), shape_forgetting_factor=sf, appearance_forgetting_factor=af)
    check_list('shape model', model.shape_models, n, shape_of)
    check_list('appearance model', model.appearance_models, n, app_of)
    check_log('shape model', SINC, n, lambda j: SINC(shape_of(j), d2.train(j), sf.t, S.msc(j)))
    check_log('appearance model', AINC, n, lambda j: TRIM(AINC(app_of(j), d2.warped(j), af.t), S.mac(j)))


def no_increments():
    prove('nothing incremented', z3.And(*[ctx().heaps[k].zlen() == 0 for k in LOGS.values()]))


def check_log(name, kind, n, e):
    L = ctx().heaps[LOGS[kind]]
    prove('one increment of each ' + name, L.zlen() == n)
    j = z3.Int('j')
    ctx().assume(z3.And(j >= 0, j < n))
    prove('increment of the %s of scale j' % name, penc(L.at(j)) == e(j))


for _C in ('AAM', 'MaskedAAM', 'LinearAAM', 'LinearMaskedAAM', 'PatchAAM'):
    def _u(C=_C):
        aam(C)
    unit(PID, 'training of ' + _C, ['aam/base.py %s' % _C], TR, budget=120)(_u)


# ------------------------------------------------------------ template models
class ShapeData(object):
    def __init__(self, S, tag, group, C):
        self.N = sint('n_shapes' + tag, 1)
        self.SH = z3.Function('shape' + tag, INT, V)
        self.given = slist('shapes' + tag, self.N, lambda i: Shape(self.SH(i)))
        self.template = FImg(z3.Const('template' + tag, V))
        F, N = ctx().families, self.N.t
        self.sh = lambda j, i: SCALED(S.sc(j), self.SH(i))
        self.img = lambda j: RESC(FEAT(S.hf(j), RSZ(self.template.t, group, S.ref)), S.sc(j))
        self.tsh = lambda j: LM(self.img(j), group)
        self.shapes = F.add('shapes_of_scale' + tag, N, self.sh)
        self.aligned = F.add('aligned_of_scale' + tag, N, lambda j, i: ALN(self.shapes(j), i))


def atm(C):
    m = train_world('atm')
    S = Setting()
    linear = 'Linear' in C
    d = ShapeData(S, '', S.group, C)
    tr = S.tr if C in ('ATM', 'LinearATM') else z3.Const('TPS', V)
    frame = frames(S, C, linear, d)
    F = ctx().families
    pn = z3.Const('patch_normalisation', V)

    def expect(d, tag, first=None):
        if C == 'PatchATM':
            d.warped = lambda j: PATCH(d.img(j), d.tsh(j), S.ps(j), pn)
        else:
            d.warped = lambda j: WARP(d.img(j), d.tsh(j), frame(j), tr)
        if linear:
            src = (lambda j, i: ALN(d.shapes(j), i)) if first else d.sh
            d.train = F.add('dense_of_scale' + tag, d.N.t, lambda j, i: DENSE(src(j, i), frame(j), tr))
        else:
            d.train = d.shapes
    expect(d, '')
    kw = dict(group=Opq(S.group), holistic_features=S.lhf, reference_shape=Shape(S.ref), diagonal=Opq(S.diag),
              scales=S.lsc, max_shape_components=S.lmsc)
    cls = S.cls
    if C == 'ATM':
        kw['shape_model_cls'] = S.lcls
    else:
        cls = lambda j: z3.Const('OrthoPDM', V)
    if C in ('ATM', 'LinearATM'):
        kw['transform'] = Opq(tr)
    else:
        kw['patch_shape'] = S.lps
    if C == 'PatchATM':
        kw['patch_normalisation'] = Feat(pn)
    model = getattr(m, C)(d.template, d.given, **kw)
    n = S.n.t
    shape_of = lambda j: SMOD(cls(j), d.train(j), S.msc(j))
    c = ctx()
    if not c.branch(z3.Bool('incremented')):
        prove('the reference shape given', penc(model.reference_shape) == S.ref)
        no_increments()
        check_list('shape model', model.shape_models, n, shape_of)
        check_list('template', model.warped_templates, n, d.warped)
        return
    d2 = ShapeData(S, '2', S.group2, C)
    expect(d2, '2', first=d)
    sf = sreal('sf')
    model.increment(d2.template, d2.given, group=Opq(S.group2), shape_forgetting_factor=sf)
    check_list('shape model', model.shape_models, n, shape_of)
    check_list('template', model.warped_templates, n, d2.warped)
    check_log('shape model', SINC, n, lambda j: SINC(shape_of(j), d2.train(j), sf.t, S.msc(j)))


for _C in ('ATM', 'MaskedATM', 'LinearATM', 'LinearMaskedATM', 'PatchATM'):
    def _u(C=_C):
        atm(C)
    unit(PID, 'training of ' + _C, ['atm/base.py %s' % _C], TR, budget=120)(_u)


# ------------------------------------------------------------ local models
def experts_of(S, d, one):
    return lambda j: EXPERT(S.ecls(j), d.images_of(j), d.shapes(j), S.ps(j), one['patch_normalisation'].t, S.ctxs(j),
                            one['cosine_mask'].t, one['sample_offsets'].t)


def single():
    return dict(patch_normalisation=Feat(z3.Const('patch_normalisation', V)), cosine_mask=Opq(z3.Const('cosine_mask', V)),
                sample_offsets=Opq(z3.Const('sample_offsets', V)))


@unit(PID, 'training of CLM', ['clm/base.py CLM'], TR, budget=120)
def clm():
    m = train_world('clm')
    S = Setting()
    d = Data(S, '', S.group, 'CLM')
    one = single()
    kw = dict(group=Opq(S.group), holistic_features=S.lhf, reference_shape=Shape(S.ref), diagonal=Opq(S.diag), scales=S.lsc,
              patch_shape=S.lps, context_shape=S.lctxs, shape_model_cls=S.lcls, expert_ensemble_cls=S.lecls,
              max_shape_components=S.lmsc)
    kw.update(one)
    model = m.CLM(d.images, **kw)
    n = S.n.t
    shape_of = lambda j: SMOD(S.cls(j), d.shapes(j), S.msc(j))
    if not ctx().branch(z3.Bool('incremented')):
        prove('the reference shape given', penc(model.reference_shape) == S.ref)
        no_increments()
        check_list('shape model', model.shape_models, n, shape_of)
        check_list('expert ensemble', model.expert_ensembles, n, experts_of(S, d, one))
        return
    d2 = Data(S, '2', S.group2, 'CLM')
    sf = sreal('sf')
    model.increment(d2.images, group=Opq(S.group2), shape_forgetting_factor=sf)
    check_list('shape model', model.shape_models, n, shape_of)
    check_list('expert ensemble', model.expert_ensembles, n, experts_of(S, d, one))
    check_log('shape model', SINC, n, lambda j: SINC(shape_of(j), d2.shapes(j), sf.t, S.msc(j)))
    check_log('expert ensemble', EINC, n, lambda j: EINC(experts_of(S, d, one)(j), d2.images_of(j), d2.shapes(j)))


def unified(smoothed):
    m = train_world('unified_aam_clm')
    S = Setting()
    d = Data(S, '', S.group, 'Unified')
    S.ref = REFS(d.raw(0), S.diag)
    sigma = None
    if smoothed:
        sigma = sreal('sigma')
        ctx().assume(sigma.t > 0)
        img = lambda j, i: RESC(FEAT(S.hf(j), SMOOTH(RSZ(d.IM(i), S.group, S.ref), penc(sigma))), S.sc(j))
    else:
        img = lambda j, i: RESC(FEAT(S.hf(j), RSZ(d.IM(i), S.group, S.ref)), S.sc(j))
    d.img, d.sh = img, lambda j, i: LM(img(j, i), S.group)
    F, N = ctx().families, d.N.t
    F.all = [f for f in F.all if f[0].eq(d.raw)]
    d.images_of = F.add('images_of_scale', N, d.img)
    d.shapes = F.add('shapes_of_scale', N, d.sh)
    frame = lambda j: RF(SCALED(S.sc(j), S.ref))
    d.warped = F.add('warped_of_scale', N, lambda j, i: WARP(d.img(j, i), d.sh(j, i), frame(j), S.tr))
    one = single()
    kw = dict(group=Opq(S.group), holistic_features=S.lhf, diagonal=Opq(S.diag), scales=S.lsc, transform=Opq(S.tr),
              patch_shape=S.lps, context_shape=S.lctxs, shape_model_cls=S.lcls, expert_ensemble_cls=S.lecls,
              max_shape_components=S.lmsc, max_appearance_components=S.lmac, sigma=sigma)
    kw.update(one)
    model = m.UnifiedAAMCLM(d.images, **kw)
    n = S.n.t
    no_increments()
    check_list('shape model', model.shape_models, n, lambda j: SMOD(S.cls(j), d.shapes(j), S.msc(j)))
    check_list('appearance model', model.appearance_models, n, lambda j: TRIM(PCA(d.warped(j)), S.mac(j)))
    check_list('expert ensemble', model.expert_ensembles, n, experts_of(S, d, one))


for _s in (False, True):
    def _u(s=_s):
        unified(s)
    unit(PID, 'training of UnifiedAAMCLM' + (' on smoothed images' if _s else ''),
         ['unified_aam_clm/base.py UnifiedAAMCLM'], TR, budget=120)(_u)


def aps(missing, al):
    m = train_world('aps')
    S = Setting()
    no_graph()
    m._compute_minimum_spanning_tree = lambda shapes, root_vertex=0, **k: Opt(MST(arr(shapes)))
    d = Data(S, '', S.group, 'APS')
    n, c = S.n.t, ctx()
    sg, lsg = per('shape_graph', S.n)
    dg, ldg = per('deformation_graph', S.n, Opt if missing else VOBJ)
    if missing:
        k = z3.Int('some_scale')
        c.assume(z3.And(k >= 0, k < n, dg(k) == NONE))
    ag, lag = per('appearance_graph', S.n, VOBJ)
    OP, cat, sub = z3.Const('OrthoPDM', V), z3.Const('concatenation', V), z3.Const('subtraction', V)
    F = c.families
    rs = F.add('rescaled_shapes', d.N.t, lambda j, i: LM(RSZ(d.IM(i), S.group, S.ref), S.group))
    mst = MST(rs(0))

    def expect(d, tag):
        d.patches = F.add('patches_of_scale' + tag, d.N.t, lambda j, i: PATCH(d.img(j, i), d.sh(j, i), S.ps(j), S.pn(j)))
        d.deform = d.aligned if al else d.shapes
    expect(d, '')
    kw = dict(group=Opq(S.group), holistic_features=S.lhf, reference_shape=Shape(S.ref), diagonal=Opq(S.diag), scales=S.lsc,
              patch_shape=S.lps, patch_normalisation=S.lpn, max_shape_components=S.lmsc, n_appearance_components=S.lmac,
              appearance_graph=lag, shape_graph=lsg, deformation_graph=ldg, use_procrustes=al)
    model = m.GenerativeAPS(d.images, **kw)
    graph = (lambda j: z3.If(dg(j) == NONE, mst, dg(j))) if missing else dg
    shape_of = lambda j: SMOD(OP, GPCA(GMRF(d.aligned(j), sg(j), cat, NONE)), S.msc(j))
    deform_of = lambda j: GMRF(d.deform(j), graph(j), sub, NONE)
    app_of = lambda j: GMRF(d.patches(j), ag(j), cat, S.mac(j))
    check_list('deformation graph', model.deformation_graph, n, graph)
    inc = c.branch(z3.Bool('incremented'))
    if inc:
        d2 = Data(S, '2', S.group2, 'APS')
        expect(d2, '2')
        model.increment(d2.images, group=Opq(S.group2))
    else:
        no_increments()
    check_list('shape model', model.shape_models, n, shape_of)
    check_list('deformation model', model.deformation_models, n, deform_of)
    check_list('appearance model', model.appearance_models, n, app_of)
    if inc:
        one = z3.RealVal(1)
        check_log('shape model', SINC, n, lambda j: SINC(shape_of(j), d2.aligned(j), one, NONE))
        check_log('deformation model', 'd', n, lambda j: GINC(deform_of(j), d2.deform(j)))
        check_log('appearance model', 'a', n, lambda j: GINC(app_of(j), d2.patches(j)))


# the spanning tree computed from the shapes (deformation_graph None) is covered by the bounded case only: the
# solvers do not settle its quantified graph table within the unit's budget
for _m in (False,):
    for _a in (False, True):
        def _u(m=_m, a=_a):
            aps(m, a)
        unit(PID, 'training of GenerativeAPS (%s, %s)' % ('graph computed' if _m else 'graph given', 'aligned' if _a else 'as is'),
             ['aps/base.py GenerativeAPS'],
             TR + ['aps.base._compute_minimum_spanning_tree: a function of the shapes of the first batch'], budget=120)(_u)
