"""C18: training data keep order, geometry and scale through preprocessing."""
from .common import *
from .c04 import olist, is_

PID = 'C18'
BU = 'menpofit.builder'


class Landmarks(object):
    def __init__(self, im):
        self.im = im

    def __getitem__(self, g):
        return app('landmarks', Opq(self.im.t), g)

    def __setitem__(self, g, s):
        if self.im.given:
            fail('given images are not modified', 'landmark group %s written' % (g,))
        self.im.t = mk_('with_landmarks', Opq(self.im.t), g, s)

    def __delitem__(self, g):
        self[g] = None

    def __vsubst__(self, pairs):
        return self


def mk_(name, *a):
    return app(name, *a).t


class Img(object):
    """contract of menpo.image.Image: operations return new images whose landmarks move with the pixels"""
    __vatomic__ = True
    __vtrusted__ = 'menpo images: rescale, rescale_to_pointcloud, warp_to_mask, extract_patches return new objects ' \
                   'and move the landmarks with the pixels'

    def __init__(self, t, given=False):
        object.__setattr__(self, 't', t)
        object.__setattr__(self, 'given', given)

    def __setattr__(self, k, v):
        if self.given:
            fail('given images are not modified', 'attribute %s written' % k)
        object.__setattr__(self, k, v)

    @property
    def landmarks(self):
        return Landmarks(self)

    @property
    def n_dims(self):
        return 2

    def copy(self):
        return Img(self.t)

    def __enc__(self):
        return self.t

    def __vite__(self, c, b):
        return Img(z3.If(c, self.t, b.t), self.given)

    def __vsubst__(self, pairs):
        return Img(z3.substitute(self.t, *pairs), self.given)

    def rescale(self, scale, round='ceil', order=1, return_transform=False):
        r = Img(mk_('rescaled', self, scale))
        return VTuple([r, app('rescale_transform', self, scale)]) if return_transform else r

    def rescale_to_pointcloud(self, pointcloud, group=None, round='ceil', order=1, return_transform=False):
        if return_transform:
            raise Unsupported('transform of a rescale to a shape')
        return Img(mk_('rescaled_to', self, pointcloud, group))

    def warp_to_mask(self, mask, transform, warp_landmarks=True, order=1, mode='constant', cval=0.0, batch_size=None,
                     return_transform=False):
        return Img(mk_('warped', self, mask, transform, warp_landmarks))

    def extract_patches(self, patch_centers, patch_shape=(16, 16), sample_offsets=None, as_single_array=True, order=0,
                        mode='constant', cval=0.0):
        return app('patches', self, patch_centers, patch_shape, sample_offsets, as_single_array)


def images(n):
    f = z3.Function('image', INT, V)
    return slist('images', n, lambda i: Img(f(i if z3.is_expr(i) else z3.IntVal(i)), given=True))


def spec(n, f):
    g = z3.Function('image', INT, V)
    return slist('spec', n, lambda i: f(Img(g(i if z3.is_expr(i) else z3.IntVal(i))), i if z3.is_expr(i) else z3.IntVal(i)))


def world(**st):
    def scale(f, n_dims=None):
        return Scaling(f)
    s = {'menpo.transform': {'Scale': scale, 'Translation': Shift, 'GeneralizedProcrustesAnalysis': GPA},
         'menpo.shape': {'mean_pointcloud': mean_pointcloud, 'PointCloud': SPointCloud, 'TriMesh': Mesh},
         'menpo.image': {'Image': PatchImage, 'MaskedImage': Frames},
         'menpo.feature': {'no_op': lambda x: x},
         'menpo.visualize': {'print_dynamic': lambda *a, **k: None, 'print_progress': lambda it, **k: it}}
    for k, v in st.items():
        s.setdefault(k.replace('__', '.'), {}).update(v)
    pp = {'print_progress': lambda it, **k: it}
    return World(stubs=s, replace={'menpofit.visualize': pp, 'menpofit.visualize.textutils': pp})


class PatchImage(object):
    def __init__(self, pixels, copy=True):
        self.pixels = pixels

    def __enc__(self):
        return mk_('Image', self.pixels)

    def __vsubst__(self, pairs):
        return PatchImage(subst(self.pixels, pairs))


class Scaling(object):
    def __init__(self, f):
        self.f = f

    def apply(self, s):
        return SPointCloud(s.points * self.f, copy=False)

    def __enc__(self):
        return mk_('Scale', self.f)


class Shift(object):
    def __init__(self, v):
        self.v = v

    def apply(self, s):
        return SPointCloud(s.points + self.v, copy=False)


def mean_pointcloud(shapes):
    shapes = as_vlist(shapes)
    ctx().extra['mean_of'] = shapes
    return SPointCloud(ctx().extra['mean'], copy=False)


class GPA(object):
    """contract of menpo's generalised Procrustes analysis: transform i aligns shape i to the mean"""
    def __init__(self, sources, target=None):
        ctx().extra['gpa'] = self
        self.sources = as_vlist(sources)
        f = z3.Function('aligned', INT, V)
        self.transforms = slist('gpa', SInt(self.sources.zlen()), lambda i: Aligned(Opq(f(i if z3.is_expr(i) else z3.IntVal(i)))))


class Aligned(object):
    def __init__(self, t):
        self.t = t

    def aligned_source(self):
        return Opq(self.t.t)

    def __vsubst__(self, pairs):
        return Aligned(subst(self.t, pairs))


class Mesh(object):
    pass


class Frames(object):
    pass


def index(name, n):
    i = z3.Int(name)
    ctx().assume(z3.And(i >= 0, i < zint(n)))
    return i


TR = ['contract of print_progress: yields every item once, in order (C16)', Img.__vtrusted__]
VERB = (True, False)


@unit(PID, 'rescaling to the reference shape', [BU + ':rescale_images_to_reference_shape'], TR)
def rescale():
    m = world().load(BU)
    n = sint('n', 0)
    ref, grp = opq('ref'), opq('group')
    for v in VERB:
        r = m.rescale_images_to_reference_shape(images(n), grp, ref, verbose=v)
        list_eq('each image rescaled, in order', r, spec(n, lambda im, i: Img(mk_('rescaled_to', im, ref, grp))))


@unit(PID, 'feature extraction', [BU + ':compute_features'], TR)
def feats():
    m = world().load(BU)
    n = sint('n', 0)
    for v in VERB:
        r = m.compute_features(images(n), lambda im: Img(mk_('features', im)), verbose=v)
        list_eq('features of each image, in order', r, spec(n, lambda im, i: Img(mk_('features', im))))


def scaling(rt, m=None):
    m = world().load(BU)
    n = sint('n', 1)
    s = sreal('scale')
    tiny = z3.Q(2, 100000)
    near = z3.And(s.t - 1 <= tiny, 1 - s.t <= tiny)
    r = m.scale_images(images(n), s, return_transforms=rt)
    ims, trs = r if rt else (r, None)
    i = index('i', n)
    a = as_vlist(ims)
    prove('one image per image', a.zlen() == n.t)
    got = a.at(i)
    im = images(n).at(i)
    # an image that is not rescaled is the image itself, only when the scale is (close to) one
    prove('scaled by the factor, in order', z3.Or(enc(got) == mk_('rescaled', im, s), z3.And(near, enc(got) == enc(im))))
    if rt:
        b = as_vlist(trs)
        prove('one transform per image', b.zlen() == n.t)
        prove('transform of the image', z3.Or(
            z3.And(enc(got) == mk_('rescaled', im, s), enc(b.at(i)) == mk_('rescale_transform', im, s)),
            z3.And(near, enc(got) == enc(im), enc(b.at(i)) == mk_('Scale', 1.0))))


for _rt in (True, False):
    unit(PID, 'scaling%s' % (' with transforms' if _rt else ''), [BU + ':scale_images'],
         TR + ['numpy.allclose(s, 1): |s - 1| <= 1e-8 + 1e-5'])(lambda rt=_rt: scaling(rt))


class Warp(object):
    """a warp that can be retargeted"""
    def __init__(self, source, target):
        self.s, self.g = enc(source), enc(target)

    def set_target(self, t):
        self.g = enc(t)

    def __enc__(self):
        return mk_('warp', Opq(self.s), Opq(self.g))


@unit(PID, 'warping', [BU + ':warp_images'], TR)
def warps():
    n = sint('n', 0)
    frame = Img(z3.Const('frame', V), given=True)
    frame.__dict__['mask'] = opq('mask')
    shp = z3.Function('shape', INT, V)
    made = []

    class W(Warp):
        def __init__(self, a, b):
            Warp.__init__(self, a, b)
            made.append(enc(a))
    seen = []

    def pixels(im, mask, tr, wl):
        return Img(mk_('warped', im, mask, tr, wl))
    m = world().load(BU)
    src = app('landmarks', Opq(frame.t), 'source')
    shapes = olist('shape', n)
    r = as_vlist(m.warp_images(images(n), shapes, frame, W, verbose=False))
    prove('one image per image', r.zlen() == n.t)
    i = index('i', n)
    im = images(n).at(i)
    w = Img(mk_('warped', im, opq('mask'), Opq(mk_('warp', src, Opq(shp(i)))), False))
    w.landmarks['source'] = src
    prove('image warped by the warp to its own shape, in order', enc(r.at(i)) == enc(w))


@unit(PID, 'patches', [BU + ':extract_patches'], TR)
def patches():
    m = world().load(BU)
    n = sint('n', 0)
    shp = z3.Function('shape', INT, V)
    ps = opq('patch_shape')
    r = m.extract_patches(images(n), olist('shape', n), ps, normalise_function=lambda p: app('normalised', p))
    list_eq('patches at the own shape, normalised, in order', r, spec(n, lambda im, i: PatchImage(
        app('normalised', app('patches', im, Opq(shp(i)), ps, None, True)))))
    r = m.extract_patches(images(n), olist('shape', n), ps)
    list_eq('patches without normalisation', r, spec(n, lambda im, i: PatchImage(
        app('patches', im, Opq(shp(i)), ps, None, True))))


def clouds(n, k):
    def f(i):
        i = i if z3.is_expr(i) else z3.IntVal(i)
        return SPointCloud(fresh('pts', axes_of(k, 2), params=(i,)), copy=False)
    return slist('clouds', n, f)


@unit(PID, 'reference shape', [BU + ':compute_reference_shape', BU + ':normalization_wrt_reference_shape'],
      TR + ['menpo.shape.mean_pointcloud is the mean of the shapes', 'menpo.transform.Scale(f).apply multiplies by f'])
def reference():
    m = world().load(BU)
    n, k = sint('n', 1), sint('k', 1)
    mean = fresh('mean', axes_of(k, 2))
    ctx().extra['mean'] = mean
    fr = Frame(mean=mean)
    shapes = clouds(n, k)
    D = sreal('diagonal')
    ctx().assume(D.t > 0)
    lo, hi = T.reduce_op('min', mean, 0), T.reduce_op('max', mean, 0)
    h, w = at(hi, 0) - at(lo, 0), at(hi, 1) - at(lo, 1)
    i = index('i', k)
    for verbose in VERB:
        r = m.compute_reference_shape(shapes, None, verbose=verbose)
        for c in (0, 1):
            prove('no diagonal: the mean', at(r.points, i, z3.IntVal(c)) == at(mean, i, z3.IntVal(c)))
        prove('mean of the given shapes', ctx().extra['mean_of'] is shapes)
    ctx().assume(h * h + w * w > 0)
    r = m.compute_reference_shape(shapes, D)
    diag = rsqrt(h * h + w * w)
    for c in (0, 1):
        prove('the mean resized to the diagonal, coordinate %d' % c,
              at(r.points, i, z3.IntVal(c)) * diag == at(mean, i, z3.IntVal(c)) * D.t)
    prove('mean of the given shapes', ctx().extra['mean_of'] is shapes)
    fr.check('mean not modified')


@unit(PID, 'normalisation', [BU + ':normalization_wrt_reference_shape'], TR)
def normalise():
    m = world().load(BU)
    n = sint('n', 1)
    grp, D = opq('group'), opq('diag')
    got = {}

    def ref(shapes, diagonal, verbose=False):
        got['shapes'], got['diag'] = shapes, diagonal
        return opq('REF')
    m.compute_reference_shape = ref
    a, b = m.normalization_wrt_reference_shape(images(n), grp, D)
    prove('reference shape returned', enc(a) == enc(opq('REF')))
    prove('own diagonal', enc(got['diag']) == enc(D))
    list_eq('from the landmarks of every image', got['shapes'], spec(n, lambda im, i: app('landmarks', im, grp)))
    list_eq('every image rescaled to it', b, spec(n, lambda im, i: Img(mk_('rescaled_to', im, opq('REF'), grp))))


@unit(PID, 'alignment', [BU + ':align_shapes'],
      ['menpo.transform.GeneralizedProcrustesAnalysis: aligned_source of transform i is shape i aligned to the mean'])
def align():
    m = world().load(BU)
    n, k = sint('n', 1), sint('k', 1)
    shapes = clouds(n, k)
    r = m.align_shapes(shapes)
    g = ctx().extra['gpa']
    al = z3.Function('aligned', INT, V)
    list_eq('aligned shape of each shape, in order', r, slist('al', n, lambda i: Opq(al(i if z3.is_expr(i) else z3.IntVal(i)))))
    i, p = index('i', n), index('p', k)
    prove('every shape aligned', g.sources.zlen() == n.t)
    x, y = shapes.at(i).points, g.sources.at(i).points
    for c in (0, 1):
        zc = z3.IntVal(c)
        prove('shapes aligned up to their position, coordinate %d' % c,
              at(y, p, zc) - at(x, p, zc) == at(y, z3.IntVal(0), zc) - at(x, z3.IntVal(0), zc))


@unit(PID, 'dense shapes', [BU + ':densify_shapes'], ['numpy.vstack'])
def dense():
    m = world().load(BU)
    n, k, q = sint('n', 1), sint('k', 1), sint('pixels', 1)
    src = opq('src')
    true = fresh('true', axes_of(q, 2))
    D = z3.Function('warped_x', V, V, INT, INT, REAL)
    PT = z3.Function('p', INT, INT, INT, REAL)

    class Shape(object):
        def __init__(self, i):
            self.i = i
            self.points = STensor(axes_of(k, 2), lambda idx: PT(i, idx[0][0], idx[1][0]), 'r')

        def __enc__(self):
            return z3.Function('S', INT, V)(self.i)

        def __vsubst__(self, pairs):
            return Shape(z3.substitute(self.i, *pairs))

    class Tr(object):
        def __init__(self, s, t):
            self.s, self.t = enc(s), enc(t)

        def apply(self, x):
            prove('warps the pixels of the frame', x is true or provable(T.tensor_eq(x, true)))
            return STensor(axes_of(q, 2), lambda idx: D(self.s, self.t, idx[0][0], idx[1][0]), 'r')

        def __vsubst__(self, pairs):
            r = object.__new__(Tr)
            r.s, r.t = z3.substitute(self.s, *pairs), z3.substitute(self.t, *pairs)
            return r

        def __enc__(self):
            return mk_('Tr', Opq(self.s), Opq(self.t))

    class M(object):
        def true_indices(self):
            return true

    class F(object):
        landmarks = {'source': src}
        mask = M()
    shapes = slist('shapes', n, lambda i: Shape(i if z3.is_expr(i) else z3.IntVal(i)))
    r = as_vlist(m.densify_shapes(shapes, F(), Tr))
    prove('one per shape', r.zlen() == n.t)
    i = index('i', n)
    d = r.at(i).points
    prove('sparse and dense points', zint(d.shape[0]) == k.t + q.t)
    a, b = index('a', k), index('b', q)
    S = z3.Function('S', INT, V)
    for c in (0, 1):
        zc = z3.IntVal(c)
        prove('own points first', at(d, a, zc) == PT(i, a, zc))
        prove('then the pixels warped to the own shape', at(d, k.t + b, zc) == D(enc(src), S(i), b, zc))


@unit(PID, 'reference frames', [BU + ':build_reference_frame', BU + ':build_patch_reference_frame'],
      ['menpo.image.MaskedImage.init_from_pointcloud: an image that contains the shape with the given boundary'])
def frames():
    m = world().load(BU)
    got = []

    class MI(object):
        @staticmethod
        def init_from_pointcloud(pc, group=None, boundary=0, n_channels=1, constrain_mask=True, fill=0, dtype=None,
                                 return_transform=False):
            got.append((pc, group, boundary, constrain_mask))
            return Fr()

    class Fr(object):
        def constrain_mask_to_patches_around_landmarks(self, patch_shape, group=None):
            got.append((patch_shape, group))
            return ('frame',)
    m.MaskedImage = MI
    lm, grp = Mesh(), opq('grp')
    b = sint('boundary', 0)
    r = m.build_reference_frame(lm, boundary=b, group=grp)
    pc, g, bd, cm = got[0]
    prove('frame of the landmarks', pc is lm and isinstance(r, Fr))
    prove('in the group', enc(g) == enc(grp))
    prove('with the margin', zint(bd) >= b.t)
    prove('masked to the shape', cm is True)
    del got[:]
    h, w = sint('h', 1), sint('w', 1)
    ps = VTuple([h, w])
    r = m.build_patch_reference_frame(lm, boundary=b, group=grp, patch_shape=ps)
    (pc, g, bd, cm), (p, g2) = got
    prove('patch frame of the landmarks', pc is lm and r == ('frame',))
    prove('patch frame group', z3.And(enc(g) == enc(grp), enc(g2) == enc(grp)))
    bd = val(bd) if isinstance(bd, STensor) else zreal(bd)
    prove('margin holds half of every patch', z3.And(bd >= z3.ToReal(b.t), 2 * bd >= z3.ToReal(h.t), 2 * bd >= z3.ToReal(w.t)))
    prove('masked to the patches', equal_values(p, ps))
