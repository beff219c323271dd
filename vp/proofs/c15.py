"""C15: residuals, gradients and Hessians are consistent with their cost."""
from .common import *
from .algs import TransformState
from ..engine import cplx
from ..engine import prove as PV
from ..engine.core import ite

PID = 'C15'
LK = 'menpofit.aam.algorithm.lk'
AT = 'menpofit.atm.algorithm'
GN = 'menpofit.aps.algorithm.gn'
RE = 'menpofit.lk.residual'
Z = z3.IntVal


def sizes(*names):
    return [sint(n, 1) for n in names]


def fs_of(t, j):
    return tuple(t.axes[j])


# ------------------------------------------------------------------ contracts
def derivatives(X):
    """the two derivatives of an array: functions of its content"""
    return contents(X, 'derivative', 2)


def contents(X, name, n):
    """n arrays of the shape of X, functions of its content"""
    c = ctx()
    tab = c.extra.setdefault(name, [])
    X = T.as_tensor(X).copy()
    e = X.frozen()
    Y = STensor(X.axes, e, 'r')
    fs = [f for a in X.axes for f in a]
    vs = tuple((z3.Int('dv!%d' % k),) for k in range(len(fs)))
    key = z3.simplify(zreal(wrap(Y.at(regroup(X.axes, [v[0] for v in vs])))))
    for axes, k2, t, fn in tab:
        if [len(a) for a in axes] == [len(a) for a in X.axes] and all(
                T.deq(x, y) for a, b in zip(axes, X.axes) for x, y in zip(a, b)):
            if k2.eq(key) or PV.provable(T.tensor_eq(Y, t)):
                break
    else:
        fn = [z3.Function(c.fresh('%s%d' % (name, d)), *([INT] * len(fs) + [REAL])) for d in range(n)]
        tab.append((X.axes, key, Y, fn))
    return [STensor(X.axes, lambda idx, f=f: f(*[q for i in idx for q in i]), 'r') for f in fn]


def regroup(axes, vs):
    out, p = [], 0
    for a in axes:
        out.append(tuple(Z(0) if T.is1((f,)) else v for f, v in zip(a, vs[p:p + len(a)])))
        p += len(a)
    return out


def gradient_of(X):
    """menpo.feature.gradient of (K, h, w) pixels: (2, K) channels, derivatives along the rows first"""
    a, b = derivatives(X)
    ea, eb = a.frozen(), b.frozen()
    axes = [(2,) + tuple(X.axes[0])] + list(X.axes[1:])
    return STensor(axes, lambda idx: z3.If(idx[0][0] == 0, ea([tuple(idx[0][1:])] + list(idx[1:])),
                                           eb([tuple(idx[0][1:])] + list(idx[1:]))), 'r')


GRAD = 'menpo.feature.gradient: the derivative of each channel along rows, then of each along columns, a function ' \
       'of the pixels; set_boundary_pixels of a copy; warp_to_mask samples each channel at the warped pixels of the frame'


# ------------------------------------------------------------------ holistic interfaces
class Mask(object):
    def __init__(self, ix):
        self.ix = ix

    def true_indices(self):
        return self.ix.copy()


class Masked(object):
    """a masked image: the n pixels of the mask, for every channel"""
    __vtrusted__ = GRAD
    n_dims = 2

    def __init__(self, v, mask=None, bnd=None):
        self.v, self.mask, self.bnd = v, mask, bnd      # v (channels, n)

    n_channels = property(lambda s: s.v.shape[0])

    def n_true_pixels(self):
        return self.v.shape[1]

    def as_vector(self, **k):
        return T.reshape(self.v, (-1,)).copy()

    def masked_pixels(self):
        return self.v.copy()

    def copy(self):
        return Masked(self.v.copy(), self.mask, self.bnd)

    def set_boundary_pixels(self, value=0.0, n_pixels=1):
        if n_pixels != 1:
            raise Unsupported('boundary of another width')
        e = self.v.frozen()
        val = zreal(value)
        return Masked(STensor(self.v.axes, lambda idx: z3.If(self.bnd(idx[1][0]), val, e(idx)), 'r'), self.mask, self.bnd)


class Gradients(object):
    """the derivative of given images"""
    def __init__(self):
        self.of = []

    def add(self, im):
        C, n = im.v.axes
        D = fresh('derivative%d' % len(self.of), [(2,) + tuple(C), n])
        self.of.append((im, im.v.frozen(), D))
        return D

    def __call__(self, im):
        for a, e, D in self.of:
            if a is im:
                prove_eq('the gradient is of the image given', im.v, STensor(im.v.axes, e, 'r'))
                return Masked(D.copy(), im.mask, im.bnd)
        fail('the gradient is of the image given', 'another image')


def select(n, kind):
    """(sampling argument, its set of pixels)"""
    if kind == 'all':
        return None, lambda j: z3.BoolVal(True)
    if kind == 'step':
        s = sint('step', 1)
        return s, lambda j: j % s.t == 0
    if kind == 'mask':
        b = fresh('sampled', axes_of(n), 'b')
        return b, lambda j: b.at([(j,)])
    m = sint('m', 1)
    ix = fresh('positions', axes_of(m), 'i')
    q = z3.Int('member!')
    e = ix.frozen()
    c = ctx()
    return ix, lambda j: z3.Exists([q], z3.And(q >= 0, q < m.t, z3.Or(e([(q,)]) == j, e([(q,)]) + n.t == j)))


def selection(n, member):
    """the selected pixels in order: count, position"""
    m = STensor([(n.t,)], lambda idx: member(idx[0][0]), 'b')
    info = T.nonzero_info(m)
    if info.sels is None:
        return n.t, lambda k: k
    return info.count, lambda k: info.position((k,))[0][0]


HOLISTIC = [(LK, 'LucasKanadeStandardInterface', lambda c, tr, t, s: c(None, tr, t, sampling=s)),
            (LK, 'LucasKanadeLinearInterface', lambda c, tr, t, s: c(None, tr, t, sampling=s)),
            (AT, 'ATMLucasKanadeStandardInterface', lambda c, tr, t, s: c(tr, t, sampling=s)),
            (AT, 'ATMLucasKanadeLinearInterface', lambda c, tr, t, s: c(tr, t, sampling=s))]


class Warp(object):
    __vtrusted__ = 'the transform of an interface: d_dp gives its derivative at the given pixels (C08)'
    n_dims = 2

    def __init__(self, n, P, at_):
        self.n_parameters = P
        self.D = fresh('dW', axes_of(n, P, 2))
        self.at_ = at_

    def d_dp(self, x):
        if self.at_ is None:
            prove('derivative at the points of the shape', x is None)
        elif x is None:
            fail('the warp is differentiated at the pixels of the mask', 'None')
        else:
            prove_eq('the warp is differentiated at the pixels of the mask', x, self.at_)
        return self.D.copy()


def holistic(mod, name, make, kind):
    g = Gradients()
    m = World(stubs={'menpo.feature': {'gradient': g, 'no_op': lambda x: x}}).load(mod)
    C, n, P = sizes('C', 'n', 'P')
    ix = fresh('pixels_of_mask', axes_of(n, 2), 'i')
    bnd = z3.Function('on_boundary', INT, BOOL)
    arg, member = select(n, kind)
    t = Masked(fresh('template', axes_of(C, n)), Mask(ix), bnd)
    x = Masked(fresh('warped', axes_of(C, n)), Mask(ix), bnd)
    D = g.add(x)
    tr = Warp(n, P, ix)
    fr = Frame(t=t.v, x=x.v, ix=ix, **({'arg': arg} if isinstance(arg, STensor) else {}))
    I = make(getattr(m, name), tr, t, arg)
    cnt, sel = selection(n, member)
    C, n, P = C.t, n.t, P.t
    ctx().assume(cnt >= 1)
    c, k, p, d = [z3.Int(v) for v in 'ckpd']
    ctx().assume(z3.And(c >= 0, c < C, k >= 0, k < cnt, p >= 0, p < P, d >= 0, d < 2))
    v = fresh('vector', [(C, n)])
    got = v[I.i_mask]
    prove('one entry for each channel and selected pixel', zint(got.shape[0]) == C * cnt)
    prove_eq('the selected pixels of every channel, in order', got,
             STensor([(C, cnt)], lambda idx: v.at([(idx[0][0], sel(idx[0][1]))]), 'r'))
    def uses(x, D, W):
        dw = I.warp_jacobian()
        DW = lambda d, k, p: W.at([(sel(k),), (p,), (d,)])
        prove_eq('the derivative of the warp at the selected pixels', dw,
                 STensor([(2,), (cnt,), (P,)], lambda idx: DW(idx[0][0], idx[1][0], idx[2][0]), 'r'))
        na = I.gradient(x)
        G = lambda d, c, k: z3.If(bnd(k), z3.RealVal(0), D.at([(d, c), (k,)]))
        prove_eq('gradients of the pixels of the mask, zero at its boundary', na,
                 STensor([(2,), (C,), (n,)], lambda idx: G(idx[0][0], idx[1][0], idx[2][0]), 'r'))
        for s in (1, -1):
            J = I.steepest_descent_images(na if s == 1 else -na, dw)
            prove_eq('steepest descent images: derivative of the image times that of the warp, at the selected pixels', J,
                     STensor([(C, cnt), (P,)], lambda idx: s * sum(
                         G(Z(d), idx[0][0], sel(idx[0][1])) * DW(Z(d), idx[0][1], idx[1][0]) for d in (0, 1)), 'r'))
    uses(x, D, tr.D)
    # the transform moves, another image
    x2 = Masked(fresh('warped2', axes_of(*[wrap(q) for q in (C, n)])), Mask(ix), bnd)
    tr.D = fresh('dW2', axes_of(*[wrap(q) for q in (n, P)], 2))
    uses(x2, g.add(x2), tr.D)
    fr.check()


for _m, _n, _f in HOLISTIC:
    for _k in ('all', 'step', 'mask', 'positions'):
        unit(PID, 'interface %s sampling %s' % (_n, _k),
             [LK + ':LucasKanadeBaseInterface.' + f for f in ('__init__', '_build_sampling_mask', 'warp_jacobian', 'gradient',
                                                              'steepest_descent_images', 'true_indices')] +
             [_m + ':' + _n + '.__init__'], [GRAD, Warp.__vtrusted__, 'np.nonzero lists the true entries in row major order'],
             budget=60)(lambda m=_m, n=_n, f=_f, k=_k: holistic(m, n, f, k))


# ------------------------------------------------------------------ patch interfaces
class Patches(object):
    __vtrusted__ = 'menpo Image of patches: pixels (points, offsets, channels, rows, columns)'

    def __init__(self, px):
        self.pixels = px

    def as_vector(self):
        return T.reshape(self.pixels, (-1,)).copy()


def gn(cls, tr, t, s, shape):
    a = [opq(x) for x in ('am', 'dm', 'w')]
    return cls(a[0], a[1], tr, a[2], True, t, s, shape, None)


PATCHY = [(LK, 'LucasKanadePatchInterface', lambda c, tr, t, s, sh: c(None, tr, t, sampling=s, patch_shape=sh)),
          (AT, 'ATMLucasKanadePatchInterface', lambda c, tr, t, s, sh: c(tr, t, sampling=s, patch_shape=sh)),
          (GN, 'GaussNewtonBaseInterface', gn)]


def merged(X):
    """patches as channels"""
    return T.reshape(X, (T.Composite([f for a in X.axes[:3] for f in a]),) + tuple(T.Composite(list(a)) for a in X.axes[3:]))


def patchy(mod, name, make, masked):
    def grad(x):
        x = T.as_tensor(x)
        if x.ndim != 3:
            fail('gradients of each patch', 'pixels of %d axes' % x.ndim)
        return gradient_of(x)
    m = World(stubs={'menpo.feature': {'gradient': grad, 'no_op': lambda x: x}, 'menpo.image': {'Image': Patches}}).load(mod)
    n, o, C, P = sizes('n', 'o', 'C', 'P')
    h, w = sint('h', 2), sint('w', 2)
    t = Patches(fresh('template', axes_of(n, o, C, h, w)))
    X = fresh('patches', axes_of(n, o, C, h, w))
    x = Patches(X)
    tr = Warp(n, P, None)
    b = fresh('sampled', axes_of(h, w), 'b') if masked else None
    fr = Frame(t=t.pixels, x=X, D=tr.D, **({'b': b} if masked else {}))
    I = make(getattr(m, name), tr, t, b, VTuple([h, w]))
    lead = [n.t, o.t, C.t]
    if masked:
        info = T.nonzero_info(b)
        cnt = info.count
        ctx().assume(cnt >= 1)
        tail = (cnt,)
        pos = lambda i: [j[0] for j in info.position(i)]
    else:
        tail = (h.t, w.t)
        pos = lambda i: list(i)
    v = fresh('vector', [(n.t, o.t, C.t, h.t, w.t)])
    got = v[I.i_mask]
    prove_eq('the selected pixels of every patch, in order', got,
             STensor([tuple(lead) + tail], lambda idx: v.at([tuple(idx[0][:3]) + tuple(pos(idx[0][3:]))]), 'r'))
    def uses(x, X, W):
        dw = I.warp_jacobian() if name != 'GaussNewtonBaseInterface' else I.ds_dp()
        DW = lambda d, i, p: W.at([(i,), (p,), (d,)])
        prove_eq('the derivative of the points', dw,
                 STensor([(2,), (n.t,), (P.t,)], lambda idx: DW(idx[0][0], idx[1][0], idx[2][0]), 'r'))
        if name == 'GaussNewtonBaseInterface':
            prove_eq('the derivative of the shape vector', I.ds_dp_vectorized(),
                     STensor([(n.t, 2), (P.t,)], lambda idx: DW(idx[0][1], idx[0][0], idx[1][0]), 'r'))
        na = I.gradient(x)
        da, db = derivatives(merged(X))
        da, db = [T.reshape(q, tuple(T.Composite(list(f)) for f in X.axes)) for q in (da, db)]

        def G(d, idx):
            return z3.If(d == 0, da.at(idx), db.at(idx))
        prove_eq('gradients of each patch, rows then columns', na,
                 STensor([(2,)] + list(X.axes), lambda idx: G(idx[0][0], list(idx[1:])), 'r'))
        for s in (1, -1):
            J = I.steepest_descent_images(na if s == 1 else -na, dw)

            def elem(idx):
                r = idx[0]
                ix = [(r[0],), (r[1],), (r[2],)] + [(q,) for q in pos(r[3:])]
                return s * (da.at(ix) * DW(Z(0), r[0], idx[1][0]) + db.at(ix) * DW(Z(1), r[0], idx[1][0]))
            prove_eq('steepest descent images: derivative of the patch times that of its point, at the selected pixels', J,
                     STensor([tuple(lead) + tail, (P.t,)], elem, 'r'))
    uses(x, X, tr.D)
    # the transform moves, another image
    X2 = fresh('patches2', axes_of(n, o, C, h, w))
    fr2 = Frame(X2=X2)
    tr.D = fresh('dW2', axes_of(n, P, 2))
    uses(Patches(X2), X2, tr.D)
    fr2.check()
    fr.check()


for _m, _n, _f in PATCHY:
    for _k in (False, True):
        unit(PID, 'interface %s %s' % (_n, 'sampling mask' if _k else 'all pixels'),
             [(GN + ':GaussNewtonBaseInterface.' if _m == GN else LK + ':LucasKanadePatchBaseInterface.') + f
              for f in ('__init__', '_build_sampling_mask', 'gradient', 'steepest_descent_images')] +
             [GN + ':GaussNewtonBaseInterface.ds_dp', GN + ':GaussNewtonBaseInterface.ds_dp_vectorized'] * (_m == GN) +
             [LK + ':LucasKanadePatchBaseInterface.warp_jacobian'] * (_m != GN), [GRAD, Warp.__vtrusted__], budget=60)(
            lambda m=_m, n=_n, f=_f, k=_k: patchy(m, n, f, k))


# ------------------------------------------------------------------ residuals
class Im(object):
    """an image that its mask covers"""
    __vtrusted__ = GRAD
    n_dims = 2

    def __init__(self, px, mask=None, own=True):
        self.__dict__.update(_px=px, mask=mask, own=own)

    def __setattr__(self, k, v):
        if not self.own:
            fail('inputs are not modified', 'attribute %s written' % k)
        if k == 'pixels':
            self.__dict__['_px'] = T.as_tensor(v)
        else:
            self.__dict__[k] = v

    pixels = property(lambda s: s._px)
    n_channels = property(lambda s: s._px.shape[0])
    shape = property(lambda s: VTuple([s._px.shape[1], s._px.shape[2]]))
    n_parameters = property(lambda s: s._px.size)
    n_elements = property(lambda s: s._px.size)

    def as_vector(self, **k):
        r = T.reshape(self._px, (-1,)).copy()
        return r

    def masked_pixels(self):
        return self._px

    def copy(self):
        return Im(self._px.copy(), self.mask)

    def as_vector_(self):
        return self.as_vector()

    def from_vector_inplace(self, v, copy=True):
        if not self.own:
            fail('inputs are not modified', 'pixels written')
        C, h, w = self._px.axes
        self.__dict__['_px'] = T.reshape(T.as_tensor(v), tuple(T.Composite(list(a)) for a in (C, h, w))).copy()
    _from_vector_inplace = from_vector_inplace

    def from_vector(self, v, **k):
        r = self.copy()
        r.from_vector_inplace(v)
        return r

    def set_boundary_pixels(self, value=0.0, n_pixels=1):
        if n_pixels != 1:
            raise Unsupported('boundary of another width')
        return Im(inside(self._px, value), self.mask)

    def normalize_norm(self, mode='all', limit_to_mask=True):
        if mode != 'all':
            raise Unsupported('normalisation per channel')
        return Im(normalised(self._px), self.mask)

    def warp_to_mask(self, mask, transform, warp_landmarks=True, **k):
        if k:
            raise Unsupported('warp options')
        ctx().extra['warp'](self, mask, transform)
        return Im(ctx().extra['warped'].copy(), mask)


def inside(X, value=0.0):
    e = X.frozen()
    h, w = [T.zi(T.dprod(a)) for a in X.axes[-2:]]

    def elem(idx):
        y, x = idx[-2][0], idx[-1][0]
        return z3.If(z3.And(y > 0, y < h - 1, x > 0, x < w - 1), e(idx), zreal(value))
    return STensor(X.axes, elem, 'r')


def normalised(X):
    """zero mean and unit norm: a function of the content"""
    return contents(X, 'normalised', 1)[0]


def norm2(v):
    return wrap(rsqrt(zreal(T.reduce_sum(v * v))))


def sums_of(n, f):
    return ssum(n, f)


def image_grad(X):
    """(2, C) channels: the gradient of an image, zero at its border"""
    return inside(gradient_of(X))


def parts(G):
    """the two derivatives of a gradient"""
    e = G.frozen()
    axes = [tuple(G.axes[0][1:])] + list(G.axes[1:])
    return [STensor(axes, lambda idx, k=k: e([(Z(k),) + tuple(idx[0])] + list(idx[1:])), 'r') for k in (0, 1)]


def pair(ts):
    """two arrays of C channels as one of (2, C)"""
    es = [T.as_tensor(t).frozen() for t in ts]
    axes = [(2,) + tuple(ts[0].axes[0])] + list(ts[0].axes[1:])
    return STensor(axes, lambda idx: z3.If(idx[0][0] == 0, *[e([tuple(idx[0][1:])] + list(idx[1:])) for e in es]), 'r')


def regular(G):
    """each gradient divided by its magnitude plus the median of the magnitudes"""
    a = np_sqrt(T.as_tensor(T.reduce_sum(G * G, 0)))
    return T.as_tensor(G / T.as_tensor(a + T.reduce_op('median', a)))


def direction(G):
    d = parts(G)
    phi = cplx.arctan2(d[0], d[1])
    return np_sin(phi), np_cos(phi)


def times(ds, dW):
    """sum over the axes of (C..., h, w) derivatives times (h, w, P)"""
    return T.as_tensor(sum(T.as_tensor(x)[..., None] * dW[k][None] for k, x in enumerate(ds)))


def flat(S):
    """(..., h, w, P) as rows"""
    return T.reshape(S, (-1, wrap(T.zi(T.dprod(S.axes[-1])))))


def rows(S):
    if isinstance(S, cplx.CTensor):
        return S._map(flat)
    return flat(S)


def same(name, a, b):
    ca, cb = isinstance(a, cplx.CTensor), isinstance(b, cplx.CTensor)
    if ca or cb:
        ar, ai = (a.re, a.im) if ca else (a, None)
        br, bi = (b.re, b.im) if cb else (b, None)
        prove_eq(name + ' (real part)', ar, br)
        if ca and cb:
            prove_eq(name + ' (imaginary part)', ai, bi)
        else:
            prove(name + ': one is complex', False)
    else:
        prove_eq(name, a, b)


class Lin(object):
    """scipy.linalg"""
    def __init__(self):
        self.of = []

    def inv(self, H):
        r = fresh('H_inv%d' % len(self.of), H.axes)
        self.of.append((H.copy(), r))
        return r.copy()

    def norm(self, v, *a):
        if a:
            raise Unsupported('norm of another order')
        return norm2(T.as_tensor(v))


from ..engine.shim import np_sqrt, NpShim as _Np
from ..engine.core import rsqrt
_np_ = _Np()
np_sin, np_cos = _np_.sin, _np_.cos


def second(U):
    """derivative d of component k of (2, C) channels: S[d][k], mixed derivatives identified, zero at the border"""
    S = [parts(x) for x in parts(inside(gradient_of(U)))]
    S[1][0] = S[0][1]
    return S


class Spec(object):
    def __init__(self, name, K):
        self.name, self.K = name, K

    def images(self, X, dW, warped=None):
        """the steepest descent images: of the gradient of X (or of that gradient warped)"""
        n = self.name
        P = normalised(X) if n == 'ECC' else X
        G = image_grad(P) if warped is None else warped
        d = parts(G)
        if n in ('SSD', 'FourierSSD', 'ECC'):
            s = times(d, dW)
            if n == 'FourierSSD':
                F = cplx.fftn(s, axes=(-3, -2))
                f = F if self.K is None else F * T.as_tensor(self.K)[..., None]
                return rows(f), rows(F)
            f = s
            if self.K is not None:
                f = cplx.ifftn(cplx.fftn(s, axes=(-3, -2)) * T.as_tensor(self.K)[..., None], axes=(-3, -2))
            return rows(f), rows(s)
        if n == 'GradientImages':
            S = second(regular(G))
            # derivative along d of both components against the motion along d
            r = T.as_tensor(sum(pair(S[k])[..., None] * dW[k][None] for k in (0, 1)))
            return rows(r), rows(r)
        sn, cs = direction(G)
        S = second(pair([sn, cs]))
        wt = [cs, -sn]
        r = T.as_tensor(sum((T.as_tensor(wt[e] * S[e][k]))[..., None] * dW[k][None] for e in (0, 1) for k in (0, 1)))
        return rows(r), rows(r)


def residual_unit(name, kernel, fwd):
    lin = Lin()
    import types
    lg = types.SimpleNamespace(inv=lin.inv, norm=lin.norm)
    sp = types.SimpleNamespace(linalg=lg)

    def grad(im):
        if isinstance(im, Im):
            return Im(gradient_of(im.pixels), im.mask)
        raise Unsupported('gradient of an array')
    m = World(stubs={'menpo.feature': {'gradient': grad}, 'numpy.fft': cplx.FFT,
                     'scipy.linalg': {'inv': lin.inv, 'norm': lin.norm}, 'scipy': {'linalg': lg}}).load(RE)
    C, P = sizes('C', 'P')
    h, w = sint('h', 2), sint('w', 2)
    K = None
    if kernel:
        K = fresh('kernel', axes_of(C, h, w) if kernel == 3 else axes_of(h, w))
    R = getattr(m, name)(*([K] if kernel else []))
    S = Spec(name, K)
    T_ = fresh('template', axes_of(C, h, w))
    I_ = fresh('warped', axes_of(C, h, w))
    mt = opq('mask')
    t, i = Im(T_, mt, own=False), Im(I_, mt, own=False)
    dW = fresh('dW', axes_of(2, h, w, P))
    fr = Frame(template=T_, image=I_, dW=dW, **({'K': K} if kernel else {}))
    if not fwd:
        # the residual has served another template before
        C1, h1, w1, P1 = sizes('C1', 'h1', 'w1', 'P1')
        R.steepest_descent_images(Im(fresh('earlier', axes_of(*([C1, h, w] if kernel == 2 else [C, h, w] if kernel else
                                                              [C1, h1, w1]))), mt, own=False),
                                  fresh('dW1', axes_of(2, *([h, w] if kernel else [h1, w1]), P1)))
        f, s = R.steepest_descent_images(t, dW)
        rf, rs = S.images(T_, dW)
    else:
        h0, w0 = sint('h0', 2), sint('w0', 2)
        X = fresh('image', axes_of(C, h0, w0))
        x = Im(X, opq('mask0'), own=False)
        tr = opq('transform')
        W = fresh('warped_gradient', [(2, C.t), (h.t,), (w.t,)])

        def warp(im, mask, transform):
            prove('onto the frame of the template', mask is mt)
            prove('with the transform', transform is tr)
            prove_eq('the gradient of the image is warped', im.pixels, gradient_of(normalised(X) if name == 'ECC' else X))
        ctx().extra.update(warp=warp, warped=W)
        f, s = R.steepest_descent_images(x, dW, forward=VTuple([t, tr]))
        rf, rs = S.images(X, dW, W)
    same('filtered steepest descent images', f, rf)
    same('steepest descent images', s, rs)
    # the Hessian and the update of whatever images they are given
    def anyset(t, like):
        ax = [(2,) * (name == 'GradientImages') + (C.t, h.t, w.t), (P.t,)]
        if isinstance(like, cplx.CTensor):
            return cplx.CTensor(fresh(t + '.re', ax), fresh(t + '.im', ax))
        return fresh(t, ax)
    one = f is s
    f = anyset('filtered', f)
    s = f if one else anyset('plain', s)
    H = R.hessian(f, sdi2=s)
    conj = lambda a: a.conj() if isinstance(a, cplx.CTensor) else a
    tdot = lambda a, b: conj(a).T.dot(b)
    if name == 'SSD':
        conj = lambda a: a
    same('Hessian: product of the two sets', H, tdot(f, s))
    if name != 'ECC':
        same('Hessian of one set: product with itself', R.hessian(s), tdot(s, s))
    if name == 'ECC':
        prove('the Hessian is inverted', len(lin.of) == 1)
        prove_eq('the inverse is of the Hessian', lin.of[0][0], H)
        Hi = lin.of[0][1]
    def step(i, t, I_, T_):
        u = R.steepest_descent_update(f, i, t)
        cost = R.cost_closure()
        D = T.as_tensor(I_ - T_)
        vec = lambda a: T.reshape(T.as_tensor(a), (-1,))
        if name in ('SSD', 'FourierSSD'):
            filt = None if K is None else cplx.ifftn(cplx.fftn(D, axes=(-2, -1)) * T.as_tensor(K), axes=(-2, -1))
            if name == 'SSD':
                same('update: filtered images times the difference', u, f.T.dot(vec(D)))
            else:
                same('update: filtered spectra times the spectrum of the difference', u, f.conj().T.dot(cplx.fft2(D).ravel()))
            c = vec(D).dot(vec(D)) if filt is None else vec(D).dot(vec(filt.re))
            prove_eq('cost: weighted squared difference', cost, c)
        elif name == 'ECC':
            a, b = vec(normalised(I_)), vec(normalised(T_))
            Ga, Gb = f.T.dot(a), f.T.dot(b)
            n1 = norm2(a)
            num2 = Ga.dot(Hi.dot(Ga))
            num = n1 * n1 - num2
            den = b.dot(a) - Gb.dot(Hi.dot(Ga))
            den3 = Gb.dot(Hi.dot(Gb))
            l1, l2 = wrap(rsqrt(zreal(num2 / den3))), -den / den3
            l = ite(den > 0, num / den, ite(l1 > l2, l1, l2))
            prove_eq('update: images times the difference of the scaled image and the template', u, f.T.dot(T.as_tensor(l * a - b)))
            prove_eq('cost: correlation of the normalised images', cost, a.dot(b))
        else:
            gi, gt = image_grad(I_), image_grad(T_)
            if name == 'GradientImages':
                e = vec(T.as_tensor(regular(gi) - regular(gt)))
                prove_eq('update: images times the difference of the normalised gradients', u, f.T.dot(e))
                prove_eq('cost: squared difference of the normalised gradients', cost, e.dot(e))
            else:
                (si, ci), (st, ct) = direction(gi), direction(gt)
                e = vec(T.as_tensor(ct * si - st * ci))
                q = T.reduce_sum(T.as_tensor(ct * ci + st * si))
                N = wrap(z3.ToReal(C.t * h.t * w.t))
                prove_eq('update: images times the sines of the angles between the gradients', u, T.as_tensor((N / q) * f.T.dot(e)))
                prove_eq('cost: inverse of the mean cosine of the angles', cost, 1 / (N / q))
    step(i, t, I_, T_)
    # another image and another template
    I2, T2 = fresh('image2', axes_of(C, h, w)), fresh('template2', axes_of(C, h, w))
    step(Im(I2, mt, own=False), Im(T2, mt, own=False), I2, T2)
    fr.check()


for _n in ('SSD', 'FourierSSD', 'ECC', 'GradientImages', 'GradientCorrelation'):
    for _k in ((0, 2, 3) if 'SSD' in _n else (0,)):
        for _f in (False, True):
            unit(PID, '%s%s%s' % (_n, ['', '', ' kernel of one channel', ' kernel'][_k], ' forward' if _f else ''),
                 [RE + ':' + _n + '.' + x for x in ('steepest_descent_images', 'hessian', 'steepest_descent_update',
                                                    'cost_closure')] + [RE + ':Residual.gradient'],
                 [GRAD, 'fftn / ifftn: the discrete Fourier transform of its definition, inverse of each other',
                  'scipy.linalg.inv is the inverse'], budget=120)(lambda n=_n, k=_k, f=_f: residual_unit(n, k, f))
