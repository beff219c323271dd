"""C15 runtime contracts: residuals, gradients and Hessians are consistent with their cost."""
from .models import *

PID = 'C15'
RES = ['SSD', 'FourierSSD', 'ECC', 'GradientImages', 'GradientCorrelation']


def masked(px):
    from menpo.image import MaskedImage
    return MaskedImage(np.array(px, float))


def edge0(g):
    """the gradient is not defined on the boundary"""
    g = np.array(g)
    z = np.zeros(g.shape[-2:], bool)
    z[1:-1, 1:-1] = True
    g[..., ~z] = 0
    return g


def grad(px):
    """(2, channels, h, w): derivatives along rows, then along columns"""
    return np.stack([np.stack([np.gradient(c, axis=d) for c in px]) for d in (0, 1)])


def grad0(px):
    return edge0(grad(px))


def smooth(g, c, h, w):
    from scipy.ndimage import gaussian_filter
    x = gaussian_filter(g.normal(c, h, w), (0, 1.5, 1.5), mode='wrap')
    return x / x.std() + g.uniform(-1, 1)


def sdi(ga, dW):
    """sum over the axes of the image derivative times the derivative of the warp; ga (2, ..., h, w)"""
    r = 0
    for d in (0, 1):
        r = r + ga[d][..., None] * dW[d]
    return r


def regular(ga):
    a = np.sqrt((ga.reshape((-1,) + ga.shape[-2:]) ** 2).sum(0))
    return ga / (a + np.median(a))


def second(v):
    """v (2, c, h, w): the derivatives of both components, mixed derivatives identified (dydx = dxdy)"""
    s = np.stack([edge0(np.stack([np.gradient(v[k, c], axis=d) for c in range(v.shape[1])])) for d in (0, 1) for k in (0, 1)])
    s = s.reshape((2, 2) + v.shape[1:])
    s[1, 0] = s[0, 1]
    return s


def unit_of(ga):
    phi = np.arctan2(ga[0], ga[1])
    return np.stack([np.sin(phi), np.cos(phi)])


def filt(K, x, axes):
    return np.fft.ifftn(K * np.fft.fftn(x, axes=axes), axes=axes)


class Ref(object):
    """one residual, from its definition"""
    def __init__(self, name, K=None):
        self.name, self.K = name, K

    def images(self, ga, dW, px):
        """steepest descent images (filtered, plain) given the gradient of the image"""
        n = self.name
        P = dW.shape[-1]
        if n in ('SSD', 'FourierSSD', 'ECC'):
            s = sdi(ga, dW)
            if n == 'FourierSSD':
                F = np.fft.fftn(s, axes=(-3, -2))
                f = F if self.K is None else self.K[..., None] * F
                return f.reshape(-1, P), F.reshape(-1, P)
            f = s
            if self.K is not None:
                f = filt(self.K[..., None], s, (-3, -2))
            return f.reshape(-1, P), s.reshape(-1, P)
        if n == 'GradientImages':
            s = second(regular(ga))
            s = sdi(s, dW).reshape(-1, P)
            return s, s
        u = unit_of(ga)
        s = second(u)
        # d phi = cos d(sin) - sin d(cos)
        r = 0
        for b in (0, 1):
            r = r + (u[1] * s[0, b] - u[0] * s[1, b])[..., None] * dW[b]
        r = r.reshape(-1, P)
        self.N = ga[0].size
        return r, r

    def hessian(self, f, s):
        return np.conj(f).T.dot(s)

    def step(self, f, H, I, T):
        """update and cost for the warped image I and the template T (pixels)"""
        n = self.name
        if n == 'SSD':
            e = (I - T).ravel()
            Ke = e if self.K is None else filt(self.K, I - T, (-2, -1)).ravel()
            return f.T.dot(e), e.dot(Ke)
        if n == 'FourierSSD':
            e = I - T
            Ke = e if self.K is None else filt(self.K, e, (-2, -1))
            return np.conj(f).T.dot(np.fft.fftn(e, axes=(-2, -1)).ravel()), e.ravel().dot(Ke.ravel())
        if n == 'ECC':
            i, t = [(x - x.mean()).ravel() for x in (I, T)]
            i, t = i / np.linalg.norm(i), t / np.linalg.norm(t)
            Hi = np.linalg.inv(H)
            Gi, Gt = f.T.dot(i), f.T.dot(t)
            num, den = i.dot(i) - Gi.dot(Hi).dot(Gi), t.dot(i) - Gt.dot(Hi).dot(Gi)
            if den > 0:
                l = num / den
            else:
                d3 = Gt.dot(Hi).dot(Gt)
                l = max(np.sqrt(Gi.dot(Hi).dot(Gi) / d3), -den / d3)
            return f.T.dot(l * i - t), i.dot(t)
        gi, gt = grad0(I), grad0(T)
        if n == 'GradientImages':
            e = (regular(gi) - regular(gt)).ravel()
            return f.T.dot(e), e.dot(e)
        pi, pt = [np.arctan2(x[0], x[1]) for x in (gi, gt)]
        q = np.cos(pi - pt).sum()
        return self.N / q * f.T.dot(np.sin(pi - pt).ravel()), q / self.N


def agree(a, b, what, tol=1e-7):
    a, b = np.asarray(a), np.asarray(b)
    need(a.shape == b.shape, what + ': shape', got=a.shape, expected=b.shape)
    need(np.max(np.abs(a - b)) <= tol * (1 + np.max(np.abs(b))), what, got=np.ravel(a)[:4], expected=np.ravel(b)[:4])


def make(g, name):
    import menpofit.lk.residual as R
    K = None
    c, h, w = g.int(1, 3), g.int(7, 12), g.int(7, 12)
    if name in ('SSD', 'FourierSSD') and g.flag(.6):
        # a filter with a real spectrum
        x = g.normal(h, w) if g.flag() else g.normal(c, h, w)
        K = np.real(np.fft.fftn(filt(np.abs(np.fft.fftn(x, axes=(-2, -1))), np.abs(x), (-2, -1)).real, axes=(-2, -1)))
        K = np.abs(np.fft.fftn(x, axes=(-2, -1)))
        return R.__dict__[name](kernel=K), Ref(name, K), (c, h, w)
    return R.__dict__[name](), Ref(name), (c, h, w)


@case(PID, 'residuals of compositional algorithms', n=150, timeout=240)
def residuals(g):
    name = RES[g.it % len(RES)]
    R, S, (c, h, w) = make(g, name)
    P = g.int(1, 6)
    A, T = smooth(g, c, h, w), smooth(g, c, h, w)
    I = -T + .1 * smooth(g, c, h, w) if g.flag(.3) else T + g.uniform(.02, 1.) * smooth(g, c, h, w)
    dW = g.normal(2, h, w, P)
    a, i, t, d = masked(A), masked(I), masked(T), dW.copy()
    keep = Keep([a, i, t])
    src = g.choice([0, 1])       # inverse: the template; forward: the image
    x, X = (t, T) if src == 0 else (i, I)
    f, s = R.steepest_descent_images(x, d)
    px = X
    if name == 'ECC':
        v = X - X.mean()
        px = v / np.linalg.norm(v)
    rf, rs = S.images(grad0(px), dW, px)
    agree(f, rf, name + ': filtered steepest descent images')
    agree(s, rs, name + ': steepest descent images')
    H = R.hessian(f, sdi2=s)
    agree(H, S.hessian(rf, rs), name + ': Hessian')
    agree(R.hessian(s), S.hessian(rs, rs), name + ': Hessian of one set')
    H = R.hessian(f, sdi2=s)
    if name == 'ECC' and np.linalg.cond(H) > 1e8:
        return
    for k in range(2):
        u = R.steepest_descent_update(f, i, t)
        ru, rc = S.step(rf, H, I, T)
        agree(u, ru, name + ': update', tol=1e-6)
        cost = R.cost_closure()
        agree(cost, rc, name + ': cost', tol=1e-6)
        # the next iterate
        I = I + .05 * smooth(g, c, h, w)
        keep.check('residual')
        i = masked(I)
        if g.flag():
            T = smooth(g, c, h, w)
            t = masked(T)
            keep = Keep([a, i, t])
    need(np.array_equal(d, dW), 'the derivative of the warp is not modified')


@case(PID, 'residuals of forward additive algorithms', n=60, timeout=240)
def forward(g):
    from menpo.transform import Translation, Affine
    name = RES[g.it % len(RES)]
    R, S, (c, h, w) = make(g, name)
    P = g.int(1, 5)
    big = smooth(g, c, h + 8, w + 9)
    T = smooth(g, c, h, w)
    im, t = masked(big), masked(T)
    M = np.eye(3)
    M[:2, :2] += .05 * g.normal(2, 2)
    M[:2, 2] = g.uniform(2, 5, 2)
    tr = Affine(M) if g.flag() else Translation(g.uniform(2, 5, 2))
    dW = g.normal(2, h, w, P)
    keep = Keep([im, t])
    f, s = R.steepest_descent_images(im, dW.copy(), forward=(t, tr))
    keep.check('steepest descent images')
    px = big
    if name == 'ECC':
        v = big - big.mean()
        px = v / np.linalg.norm(v)
    ga = grad(px)
    wga = masked(ga.reshape(-1, h + 8, w + 9)).warp_to_mask(t.mask, tr, warp_landmarks=False).pixels.reshape(2, c, h, w)
    rf, rs = S.images(wga, dW, px)
    agree(f, rf, name + ': filtered steepest descent images')
    agree(s, rs, name + ': steepest descent images')
    H = R.hessian(f, sdi2=s)
    agree(H, S.hessian(rf, rs), name + ': Hessian')
    if name == 'ECC' and np.linalg.cond(H) > 1e8:
        return
    i = im.warp_to_mask(t.mask, tr, warp_landmarks=False)
    u = R.steepest_descent_update(f, i, t)
    ru, rc = S.step(rf, H, i.pixels, T)
    agree(u, ru, name + ': update', tol=1e-6)
    agree(R.cost_closure(), rc, name + ': cost', tol=1e-6)


class Tr(object):
    """a transform with a given derivative"""
    def __init__(self, d):
        self.d = d
        self.n_parameters = d.shape[-1]
        self.asked = []

    def d_dp(self, x):
        if x is not None:
            self.asked.append(np.array(x))
        return np.transpose(self.d, (1, 2, 0)).copy()      # points, parameters, axes


def irregular(g, h, w):
    m = np.zeros((h, w), bool)
    m[1:-1, 2:-1] = True
    m &= g.r.random((h, w)) < .9
    return m


def pick(g, n):
    """(sampling argument, selected pixels in order)"""
    k = g.int(0, 4)
    ix = np.arange(n)
    if k == 0:
        return None, ix
    if k == 1:
        s = g.int(1, 6)
        return (s if g.flag() else np.int64(s)), ix[::s]
    b = g.r.random(n) < .5
    b[g.int(0, n - 1)] = True
    if k == 2:
        return b, ix[b]
    sel = ix[b].copy()
    if k == 3:
        g.r.shuffle(sel)
    return (sel if g.flag() else list(int(x) for x in sel)), ix[b]


@case(PID, 'holistic interfaces and masks', n=80, timeout=240)
def holistic(g):
    from menpo.image import MaskedImage
    from menpofit.aam.algorithm.lk import LucasKanadeStandardInterface, LucasKanadeLinearInterface
    from menpofit.atm.algorithm import ATMLucasKanadeStandardInterface, ATMLucasKanadeLinearInterface
    c, h, w, P = g.int(1, 3), g.int(8, 12), g.int(8, 12), g.int(1, 5)
    mask = irregular(g, h, w) if g.flag(.7) else np.ones((h, w), bool)
    t = MaskedImage(smooth(g, c, h, w), mask=mask)
    n = int(mask.sum())
    d = g.normal(2, n, P)
    tr = Tr(d)
    arg, sel = pick(g, n)
    given = np.array(arg) if isinstance(arg, np.ndarray) else None
    if g.flag():
        I = g.choice([LucasKanadeStandardInterface, LucasKanadeLinearInterface])(None, tr, t, sampling=arg)
    else:
        I = g.choice([ATMLucasKanadeStandardInterface, ATMLucasKanadeLinearInterface])(tr, t, sampling=arg)
    keep = Keep([t])
    need(given is None or np.array_equal(given, arg), 'sampling is not modified')
    im = np.asarray(I.i_mask)
    want = np.concatenate([k * n + sel for k in range(c)])
    need(np.array_equal(im, want), 'selected pixels of every channel, in order', got=im[:8], expected=want[:8])
    x = MaskedImage(smooth(g, c, h, w), mask=mask)
    kx = Keep([x])
    dw = I.warp_jacobian()
    agree(dw, d[:, sel], 'derivative of the warp at the selected pixels')
    need(np.array_equal(tr.asked[-1], np.argwhere(mask)), 'the warp is differentiated at the pixels of the mask')
    na = I.gradient(x)
    from scipy.ndimage import binary_erosion
    ga = grad(x.pixels)
    ga[..., mask & ~binary_erosion(mask)] = 0
    ga = ga[..., mask]
    J = I.steepest_descent_images(na, dw)
    full = np.stack([ga[0][..., None] * d[0] + ga[1][..., None] * d[1]])[0].reshape(-1, P)
    agree(J, full[want], 'steepest descent images of the selected pixels')
    agree(I.steepest_descent_images(-na, dw), -full[want], 'negated gradient')
    keep.check('interface')
    kx.check('interface')


@case(PID, 'patch interfaces and masks', n=80, timeout=240)
def patches(g):
    from menpo.image import Image
    from menpofit.aam.algorithm.lk import LucasKanadePatchInterface
    from menpofit.atm.algorithm import ATMLucasKanadePatchInterface
    from menpofit.aps.algorithm.gn import GaussNewtonBaseInterface
    n, o, c, h, w, P = g.int(1, 4), 1, g.int(1, 3), g.int(3, 7), g.int(3, 7), g.int(1, 5)
    t = Image(g.normal(n, o, c, h, w))
    d = g.normal(2, n, P)
    tr = Tr(d)
    m = None
    if g.flag(.7):
        m = g.r.random((h, w)) < .5
        m[g.int(0, h - 1), g.int(0, w - 1)] = True
    k = g.int(0, 2)
    if k == 0:
        I = LucasKanadePatchInterface(None, tr, t, sampling=m, patch_shape=(h, w))
        dw = I.warp_jacobian()
    elif k == 1:
        I = ATMLucasKanadePatchInterface(tr, t, sampling=m, patch_shape=(h, w))
        dw = I.warp_jacobian()
    else:
        I = GaussNewtonBaseInterface(None, None, tr, 1., True, t, m, (h, w), None)
        dw = I.ds_dp()
        V = I.ds_dp_vectorized()
        agree(V, np.transpose(d, (1, 0, 2)).reshape(2 * n, P), 'derivative of the shape vector')
    agree(dw, d, 'derivative of the warp at the points')
    mm = np.ones((h, w), bool) if m is None else m
    sel = np.flatnonzero(np.broadcast_to(mm, t.pixels.shape))
    need(np.array_equal(np.asarray(I.i_mask), sel), 'selected pixels of every patch')
    x = Image(g.normal(n, o, c, h, w))
    keep = Keep([x, t])
    na = I.gradient(x)
    ga = np.stack([np.gradient(x.pixels, axis=-2), np.gradient(x.pixels, axis=-1)])
    agree(na, ga, 'gradients of the patches')
    J = I.steepest_descent_images(na, dw)
    full = sum(ga[e][..., None] * d[e][:, None, None, None, None, :] for e in (0, 1)).reshape(-1, P)
    agree(J, full[sel], 'steepest descent images of the selected pixels')
    keep.check('interface')


@case(PID, 'interfaces of fitters', n=24, timeout=300)
def fitters(g):
    """at every scale of a real fitter the three selections agree"""
    k = g.it % 4
    if k == 0:
        cls = g.choice(AAM_CLS)
        s = None if cls == 'PatchAAM' else g.choice([None, 2, 5])
        f, ims = aam_fitter(g, cls, alg='ProjectOutForwardCompositional', sampling=s)
    elif k == 1:
        cls = g.choice(ATM_CLS)
        s = None if cls == 'PatchATM' else g.choice([None, 3])
        f, ims = atm_fitter(g, cls, alg='ForwardCompositional', sampling=s)
    elif k == 2:
        f, ims = unified_fitter(g, sampling=g.choice([None, 3]))
    else:
        m = None
        if g.flag():
            m = g.r.random((5, 7)) < .6
            m[2, 3] = True
        f, ims = aps_fitter(g, alg='Forward', sampling=m)
    for a in f.algorithms:
        I = a.interface
        im = np.asarray(I.i_mask)
        t = I.template
        v = t.as_vector()
        need(im.size and im.min() >= 0 and im.max() < v.size and np.all(np.diff(im) > 0), 'selection of pixels of the template')
        dw = I.warp_jacobian() if hasattr(I, 'warp_jacobian') else I.ds_dp()
        keep = Keep([t])
        J = I.steepest_descent_images(I.gradient(t), dw)
        need(J.shape[0] == im.size, 'one row per selected pixel', got=J.shape, expected=im.size)
        px = t.pixels
        if px.ndim == 5:
            ga = np.stack([np.gradient(px, axis=-2), np.gradient(px, axis=-1)])
            d = np.moveaxis(I.transform.d_dp(None), -1, 0)
            full = sum(ga[e][..., None] * d[e][:, None, None, None, None, :] for e in (0, 1)).reshape(-1, d.shape[-1])
        else:
            from scipy.ndimage import binary_erosion
            mask = t.mask.mask
            ga = grad(px)
            ga[..., mask & ~binary_erosion(mask)] = 0
            ga = ga[..., mask]
            d = np.moveaxis(I.transform.d_dp(np.argwhere(mask)), -1, 0)
            full = (ga[0][..., None] * d[0] + ga[1][..., None] * d[1]).reshape(-1, d.shape[-1])
        agree(J, full[im], 'steepest descent images of the selected pixels')
        keep.check('interface')
