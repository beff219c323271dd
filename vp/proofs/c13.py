"""C13: frequency-domain filtering equals spatial filtering, online equals batch."""
from .common import *
from ..engine import cplx

PID = 'C13'
FU = 'menpofit.math.fft_utils'
CF = 'menpofit.math.correlationfilter'


def world(**r):
    st = dict(cplx.STUBS)
    st['menpo.feature.base'] = {'rebuild_feature_image': lambda im, f: ('rebuilt', im, f)}
    return World(stubs=st, replace=r)


def fu():
    return world().load(FU)


def sizes(*names):
    return [sint(n, 1) for n in names]


def half(x):
    return x.t / z3.IntVal(2)


@unit(PID, 'padding and cropping are inverse', [FU + ':pad', FU + ':crop'])
def padcrop():
    m = fu()
    c, h, w, eh, ew = sizes('c', 'h', 'w', 'eh', 'ew')
    ctx().assume(z3.And(eh.t >= h.t, ew.t >= w.t))
    for lead in ((), (c,)):
        x = fresh('x', axes_of(*(lead + (h, w))))
        fr = Frame(x=x)
        for b in ('constant', 'symmetric'):
            p = m.pad(x, (eh, ew), boundary=b)
            prove('extended height', zint(p.shape[-2]) == eh.t)
            prove('extended width', zint(p.shape[-1]) == ew.t)
            q = m.crop(p, (h, w))
            prove_eq('cropping a padded array gives it back (%s)' % b, q, x)
        prove_eq('default boundary is zero', m.pad(x, (eh, ew)), m.pad(x, (eh, ew), 'constant'))
        fr.check()


@unit(PID, 'cropping to sizes given as arrays', [FU + ':pad', FU + ':crop'])
def padcrop2():
    m = fu()
    c, h, w, a, b = sizes('c', 'h', 'w', 'a', 'b')
    x = fresh('x', axes_of(c, h, w))
    ext = T.as_tensor(VList([wrap(h.t + a.t), wrap(w.t + b.t)]))
    p = m.pad(x, ext)
    q = m.crop(p, T.as_tensor(VList([h, w])))
    prove_eq('sizes may be arrays', q, x)
    prove_eq('same size: nothing changes', m.crop(x, (h, w)), x)
    prove_eq('same size: nothing is padded', m.pad(x, (h, w)), x)
    # zeros outside: the sum over the padded array is the sum over the array
    prove('only zeros are added', val(T.reduce_sum(p)) == val(T.reduce_sum(x)))


def extended(x, b, n, axes_idx):
    """value of the image extended by the boundary rule at any integer position"""
    src, g = [], []
    for i, d in axes_idx:
        inside = z3.And(i >= 0, i < d)
        if b == 'constant':
            g.append(inside)
            src.append(i)
        else:
            f = z3.Function('bnd_%s' % b, INT, INT, INT)
            src.append(z3.If(inside, i, f(i, d)))
    v = zreal(x.at([k for k in n] + [(s,) for s in src]))
    return z3.If(z3.And(*g), v, z3.RealVal(0)) if g else v


def spatial(x, f, lead, mode, b, i, j, h, w, a, bb):
    """sum over p, q of f[p, q] x(i + s - p, j + s' - q)"""
    s = {'full': (z3.IntVal(0), z3.IntVal(0)), 'same': (half(a), half(bb)),
         'valid': (a.t - 1, bb.t - 1)}[mode]
    return ssum(a, lambda p: ssum(bb, lambda q: zreal(f.at(list(lead) + [(p,), (q,)])) *
                                  extended(x, b, lead, [(i + s[0] - p, h.t), (j + s[1] - q, w.t)])))


def out_size(mode, n, k):
    return {'full': n.t + k.t - 1, 'same': n.t, 'valid': n.t - k.t + 1}[mode]


def conv_case(mode, b, freq, fn):
    m = fu()
    c, h, w, a, bb = sizes('c', 'h', 'w', 'a', 'b')
    cx = ctx()
    if mode == 'valid':
        cx.assume(z3.And(h.t >= a.t, w.t >= bb.t))
    x, f = fresh('x', axes_of(c, h, w)), fresh('f', axes_of(c, a, bb))
    fr = Frame(x=x, f=f)
    ff = f
    if freq:
        if mode != 'same':
            cx.assume(z3.And(a.t % 2 == 1, bb.t % 2 == 1))
        ext = (wrap(h.t + 2 * half(a)), wrap(w.t + 2 * half(bb)))
        ff = cplx.fft2(m.pad(f, ext))
    kw = {} if (b, mode) == ('constant', 'same') else dict(mode=mode, boundary=b)
    r = getattr(m, fn)(x, ff, fft_filter=True, **kw) if freq else getattr(m, fn)(x, ff, **kw)
    prove('height of the result', zint(r.shape[-2]) == out_size(mode, h, a))
    prove('width of the result', zint(r.shape[-1]) == out_size(mode, w, bb))
    k, i, j = z3.Ints('k i j')
    cx.assume(z3.And(k >= 0, k < c.t, i >= 0, i < out_size(mode, h, a), j >= 0, j < out_size(mode, w, bb)))
    if fn == 'fft_convolve2d':
        prove('element = spatial convolution', zreal(r.at([(k,), (i,), (j,)])) ==
              spatial(x, f, [(k,)], mode, b, i, j, h, w, a, bb))
    else:
        z = z3.IntVal(0)
        prove('element = spatial convolution summed over the channels', zreal(r.at([(z,), (i,), (j,)])) ==
              ssum(c, lambda q: spatial(x, f, [(q,)], mode, b, i, j, h, w, a, bb)))
    fr.check()


for _mode, _b, _fq, _fn in [(m_, b_, q_, f_) for f_ in ('fft_convolve2d', 'fft_convolve2d_sum')
                            for q_ in (False, True)
                            for m_, b_ in (('full', 'constant'), ('same', 'constant'), ('same', 'symmetric'),
                                           ('valid', 'constant'), ('valid', 'symmetric'))]:
    unit(PID, '%s %s %s%s' % (_fn, _mode, _b, ' spectrum given' if _fq else ''),
         [FU + ':' + _fn, FU + ':pad', FU + ':crop'], ['circular convolution theorem (ifft2 of a product of spectra)'],
         budget=150)(lambda mode=_mode, b=_b, freq=_fq, fn=_fn: conv_case(mode, b, freq, fn))


@unit(PID, 'summing over the channels of many images', [FU + ':fft_convolve2d_sum'])
def conv_sum4():
    m = fu()
    n, c, h, w, a, bb = sizes('n', 'c', 'h', 'w', 'a', 'b')
    x, f = fresh('x', axes_of(n, c, h, w)), fresh('f', axes_of(n, c, a, bb))
    cx = ctx()
    e, i, j = z3.Ints('e i j')
    cx.assume(z3.And(e >= 0, e < n.t, i >= 0, i < h.t, j >= 0, j < w.t))
    spec = ssum(c, lambda q: spatial(x, f, [(e,), (q,)], 'same', 'constant', i, j, h, w, a, bb))
    r = m.fft_convolve2d_sum(x, f, axis=1)
    prove('one channel', zint(r.shape[1]) == 1)
    prove('per image sum over its channels', zreal(r.at([(e,), (z3.IntVal(0),), (i,), (j,)])) == spec)
    r = m.fft_convolve2d_sum(x, f, axis=1, keepdims=False)
    prove('channel axis dropped', len(r.axes) == 3)
    prove('per image sum over its channels (no channel axis)', zreal(r.at([(e,), (i,), (j,)])) == spec)


@unit(PID, 'unknown modes are rejected', [FU + ':fft_convolve2d', FU + ':fft_convolve2d_sum'])
def conv_modes():
    m = fu()
    c, h, w, a, bb = sizes('c', 'h', 'w', 'a', 'b')
    x, f = fresh('x', axes_of(c, h, w)), fresh('f', axes_of(c, a, bb))
    for fn in (m.fft_convolve2d, m.fft_convolve2d_sum):
        expect_raises('ValueError', ValueError, lambda: fn(x, f, mode='other'))


class PImage(object):
    def __init__(self, p):
        self.pixels = p


@unit(PID, 'images and arrays are both accepted', [FU + ':ndconvolution'])
def wrapper():
    m = fu()
    log = []

    def g(x, f, *a, **k):
        log.append((x, f, a, k))
        return 'result'
    c, h, w = sizes('c', 'h', 'w')
    x, f = fresh('x', axes_of(c, h, w)), fresh('f', axes_of(c, h, w))
    conv = m.ndconvolution(g)
    for xi in (x, PImage(x)):
        for fi in (f, PImage(f)):
            del log[:]
            r = conv(xi, fi, 1, mode='full')
            xin, fin, a, k = log[0]
            prove('called once on the pixels of the image', len(log) == 1 and xin is x)
            prove('options passed on', a == (1,) and k == {'mode': 'full'})
            if isinstance(xi, PImage):
                prove('an image gives an image', r == ('rebuilt', xi, 'result'))
            else:
                prove('an array gives an array', r == 'result')


# ------------------------------------------------------------------ filters
def filters():
    return world().load(CF)


def setup(n='n'):
    k, hx, wx, hy, wy = sizes('k', 'hx', 'wx', 'hy', 'wy')
    y = fresh('y', [(1,)] + axes_of(hy, wy))
    l = sreal('l')
    ctx().assume(l.t > 0)
    return k, hx, wx, hy, wy, y, l


def ext_of(hx, wx, hy, wy):
    return wrap(hx.t + hy.t - 1), wrap(wx.t + wy.t - 1)


def spec_sums(m, X, n, y, e):
    """spectra of the padded images and response"""
    fy = cplx.fft2(m.pad(y, e))
    return lambda i: cplx.fft2(m.pad(X[wrap(i)], e)), fy


def part_eq(name, a, b):
    """equality of complex (or real) arrays"""
    ca = a if isinstance(a, cplx.CTensor) else cplx.CTensor(T.as_tensor(a), cplx.zero_like(T.as_tensor(a)))
    cb = b if isinstance(b, cplx.CTensor) else cplx.CTensor(T.as_tensor(b), cplx.zero_like(T.as_tensor(b)))
    prove_eq(name + ' (real)', ca.re, cb.re)
    prove_eq(name + ' (imaginary)', ca.im, cb.im)


def csum(n, f, axes):
    """spec: sum over i < n of the complex arrays f(i)"""
    def mk(get):
        return STensor(axes, lambda idx: ssum(n, lambda i: zreal(get(f(i)).at(idx))), 'r')
    return cplx.CTensor(mk(lambda v: v.re), mk(lambda v: v.im))


def spectra(X, n, y, k, e, b):
    """the spectra of the padded images and of the padded response"""
    m = fu()
    FX = cplx.fft2(m.pad(X, e, boundary=b))
    FY = cplx.fft2(m.pad(y, e))
    ax = axes_of(k, *e)

    def fx(i):
        i = z3.IntVal(i) if isinstance(i, int) else i
        return cplx.CTensor(*[STensor(ax, lambda idx, t=t: t.at([(i,)] + list(idx)), 'r') for t in (FX.re, FX.im)])
    return fx, FY, ax


def centred(m, F, my, e):
    """the impulse response of the spectrum F with zero shift at the centre"""
    g = cplx.ifft2(F).re
    H, W = e[0].t, e[1].t

    def mod(i, n):
        return z3.If(i < 0, i + n, i)

    def elem(idx, cy, cx):
        return g.at([idx[0], (mod(idx[1][0] - cy, H),), (mod(idx[2][0] - cx, W),)])
    if my is None:
        return STensor(g.axes, lambda idx: elem(idx, half(e[0]), half(e[1])), 'r')
    return STensor([g.axes[0]] + axes_of(*my), lambda idx: elem(idx, half(my[0]), half(my[1])), 'r')


def mosse_spec(X, n, y, l, k, e, b):
    fx, FY, ax = spectra(X, n, y, k, e, b)
    S1 = csum(n, lambda i: fx(i).conj() * FY, ax)
    S2 = csum(n, lambda i: fx(i).conj() * fx(i), ax)
    return S1, S2, fx, FY


def mosse_case(b, crop):
    m = filters()
    ctx().extra['sealed_dft'] = True
    n = sint('n', 1)
    k, hx, wx, hy, wy, y, l = setup()
    X = fresh('X', axes_of(n, k, hx, wx))
    e = ext_of(hx, wx, hy, wy)
    fr = Frame(X=X, y=y)
    f, sxy, sxx = m.mosse(X, y, l=l, boundary=b, crop_filter=crop)
    S1, S2, fx, FY = mosse_spec(X, n, y, l, k, e, b)
    part_eq('sum of conj(x) y', sxy, S1)
    part_eq('sum of conj(x) x', sxx, S2)
    den = S2 + l
    F = S1 / den
    prove_eq('the filter has that spectrum and is centred', f, centred(m, F, (hy, wy) if crop else None, e))
    fr.check()


@unit(PID, 'the quotient of the sums solves the normal equations', [CF + ':mosse'])
def normal_equations():
    """for abstract spectra x_i, y and l > 0: (sum |x_i|^2 + l) f = sum conj(x_i) y"""
    n, k, h, w = sizes('n', 'k', 'h', 'w')
    l = sreal('l')
    ctx().assume(l.t > 0)
    ax = axes_of(n, k, h, w)
    XR, XI = fresh('xr', ax), fresh('xi', ax)
    yr, yi = fresh('yr', axes_of(k, h, w)), fresh('yi', axes_of(k, h, w))
    a, b, c = z3.Ints('a b c')
    idx = [(a,), (b,), (c,)]
    ctx().assume(z3.And(a >= 0, a < k.t, b >= 0, b < h.t, c >= 0, c < w.t))
    sl = lambda t: (lambda i: STensor(axes_of(k, h, w), lambda idx: t.at([(i,)] + list(idx)), 'r'))
    fx = lambda i: cplx.CTensor(sl(XR)(i), sl(XI)(i))
    S1 = csum(n, lambda i: fx(i).conj() * cplx.CTensor(yr, yi), axes_of(k, h, w))
    S2 = csum(n, lambda i: fx(i).conj() * fx(i), axes_of(k, h, w))
    sq = ssum(n, lambda i: zreal(XR.at([(i,)] + idx)) ** 2 + zreal(XI.at([(i,)] + idx)) ** 2)
    prove('energies are real', zreal(S2.im.at(idx)) == 0)
    prove('the energy is the sum of the squared moduli', zreal(S2.re.at(idx)) == sq)
    ex = [ssum(n, lambda i, t=t: zreal(t.at([(i,)] + idx)) ** 2) for t in (XR, XI)]
    prove('sum of squares (real parts) is not negative', ex[0] >= 0)
    prove('sum of squares (imaginary parts) is not negative', ex[1] >= 0)
    prove('the energy is not negative', zreal(S2.re.at(idx)) >= 0)
    # hence, for any numerator and any energy e >= 0
    num, e = z3.Real('num'), z3.Real('e')
    ctx().assume(e >= 0)
    prove('(e + l) (s / (e + l)) = s', (wrap(e) + l).t * (wrap(num) / (wrap(e) + l)).t == num)


for _b in ('constant', 'symmetric'):
    for _c in (True, False):
        unit(PID, 'mosse %s%s' % (_b, ' cropped' if _c else ''), [CF + ':mosse'], budget=200)(
            lambda b=_b, c=_c: mosse_case(b, c))


def both_sets(n1, n2, X1, X2):
    return T.concatenate([X1, X2], 0)


def imosse_case(fn, inc):
    m = filters()
    ctx().extra['sealed_dft'] = True
    n1, n2 = sint('n1', 1), sint('n2', 1)
    k, hx, wx, hy, wy, y, l = setup()
    X1, X2 = fresh('X1', axes_of(n1, k, hx, wx)), fresh('X2', axes_of(n2, k, hx, wx))
    X = both_sets(n1, n2, X1, X2)
    f1, a1, b1 = getattr(m, fn)(X1, y, l=l)
    fb, ab, bb = getattr(m, fn)(X, y, l=l)
    keep = a1.copy(), b1.copy()
    fr = Frame(X2=X2, y=y)
    fi, ai, bi = getattr(m, inc)(a1, b1, n1, X2, y, l=l)
    part_eq('increment = batch: cross spectrum', ai, ab)
    part_eq('increment = batch: energy spectrum', bi, bb)
    if fn == 'mosse':
        prove_eq('the filter belongs to the updated sums', fi, centred(m, ai / (bi + l), (hy, wy), ext_of(hx, wx, hy, wy)))
        prove_eq('the batch filter belongs to the batch sums', fb, centred(m, ab / (bb + l), (hy, wy), ext_of(hx, wx, hy, wy)))
    else:
        sol = ctx().extra['solves']
        (A1, r1, x1), (A2, r2, x2), (A3, r3, x3) = sol
        part_eq('increment solves the system of the batch', A3, A2)
        part_eq('increment has the right hand side of the batch', r3, r2)
    part_eq('old cross spectrum unmodified', a1, keep[0])
    part_eq('old energy spectrum unmodified', b1, keep[1])
    fr.check()


unit(PID, 'imosse equals mosse on all the images', [CF + ':mosse', CF + ':imosse'], budget=250)(
    lambda: imosse_case('mosse', 'imosse'))
unit(PID, 'imccf equals mccf on all the images', [CF + ':mccf', CF + ':imccf'], budget=250)(
    lambda: imosse_case('mccf', 'imccf'))


def mccf_case(b, crop):
    m = filters()
    ctx().extra['sealed_dft'] = True
    n = sint('n', 1)
    k, hx, wx, hy, wy, y, l = setup()
    X = fresh('X', axes_of(n, k, hx, wx))
    e = ext_of(hx, wx, hy, wy)
    fr = Frame(X=X, y=y)
    f, sxy, sxx = m.mccf(X, y, l=l, boundary=b, crop_filter=crop)
    (A, r, v), = ctx().extra['solves']
    fx, FY, ax = spectra(X, n, y, k, e, b)
    K, H, W = k.t, e[0].t, e[1].t
    c, c2, u, v1, u2, v2 = z3.Ints('c c2 u v u2 v2')
    cx = ctx()
    for q in ((c, u, v1), (c2, u2, v2)):
        cx.assume(z3.And(q[0] >= 0, q[0] < K, q[1] >= 0, q[1] < H, q[2] >= 0, q[2] < W))

    def g(i, ch):
        t = fx(i)
        return zreal(t.re.at([(ch,), (u,), (v1,)])), zreal(t.im.at([(ch,), (u,), (v1,)]))

    def cross(i):
        (a, bb), (p, q) = g(i, c), g(i, c2)
        return a * p + bb * q, a * q - bb * p
    same = z3.And(u == u2, v1 == v2)
    zero = z3.RealVal(0)
    re, im = [ssum(n, lambda i, j=j: cross(i)[j]) for j in (0, 1)]
    idx = [(c, u, v1), (c2, u2, v2)]
    diag = z3.If(z3.And(c == c2, u == u2, v1 == v2), l.t, zero)
    prove('system matrix (real)', zreal(A.re.at(idx)) == z3.If(same, re, zero) + diag)
    prove('system matrix (imaginary)', zreal(A.im.at(idx)) == z3.If(same, im, zero))
    fyr, fyi = zreal(FY.re.at([(z3.IntVal(0),), (u,), (v1,)])), zreal(FY.im.at([(z3.IntVal(0),), (u,), (v1,)]))
    rr = ssum(n, lambda i: g(i, c)[0] * fyr + g(i, c)[1] * fyi)
    ri = ssum(n, lambda i: g(i, c)[0] * fyi - g(i, c)[1] * fyr)
    prove('right hand side (real)', zreal(r.re.at([(c, u, v1)])) == rr)
    prove('right hand side (imaginary)', zreal(r.im.at([(c, u, v1)])) == ri)
    prove('sums returned (real)', zreal(sxx.re.at(idx)) == z3.If(same, re, zero))
    prove('sums returned (imaginary)', zreal(sxx.im.at(idx)) == z3.If(same, im, zero))
    part_eq('cross sums returned', sxy, r)
    S = v.reshape((k, e[0], e[1]))
    prove_eq('the filter is the solution of the system, centred', f,
             centred(m, S, (hy, wy) if crop else None, e))
    fr.check()


for _b in ('constant', 'symmetric'):
    for _c in (True, False):
        unit(PID, 'mccf %s%s' % (_b, ' cropped' if _c else ''), [CF + ':mccf'], ['scipy spsolve solves the system'],
             budget=200)(lambda b=_b, c=_c: mccf_case(b, c))
