from .common import *
from scipy.signal import convolve2d
from menpofit.math import fft_utils as F
from menpofit.math import correlationfilter as C

PID = 'C13'


def size(g, lo=1, hi=12):
    return g.int(lo, hi), g.int(lo, hi)


@case(PID, 'pad and crop', 80)
def _(g):
    h, w = size(g)
    e = h + g.int(0, 9), w + g.int(0, 9)
    x = g.normal(*(g.choice([(), (2,), (2, 3)]) + (h, w)))
    x0 = x.copy()
    for b in ('constant', 'symmetric', 'wrap'):
        p = F.pad(x, e, boundary=b)
        need(p.shape == x.shape[:-2] + e, 'padded shape', got=p.shape)
        need_close(F.crop(p, (h, w)), x, 'crop inverts pad %s %s %s' % ((h, w), e, b))
    need_close(F.crop(F.pad(x, np.array(e)), np.array([h, w])), x, 'sizes as arrays')
    need(np.array_equal(x, x0), 'input modified')


def reference(x, f, mode, b):
    (h, w), (m, n) = x.shape, f.shape
    hh, hw = m // 2, n // 2
    if b == 'constant':
        full = convolve2d(x, f, mode='full')
        if mode == 'full':
            return full
        if mode == 'same':
            return full[hh:hh + h, hw:hw + w]
        return full[m - 1:h, n - 1:w]
    if mode == 'valid':
        return convolve2d(x, f, mode='valid') if h >= m and w >= n else None
    px = np.pad(x, [(hh, hh), (hw, hw)], mode=b)
    full = convolve2d(px, f, mode='full')
    return full[2 * hh:2 * hh + h, 2 * hw:2 * hw + w]


@case(PID, 'convolution', 120)
def _(g):
    m, n = size(g, 1, 7)
    h, w = m + g.int(0, 8), n + g.int(0, 8)
    c = g.int(1, 3)
    x, f = g.normal(c, h, w), g.normal(c, m, n)
    if g.flag(.2):
        f = np.ones_like(f)
    x0, f0 = x.copy(), f.copy()
    mode, b = g.choice([('full', 'constant'), ('same', 'constant'), ('same', 'symmetric'), ('same', 'wrap'),
                        ('valid', 'constant'), ('valid', 'symmetric')])
    ref = np.array([reference(x[i], f[i], mode, b) for i in range(c)])
    r = F.fft_convolve2d(x, f, mode=mode, boundary=b)
    need_close(r, ref, 'convolution %s %s image %s filter %s' % (mode, b, (h, w), (m, n)))
    r = F.fft_convolve2d_sum(x, f, mode=mode, boundary=b)
    need_close(r, ref.sum(0, keepdims=True), 'sum over channels %s %s image %s filter %s' % (mode, b, (h, w), (m, n)))
    r = F.fft_convolve2d_sum(x, f, mode=mode, boundary=b, keepdims=False)
    need_close(r, ref.sum(0), 'sum over channels without the axis')
    if mode == 'same' or (m % 2 and n % 2):
        e = np.array([h, w]) + 2 * (np.array([m, n]) // 2)
        ff = F.fft2(F.pad(f, e))
        ff0 = ff.copy()
        need_close(F.fft_convolve2d(x, ff, mode=mode, boundary=b, fft_filter=True), ref,
                   'filter given by its spectrum %s %s image %s filter %s' % (mode, b, (h, w), (m, n)))
        need_close(F.fft_convolve2d_sum(x, ff, mode=mode, boundary=b, fft_filter=True), ref.sum(0, keepdims=True),
                   'summed, filter given by its spectrum')
        need(np.array_equal(ff, ff0), 'spectrum modified')
    if g.flag(.3):
        k = g.int(1, 3)
        xs = g.normal(k, c, h, w)
        r = F.fft_convolve2d_sum(xs, f[None].repeat(k, 0), mode=mode, boundary=b, axis=1)
        for i in range(k):
            need_close(r[i], sum(reference(xs[i, j], f[j], mode, b) for j in range(c))[None], 'several images')
    raises(ValueError, lambda: F.fft_convolve2d(x, f, mode='none'), 'unknown mode')
    need(np.array_equal(x, x0) and np.array_equal(f, f0), 'inputs modified')


def ref_pad(x, e, b='constant'):
    h, w = x.shape[-2:]
    t, l = e[0] // 2 - h // 2, e[1] // 2 - w // 2
    return np.pad(x, [(0, 0)] * (x.ndim - 2) + [(t, e[0] - h - t), (l, e[1] - w - l)], mode=b)


def ref_filter(kind, X, y, l, b, crop):
    n, k, hx, wx = X.shape
    hy, wy = y.shape[-2:]
    e = hx + hy - 1, wx + wy - 1
    FX, FY = np.fft.fft2(ref_pad(X, e, b)), np.fft.fft2(ref_pad(y, e))
    S = np.zeros((k,) + e, complex)
    for a in range(e[0]):
        for c in range(e[1]):
            v = FX[:, :, a, c]
            if kind == 'mosse':
                S[:, a, c] = (v.conj() * FY[0, a, c]).sum(0) / ((np.abs(v) ** 2).sum(0) + l)
            else:
                S[:, a, c] = np.linalg.solve(v.conj().T.dot(v) + l * np.eye(k), (v.conj() * FY[0, a, c]).sum(0))
    f = np.real(np.fft.ifft2(S))
    f = np.roll(f, (e[0] // 2, e[1] // 2), (-2, -1))
    if crop:
        t, u = e[0] // 2 - hy // 2, e[1] // 2 - wy // 2
        f = f[:, t:t + hy, u:u + wy]
    return f


@case(PID, 'filters solve their normal equations', 30)
def _(g):
    n, k = g.int(1, 4), g.int(1, 3)
    hx, wx = size(g, 3, 9)
    hy, wy = size(g, 2, 7)
    X, y, l = g.normal(n, k, hx, wx), g.normal(1, hy, wy), g.choice([0.01, 0.5, 3.])
    X0, y0 = X.copy(), y.copy()
    b, crop = g.choice(['constant', 'symmetric']), g.flag(.7)
    if b == 'symmetric' and (hy > hx or wy > wx):
        b = 'constant'
    for kind in ('mosse', 'mccf'):
        f = getattr(C, kind)(X, y, l=l, boundary=b, crop_filter=crop)[0]
        need_close(f, ref_filter(kind, X, y, l, b, crop), '%s patches %s response %s' % (kind, (hx, wx), (hy, wy)), 1e-7)
    need(np.array_equal(X, X0) and np.array_equal(y, y0), 'inputs modified')


def dense(a):
    return np.asarray(a.todense()) if hasattr(a, 'todense') else np.asarray(a)


@case(PID, 'increment equals batch', 24)
def _(g):
    n, k = g.int(2, 6), g.int(1, 3)
    hx, wx = size(g, 3, 8)
    hy, wy = size(g, 2, 6)
    X, y, l = g.normal(n, k, hx, wx), g.normal(1, hy, wy), g.choice([0.01, 0.5])
    cuts = sorted(set(g.int(1, n - 1) for _ in range(2))) + [n]
    for kind in ('mosse', 'mccf'):
        fb = getattr(C, kind)(X, y, l=l)[0]
        f, A, B = getattr(C, kind)(X[:cuts[0]], y, l=l)
        for i, j in zip(cuts, cuts[1:]):
            A0, B0, Z0 = dense(A).copy(), dense(B).copy(), X[i:j].copy()
            oA, oB = A, B
            f, A, B = getattr(C, 'i' + kind)(A, B, i, X[i:j], y, l=l)
            need(np.array_equal(dense(oA), A0) and np.array_equal(dense(oB), B0), 'old sums modified')
            need(np.array_equal(X[i:j], Z0), 'images modified')
        need_close(f, fb, '%s: increments at %s of %d images differ from the batch' % (kind, cuts, n), 1e-7)
