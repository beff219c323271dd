"""Complex arrays and the discrete Fourier transform.

A complex array is a pair of real arrays.  fft2 is the transform of its
definition with uninterpreted cosine / sine tables; ifft2 likewise.  The one
trusted theorem is the convolution theorem: the inverse transform of a product
(or of a sum of products over channels) of spectra of real arrays is the
circular convolution of the arrays (attribute `spatial`)."""
from .core import z3, INT, REAL, ctx, Unsupported, SBase, wrap, zreal, zint, _isnum
from . import core, tensor as T, sums
from .tensor import STensor, zi, dprod

COS = z3.Function('dft_cos', INT, INT, INT, INT, INT, INT, REAL)
SIN = z3.Function('dft_sin', INT, INT, INT, INT, INT, INT, REAL)


class CTensor(object):
    __vatomic__ = True
    __array_priority__ = 4000
    __array_ufunc__ = None

    def __init__(self, re, im, spatial=None):
        self.re, self.im = re, im
        self.spatial = spatial
        self._v = 0

    # shape
    axes = property(lambda s: s.re.axes)
    shape = property(lambda s: s.re.shape)
    ndim = property(lambda s: s.re.ndim)
    size = property(lambda s: s.re.size)

    def _map(self, f, sp=False):
        return CTensor(f(self.re), f(self.im), f(self.spatial) if sp and self.spatial is not None else None)

    def copy(self):
        return self._map(lambda t: t.copy(), True)

    def conj(self):
        return CTensor(self.re.copy(), -self.im)
    conjugate = conj

    real = property(lambda s: s.re)
    imag = property(lambda s: s.im)

    def __getitem__(self, k):
        return self._map(lambda t: t[k], isinstance(k, tuple) is False)

    def __iter__(self):
        return iter([CTensor(r, i) for r, i in zip(self.re, self.im)])

    def reshape(self, *a):
        return self._map(lambda t: t.reshape(*a))

    def ravel(self):
        return self._map(lambda t: t.ravel())

    @property
    def T(self):
        return self._map(lambda t: t.T)

    def __vred__(self, name, axis=None, **k):
        if name != 'sum':
            raise Unsupported('np.%s of complex' % name)
        f = lambda t: T.reduce_sum(t, axis, **k)
        return self._map(f, True)

    def sum(self, axis=None, **k):
        return self.__vred__('sum', axis, **k)

    # arithmetic
    def _co(self, o):
        if isinstance(o, CTensor):
            return o
        if isinstance(o, Eye):
            return o.to(self.axes)
        if isinstance(o, (STensor, SBase)) or _isnum(o):
            return CTensor(T.as_tensor(o), zero_like(T.as_tensor(o)))
        return None

    def __add__(self, o):
        c = self._co(o)
        if c is None:
            return NotImplemented
        return CTensor(T.as_tensor(self.re + c.re), T.as_tensor(self.im + c.im))
    __radd__ = __add__

    def __sub__(self, o):
        c = self._co(o)
        if c is None:
            return NotImplemented
        return CTensor(T.as_tensor(self.re - c.re), T.as_tensor(self.im - c.im))

    def __neg__(self):
        return CTensor(-self.re, -self.im)

    def __mul__(self, o):
        if isinstance(o, (STensor, SBase)) or _isnum(o):
            return CTensor(T.as_tensor(self.re * o), T.as_tensor(self.im * o))
        if not isinstance(o, CTensor):
            return NotImplemented
        sp = None
        if self.spatial is not None and o.spatial is not None:
            sp = circular(self.spatial, o.spatial)
        return CTensor(T.as_tensor(self.re * o.re - self.im * o.im),
                       T.as_tensor(self.re * o.im + self.im * o.re), sp)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, (STensor, SBase)) or _isnum(o):
            return CTensor(T.as_tensor(self.re / o), T.as_tensor(self.im / o))
        if not isinstance(o, CTensor):
            return NotImplemented
        if _zero(o.im):
            return CTensor(T.as_tensor(self.re / o.re), T.as_tensor(self.im / o.re))
        q = o.re * o.re + o.im * o.im
        n = self * o.conj()
        return CTensor(T.as_tensor(n.re / q), T.as_tensor(n.im / q))

    def _imp(self, o):
        self.re, self.im, self.spatial = T.as_tensor(o.re).copy(), T.as_tensor(o.im).copy(), None
        self._v += 1
        c = core.CTX
        if c is not None:
            c.events.append(('tensor-write', self))
        return self

    def __iadd__(self, o):
        return self._imp(self + o)

    def __isub__(self, o):
        return self._imp(self - o)

    def __imul__(self, o):
        return self._imp(self * o)

    def __itruediv__(self, o):
        return self._imp(self / o)

    def _assign_from(self, o):
        self._imp(o)

    def version(self):
        return (self._v, self.re.version(), self.im.version())

    # matrices
    def dot(self, o):
        o = self._co(o)
        d = T.dot
        return CTensor(T.as_tensor(d(self.re, o.re)) - T.as_tensor(d(self.im, o.im)),
                       T.as_tensor(d(self.re, o.im)) + T.as_tensor(d(self.im, o.re)))
    __matmul__ = dot

    # loops / merging
    def __vsubst__(self, pairs):
        return self._map(lambda t: t.__vsubst__(pairs), True)

    def __vite__(self, c, b):
        if not isinstance(b, CTensor):
            raise Unsupported('one of two different values')
        return CTensor(self.re.__vite__(c, b.re), self.im.__vite__(c, b.im))

    def __vparts__(self):
        return [self.re, self.im]

    def __vbuild__(self, ps):
        return CTensor(*ps)

    def toarray(self):
        return self
    todense = tocsr = tocsc = toarray


def _zero(t):
    """is the real tensor syntactically zero?"""
    c = ctx()
    idx = [tuple(z3.Int(c.fresh('zz')) for _ in a) for a in t.axes]
    e = z3.simplify(zreal(t.at(idx)), som=True)
    return z3.is_rational_value(e) and e.as_fraction() == 0


def zero_like(t):
    return STensor(t.axes, lambda idx: z3.RealVal(0), 'r')


class Eye(object):
    """(scaled) sparse identity"""
    __array_ufunc__ = None

    def __init__(self, n, s=1.0):
        self.n, self.s = n, s

    def __mul__(self, o):
        return Eye(self.n, self.s * o)
    __rmul__ = __mul__

    def __add__(self, o):
        return o + self
    __radd__ = __add__

    def to(self, axes):
        if len(axes) != 2 or not all(T.deq(dprod(a), T.dim(self.n)) for a in axes):
            raise Unsupported('identity of a different size')
        s = zreal(self.s)

        def elem(idx):
            return z3.If(z3.simplify(z3.And(*[a == b for a, b in zip(idx[0], idx[1])])), s, z3.RealVal(0))
        if len(axes[0]) != len(axes[1]):
            raise Unsupported('identity axes')
        t = STensor(axes, elem, 'r')
        return CTensor(t, zero_like(t))


def speye(n, *a, **k):
    return Eye(n)


def wrap_idx(i, n):
    """i in (-n, 2n) -> modulo n"""
    return z3.simplify(z3.If(i < 0, i + n, z3.If(i >= n, i - n, i)))


def circular(a, b):
    """circular convolution over the last two axes, broadcast over the others"""
    axes = T.bshape([a, b])
    pa, pb = T.pick(a, axes), T.pick(b, axes)
    H, W = [zi(dprod(x)) for x in axes[-2:]]

    def elem(idx):
        lead, (i,), (j,) = list(idx[:-2]), idx[-2], idx[-1]
        return sums.mk_sum(T.dim(H), lambda p: sums.mk_sum(
            T.dim(W), lambda q: zreal(pa(lead + [(p,), (q,)])) *
            zreal(pb(lead + [(wrap_idx(i - p, H),), (wrap_idx(j - q, W),)]))))
    return STensor(axes, elem, 'r')


def _two(t):
    if t.ndim < 2 or any(len(a) != 1 for a in t.axes[-2:]):
        raise Unsupported('fft of such axes')
    return [zi(dprod(a)) for a in t.axes[-2:]]


def fft2(u, *a, **k):
    if a or k:
        raise Unsupported('fft2 options')
    u = T.as_tensor(u)
    H, W = _two(u)
    e = u.frozen()

    def part(F, sign):
        def elem(idx):
            lead, (k1,), (k2,) = list(idx[:-2]), idx[-2], idx[-1]
            if ctx().extra.get('sealed_dft'):
                return sums.mk_sealed('dft', [H, W], lambda i, j: sign * zreal(e(lead + [(i,), (j,)])) *
                                      F(i, j, k1, k2, H, W))
            return sums.mk_sum(T.dim(H), lambda i: sums.mk_sum(
                T.dim(W), lambda j: sign * zreal(e(lead + [(i,), (j,)])) * F(i, j, k1, k2, H, W)))
        return STensor(u.axes, elem, 'r')
    return CTensor(part(COS, 1), part(SIN, -1), STensor(u.axes, e, 'r'))


def ifft2(F, *a, **k):
    if a or k:
        raise Unsupported('ifft2 options')
    if F.spatial is not None:
        return CTensor(F.spatial, zero_like(F.spatial))
    H, W = _two(F.re)
    re, im = F.re.frozen(), F.im.frozen()
    hw = z3.ToReal(H) * z3.ToReal(W)

    def part(a, fa, b, fb, sb):
        def elem(idx):
            lead, (i,), (j,) = list(idx[:-2]), idx[-2], idx[-1]
            s = sums.mk_sum(T.dim(H), lambda k1: sums.mk_sum(T.dim(W), lambda k2: (
                zreal(a(lead + [(k1,), (k2,)])) * fa(i, j, k1, k2, H, W)
                + sb * zreal(b(lead + [(k1,), (k2,)])) * fb(i, j, k1, k2, H, W))))
            return core.rdiv(s, hw)
        return STensor(F.re.axes, elem, 'r')
    return CTensor(part(re, COS, im, SIN, -1), part(re, SIN, im, COS, 1))


def _last(u, axes):
    n = u.ndim
    ax = [int(a) % n for a in axes]
    if len(ax) != 2 or ax[0] >= ax[1]:
        raise Unsupported('fft over these axes')
    order = [j for j in range(n) if j not in ax] + ax
    back = [order.index(j) for j in range(n)]
    return order, back


def _along(f):
    def g(u, s=None, axes=None, norm=None):
        if s is not None or norm is not None:
            raise Unsupported('fft options')
        if axes is None:
            if u.ndim != 2:
                raise Unsupported('fft over all axes')
            axes = (0, 1)
        axes = list(axes)
        order, back = _last(u, axes)
        if order == list(range(u.ndim)):
            return f(u)
        mv = (lambda t: t._map(lambda x: T.transpose(x, order), True)) if isinstance(u, CTensor) else \
            (lambda t: T.transpose(T.as_tensor(t), order))
        return f(mv(u))._map(lambda x: T.transpose(x, back), True)
    return g


def _shift(v, axes, inv):
    if isinstance(v, CTensor):
        return v._map(lambda t: _shift(t, axes, inv), True)
    v = T.as_tensor(v)
    ax = range(v.ndim) if axes is None else [int(a) % v.ndim for a in (axes if isinstance(axes, (tuple, list))
                                                                      else [axes])]
    ax = list(ax)
    e = v.frozen()

    def elem(idx):
        idx = list(idx)
        for a in ax:
            if len(v.axes[a]) != 1:
                raise Unsupported('shift of a composite axis')
            n = zi(dprod(v.axes[a]))
            h = n / z3.IntVal(2)
            idx[a] = (wrap_idx(idx[a][0] + (h if inv else n - h), n),)
        return e(idx)
    return STensor(v.axes, elem, v.kind)


def fftshift(v, axes=None):
    return _shift(v, axes, False)


def ifftshift(v, axes=None):
    return _shift(v, axes, True)


def real(x):
    if isinstance(x, CTensor):
        return x.re.copy() if hasattr(x.re, 'copy') else x.re
    return x


def spdiags(data, diags, m, n, *a, **k):
    """rows of data on the diagonals 0, -d, -2d, ... (d the number of columns)"""
    c = ctx()
    data = data if isinstance(data, CTensor) else CTensor(T.as_tensor(data), zero_like(T.as_tensor(data)))
    axk, axd = data.axes
    K, D = zi(dprod(axk)), zi(dprod(axd))
    i = z3.Int(c.fresh('sd'))
    dg = T.as_tensor(diags)
    if len(axk) != 1 or not T.deq(dprod(dg.axes[0]), dprod(axk)):
        raise Unsupported('spdiags')
    from . import prove as PV
    ok = PV.check(c.pc + [i >= 0, i < K], z3.And(zreal(dg.get(i)) == z3.ToReal(-i * D),
                                                zi(T.dim(m)) == K * D, zi(T.dim(n)) == D))
    if ok[0] != 'proved':
        raise Unsupported('spdiags with other diagonals')

    def mk(t):
        e = t.frozen()

        def elem(idx):
            r, c_ = idx
            p = r[1:]
            eq = z3.simplify(z3.And(*[x == y for x, y in zip(p, c_)]))
            return z3.If(eq, zreal(e([(r[0],), c_])), z3.RealVal(0))
        return STensor([tuple(axk) + tuple(axd), tuple(axd)], elem, 'r')
    return CTensor(mk(data.re), mk(data.im))


def spsolve(A, b, *a, **k):
    """A x = b (deterministic function of A and b); the equation is available to
    the proof at any index through ctx().solves"""
    c = ctx()
    A, b = A, b
    ax = A.axes[1]
    x = CTensor(T.fresh(c.fresh('spx'), [ax]), T.fresh(c.fresh('spy'), [ax]))
    c.extra.setdefault('solves', []).append((A, b, x))
    return x


def pad(pixels, pad_width, mode='constant', **k):
    """np.pad: the constant mode pads zeros, every other mode takes its values at an
    index map of the array (identity inside)"""
    if k:
        raise Unsupported('pad options')
    c = ctx()
    t = T.as_tensor(pixels)
    pw = list(pad_width)
    if len(pw) != t.ndim:
        raise Unsupported('pad widths')
    pw = [tuple(p) for p in pw]
    axes, plan = [], []
    for a, (b4, af) in zip(t.axes, pw):
        zb, za = zint(b4), zint(af)
        if not c.must(z3.And(zb >= 0, za >= 0)):
            if c.branch(z3.Or(zb < 0, za < 0)):
                raise ValueError("index can't contain negative values")
        if z3.is_int_value(z3.simplify(zb)) and z3.is_int_value(z3.simplify(za)) and \
                z3.simplify(zb).as_long() == 0 and z3.simplify(za).as_long() == 0:
            axes.append(a)
            plan.append(None)
            continue
        if len(a) != 1:
            raise Unsupported('pad of a composite axis')
        n = zi(a[0])
        axes.append((T.dim(z3.simplify(n + zb + za)),))
        plan.append((zb, n))
    e = t.frozen()
    const = mode == 'constant'
    bmap = None if const else z3.Function('bnd_%s' % mode, INT, INT, INT)

    def elem(idx):
        g, src = [], []
        for i, p in zip(idx, plan):
            if p is None:
                src.append(i)
                continue
            zb, n = p
            j = z3.simplify(i[0] - zb)
            inside = z3.And(j >= 0, j < n)
            if const:
                g.append(inside)
                src.append((j,))
            else:
                src.append((z3.simplify(z3.If(inside, j, bmap(j, n))),))
        v = zreal(e(src))
        if g:
            g = z3.simplify(z3.And(*g))
            return v if z3.is_true(g) else z3.If(g, v, z3.RealVal(0))
        return v
    return STensor(axes, elem, 'r')


fftn, ifftn = _along(fft2), _along(ifft2)
ATAN2 = z3.Function('atan2', REAL, REAL, REAL)


def arctan2(y, x):
    return T.bmap(lambda a, b: ATAN2(zreal(a), zreal(b)), T.as_tensor(y), T.as_tensor(x), 'r')


def angle(z):
    if not isinstance(z, CTensor):
        raise Unsupported('angle of a real array')
    return arctan2(z.im, z.re)


FFT = dict(fft2=fft2, ifft2=ifft2, fftn=fftn, ifftn=ifftn, fftshift=fftshift, ifftshift=ifftshift)
STUBS = {'numpy.fft': FFT, 'scipy.sparse': dict(spdiags=spdiags, eye=speye),
         'scipy.sparse.linalg': dict(spsolve=spsolve)}
