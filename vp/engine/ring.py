"""Matrix algebra over symbolic matrices of symbolic size.

A matrix is a non-commutative polynomial over atoms; its normal form is computed
with the rewrite rules its atoms come with (inverse, orthonormal factors, pseudo
inverse ...: the assumed contracts of numpy.linalg and menpo.math.pca).  An
obligation is an equality of normal forms.  When normal forms differ, random
instances of the atoms decide between refuted and not decided."""
import time
import random
from fractions import Fraction
import numpy as _np
from .core import z3, INT, REAL, ctx, Unsupported, SBase, SInt, SReal, SBool, wrap, zreal, zint, _isnum, to_frac
from . import core


def st():
    return ctx().extra.setdefault('ring', dict(rules=[], atoms={}, n=0))


def dim(x):
    if isinstance(x, SInt):
        x = x.t
    if z3.is_expr(x):
        x = z3.simplify(x)
        return x.as_long() if z3.is_int_value(x) else x
    return int(x)


def deq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return z3.is_true(z3.simplify(zi(a) == zi(b))) or ctx().must(zi(a) == zi(b))


def zi(a):
    return z3.IntVal(a) if isinstance(a, int) else a


class Atom(object):
    def __init__(self, name, shape, num, diag=False, parts=None):
        self.name, self.shape, self.num, self.diag, self.parts = name, shape, num, diag, parts
        self.tr = None

    def transposed(self):
        if self.tr is None:
            t = Atom(self.name + "'", self.shape[::-1], lambda env, s=self: ev_atom(s, env).T)
            t.tr, self.tr = self, t
        return self.tr

    def __repr__(self):
        return self.name


def csimp(c):
    return z3.simplify(c, som=True)


def czero(c):
    return z3.is_rational_value(c) and c.as_fraction() == 0


class Mat(object):
    __array_ufunc__ = None
    __vatomic__ = True
    __array_priority__ = 5000

    def __init__(self, shape, terms, vec=False):
        self._s = tuple(dim(x) for x in shape)
        self.terms = {m: c for m, c in terms.items() if not czero(c)}
        self.vec = vec            # one-dimensional: a row
        self._v = 0

    shape = property(lambda s: tuple(wrap(x) if z3.is_expr(x) else x for x in (s._s[1:] if s.vec else s._s)))
    ndim = property(lambda s: 1 if s.vec else 2)
    dtype = float

    @property
    def size(self):
        r = 1
        for x in self.shape:
            r = r * x
        return r

    def copy(self):
        return Mat(self._s, dict(self.terms), self.vec)

    def astype(self, *a, **k):
        return self.copy()

    @property
    def T(self):
        if self.vec:
            return self
        return Mat(self._s[::-1], {tuple(a.transposed() for a in reversed(m)): c for m, c in self.terms.items()})

    def transpose(self):
        return self.T

    @property
    def __vsym__(self):
        return True

    def ravel(self, *a, **k):
        if self.vec:
            return self.copy()
        raise Unsupported('ravel of a matrix')
    flatten = ravel

    def _lift(self, o):
        if isinstance(o, Mat):
            return o
        return None

    def __add__(self, o):
        o = _br(o)
        if not isinstance(o, Mat):
            if _isnum(o) and o == 0:
                return self.copy()
            return NotImplemented if not isinstance(o, (SBase,)) and not _isnum(o) else _uns('matrix plus scalar')
        if self.vec != o.vec or not all(deq(a, b) for a, b in zip(self._s, o._s)):
            raise Unsupported('sum of matrices of different shapes')
        t = dict(self.terms)
        for m, c in o.terms.items():
            t[m] = csimp(t[m] + c) if m in t else c
        return Mat(self._s, t, self.vec)
    __radd__ = __add__

    def __neg__(self):
        return self * -1

    def __sub__(self, o):
        o = _br(o)
        return self + (-o if isinstance(o, Mat) else _uns('matrix minus something'))

    def __rsub__(self, o):
        return -self + o

    def __mul__(self, o):
        if isinstance(o, SBase) or _isnum(o):
            c = zreal(o)
            return Mat(self._s, {m: csimp(v * c) for m, v in self.terms.items()}, self.vec)
        if self.vec and type(o).__name__ == 'STensor' and o.ndim == 1 and ctx().extra.get('bridge'):
            from . import bridge
            return self.dot(bridge.atom(o, 'diag'))
        raise Unsupported('elementwise product of matrices')
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, SBase) or _isnum(o):
            return self * (1.0 / o if _isnum(o) and not isinstance(o, SBase) else wrap(core.rdiv(z3.RealVal(1), zreal(o))))
        raise Unsupported('elementwise quotient of matrices')

    def dot(self, o):
        o = _br(o)
        if not isinstance(o, Mat):
            raise Unsupported('product with %s' % type(o).__name__)
        a, b = self, o
        if b.vec:
            if a.vec:
                raise Unsupported('product of two vectors')
            return b.dot(a.T)
        if not deq(a._s[1], b._s[0]):
            if ctx().branch(zi(a._s[1]) != zi(b._s[0])):
                raise ValueError('shapes not aligned')
        t = {}
        for m, c in a.terms.items():
            for n, d in b.terms.items():
                k = m + n
                t[k] = csimp(t[k] + c * d) if k in t else csimp(c * d)
        return Mat((a._s[0], b._s[1]), t, a.vec)
    __matmul__ = dot

    def _imp(self, o):
        self.terms = dict(o.terms)
        self._v += 1
        return self

    def __iadd__(self, o):
        return self._imp(self + o)

    def __isub__(self, o):
        return self._imp(self - o)

    def __imul__(self, o):
        return self._imp(self * o)

    def __itruediv__(self, o):
        return self._imp(self / o)

    def version(self):
        return self._v

    def __as_tensor__(self):
        from .loops import deft
        t = deft(self)
        if t is self:
            raise Unsupported('elements of a matrix')
        return t

    def __vite__(self, c, b):
        return self.__as_tensor__().__vite__(c, b)

    def __getitem__(self, k):
        ks = k if isinstance(k, tuple) else (k,)
        if self.vec and len(ks) == 1 and isinstance(ks[0], slice) and ks[0].step is None:
            q, n = ks[0], self._s[1]
            if q.start in (None, 0):
                return self if q.stop is None else self.dot(first(n, q.stop))
            if q.stop is None:
                return self.dot(rest(n, q.start))
        if len(ks) > 2 or self.vec:
            raise Unsupported('matrix index')
        ks = ks + (slice(None),) * (2 - len(ks))
        r = self
        for ax, q in enumerate(ks):
            if not isinstance(q, slice) or q.start not in (None, 0) or q.step is not None:
                raise Unsupported('matrix index')
            if q.stop is None:
                continue
            e = first(self._s[ax], q.stop)
            r = r.dot(e) if ax == 1 else e.T.dot(r)
        return r

    def __repr__(self):
        return ' + '.join('%s*%s' % (c, '.'.join(a.name for a in m) or 'I') for m, c in self.terms.items()) or '0'


def _uns(m):
    raise Unsupported(m)


def _br(o):
    if isinstance(o, Mat) or not ctx().extra.get('bridge'):
        return o
    from . import bridge
    from .tensor import STensor
    return bridge.mat(o) if isinstance(o, (STensor, _np.ndarray)) and o.ndim in (1, 2) else o


# ------------------------------------------------------------------- atoms
def atom_mat(a, vec=False):
    return Mat(a.shape, {(a,): z3.RealVal(1)}, vec)


def identity(n):
    return Mat((n, n), {(): z3.RealVal(1)})


def fresh(name, r, c, vec=False):
    s = st()
    s['n'] += 1
    nm = '%s#%d' % (name, s['n'])
    a = Atom(nm, (dim(r), dim(c)), lambda env: env['rng'].standard_normal(
        tuple(ev_dim(x, env) for x in (dim(r), dim(c)))))
    return atom_mat(a, vec)


def rule(pat, rep):
    st()['rules'].append((tuple(pat), rep))


def named(key, mk):
    s = st()
    if key not in s['atoms']:
        s['atoms'][key] = mk()
    return s['atoms'][key]


def key_of(m):
    return tuple(sorted((tuple(id(a) for a in k), csimp(c).sexpr()) for k, c in m.terms.items()))


def nf(m):
    """normal form"""
    rules = st()['rules']
    out, work, steps = {}, list(m.terms.items()), 0
    while work:
        mono, c = work.pop()
        steps += 1
        if steps > 20000:
            raise Unsupported('matrix normal form too large')
        hit = None
        for i in range(len(mono)):
            # blocks stacked on top of each other: [A; B]' [C; D] = A'C + B'D
            if i + 1 < len(mono):
                a, b = mono[i], mono[i + 1]
                pa = a.tr.parts if a.tr is not None and a.tr.parts else None
                if pa and b.parts and len(pa) == len(b.parts) and all(
                        deq(x._s[0], y._s[0]) for x, y in zip(pa, b.parts)):
                    rep = None
                    for x, y in zip(pa, b.parts):
                        t = x.T.dot(y)
                        rep = t if rep is None else rep + t
                    hit = (i, 2, rep)
                    break
            for pat, rep in rules:
                if mono[i:i + len(pat)] == pat:
                    hit = (i, len(pat), rep)
                    break
            if hit:
                break
        if hit is None:
            out[mono] = csimp(out[mono] + c) if mono in out else c
            continue
        i, n, rep = hit
        for k, d in rep.terms.items():
            work.append((mono[:i] + k + mono[i + n:], csimp(c * d)))
    return Mat(m._s, {k: c for k, c in out.items() if not czero(csimp(c))}, m.vec)


def is_zero(m):
    n = nf(m)
    return all(czero(csimp(c)) for c in n.terms.values())


def lead(p):
    return max(p.terms, key=lambda k: (len(k), [a.name for a in k]))


def symmetric(p):
    return is_zero(p.T - p)


def inv(m):
    if m.vec:
        raise Unsupported('inverse of a vector')
    if not deq(m._s[0], m._s[1]):
        raise Unsupported('inverse of a rectangular matrix')
    p = nf(m)
    n = p._s[0]
    if not p.terms:
        raise Unsupported('inverse of the zero matrix')
    ld = lead(p)
    c = p.terms[ld]
    if ld == ():
        return identity(n) * wrap(core.rdiv(z3.RealVal(1), c))

    def mk():
        s = st()
        s['n'] += 1
        dg = len(p.terms) == 1 and len(ld) == 1 and ld[0].diag
        a = Atom('inv#%d' % s['n'], (n, n), lambda env: _np.linalg.inv(ev(p, env)), diag=dg)
        if symmetric(p):
            a.tr = a
        return a
    key = ('inv', key_of(p))
    new = key not in st()['atoms']
    a = named(key, mk)
    A = atom_mat(a)
    if new:
        ic = wrap(core.rdiv(z3.RealVal(1), c))
        rest = Mat(p._s, {k: v for k, v in p.terms.items() if k != ld})
        rule((a,) + ld, (identity(n) - A.dot(rest)) * ic)
        rule(ld + (a,), (identity(n) - rest.dot(A)) * ic)
        if a.tr is not a:
            t = a.transposed()
            lt = tuple(x.transposed() for x in reversed(ld))
            At, rt = atom_mat(t), rest.T
            rule((t,) + lt, (identity(n) - At.dot(rt)) * ic)
            rule(lt + (t,), (identity(n) - rt.dot(At)) * ic)
    return A


def solve(a, b):
    r = inv(a).dot(b)
    ctx().extra.setdefault('solves', []).append((a, b, r))
    return r


def pinv(m, *a, **k):
    p = nf(m)
    if len(p.terms) != 1:
        raise Unsupported('pseudo inverse of a sum')
    (z, c), = p.terms.items()
    if not (z3.is_rational_value(c) and c.as_fraction() == 1):
        raise Unsupported('pseudo inverse of a multiple')

    def mk():
        s = st()
        s['n'] += 1
        return Atom('pinv#%d' % s['n'], p._s[::-1], lambda env: _np.linalg.pinv(ev(p, env)))
    key = ('pinv', key_of(p))
    new = key not in st()['atoms']
    at = named(key, mk)
    P = atom_mat(at)
    if new:
        zt = tuple(x.transposed() for x in reversed(z))
        rule(zt + z + (at,), Mat(p._s[::-1], {zt: z3.RealVal(1)}))
        rule((at,) + z + (at,), P)
    return P


class Vec(object):
    """the diagonal of a diagonal matrix"""
    __array_ufunc__ = None

    def __init__(self, m):
        self.m = m

    shape = property(lambda s: (s.m.shape[0],))
    size = property(lambda s: s.m.shape[0])
    ndim = 1

    def __len__(self):
        raise Unsupported('len of a vector')

    def __getitem__(self, k):
        if isinstance(k, slice) and k.start in (None, 0) and k.step is None:
            if k.stop is None:
                return self
            e = first(self.m._s[0], k.stop)
            return Vec(nf(e.T.dot(self.m).dot(e)))
        raise Unsupported('vector index')

    def __add__(self, o):
        if isinstance(o, SBase) or _isnum(o):
            return Vec(self.m + identity(self.m._s[0]) * o)
        raise Unsupported('vector sum')
    __radd__ = __add__

    def __truediv__(self, o):
        return Share(self, o)


class DiagOf(object):
    """diagonal of an arbitrary matrix plus a number"""
    __array_ufunc__ = None

    def __init__(self, m, off=0):
        self.m, self.off = m, off

    def __add__(self, o):
        if isinstance(o, SBase) or _isnum(o):
            return DiagOf(self.m, self.off + o)
        raise Unsupported('sum with a diagonal')
    __radd__ = __add__


class Share(object):
    __array_ufunc__ = None

    def __init__(self, v, tot):
        self.v, self.tot = v, tot

    def __lt__(self, o):
        return ('below', self.v, self.tot, o)

    def __le__(self, o):
        return ('upto', self.v, self.tot, o)


class Agg(object):
    def __init__(self, op, v):
        self.op, self.v = op, v

    def __truediv__(self, o):
        if isinstance(o, Agg):
            return Share(self, o)
        raise Unsupported('quotient of aggregates')


def first(n, k):
    """selection of the first k of n coordinates (n x k)"""
    k = dim(k)
    if deq(n, k):
        return identity(n)
    key = ('first', str(n), str(k))
    new = key not in st()['atoms']
    a = named(key, lambda: Atom('first(%s)' % k, (n, k), lambda env: _np.eye(ev_dim(n, env), ev_dim(k, env))))
    if new:
        rule((a.transposed(), a), identity(k))
        for d in list(st().get('diags', [])):
            _commute(d, a, k)
        st().setdefault('firsts', []).append((a, n, k))
    return atom_mat(a)


def rest(n, k):
    """selection of all but the first k of n coordinates (n x (n - k))"""
    k = dim(k)
    key = ('rest', str(n), str(k))
    new = key not in st()['atoms']
    m = dim(zi(n) - zi(k))
    a = named(key, lambda: Atom('rest(%s)' % k, (n, m),
                                lambda env: _np.eye(ev_dim(n, env))[:, ev_dim(k, env):]))
    if new:
        rule((a.transposed(), a), identity(m))
    return atom_mat(a)


def _commute(d, e, k):
    if not deq(d.shape[0], e.shape[0]):
        return
    key = ('sub', id(d), str(k))
    new = key not in st()['atoms']
    dk = named(key, lambda: _diag_atom('%s[:%s]' % (d.name, k), k, lambda env: ev_atom(d, env)[:ev_dim(k, env), :ev_dim(k, env)]))
    if new:
        rule((d, e), atom_mat(e).dot(atom_mat(dk)))
        rule((e.transposed(), d), atom_mat(dk).dot(atom_mat(e.transposed())))


def _diag_atom(name, n, num):
    a = Atom(name, (dim(n), dim(n)), num, diag=True)
    a.tr = a
    st().setdefault('diags', []).append(a)
    for e, m, k in st().get('firsts', []):
        _commute(a, e, k)
    return a


def svd(m, full_matrices=True, *a, **k):
    if full_matrices is not False or a or k:
        raise Unsupported('full svd')
    p = nf(m)
    s = st()
    r, c = p._s
    if ctx().must(zi(r) >= zi(c)):
        q, square = c, 'V'
    elif ctx().must(zi(r) <= zi(c)):
        q, square = r, 'U'
    else:
        q, square = z3.simplify(z3.If(zi(r) <= zi(c), zi(r), zi(c))), None
    s['n'] += 1
    key = ('svd', key_of(p))
    old = s['atoms'].get(key)
    if old is None:
        i = s['n']
        f = lambda j: (lambda env: _memo(env, ('svd', i), lambda: _np.linalg.svd(ev(p, env), full_matrices=False))[j])
        U, V = Atom('U#%d' % i, (r, q), f(0)), Atom('V#%d' % i, (q, c), f(2))
        S = _diag_atom('S#%d' % i, q, lambda env: _np.diag(f(1)(env)))
        old = s['atoms'][key] = (U, S, V)
        rule((U.transposed(), U), identity(q))
        rule((V, V.transposed()), identity(q))
        if square == 'V':
            rule((V.transposed(), V), identity(q))
        if square == 'U':
            rule((U, U.transposed()), identity(q))
        ld = lead(p)
        ic = wrap(core.rdiv(z3.RealVal(1), p.terms[ld]))
        rest = Mat(p._s, {k_: v for k_, v in p.terms.items() if k_ != ld})
        usv = (atom_mat(U).dot(atom_mat(S)).dot(atom_mat(V)) - rest) * ic
        rule(ld, usv)
        lt = tuple(x.transposed() for x in reversed(ld))
        if lt != ld:
            rule(lt, usv.T)
    U, S, V = old
    ctx().extra.setdefault('svds', []).append((p, atom_mat(U), atom_mat(S), atom_mat(V)))
    return atom_mat(U), Vec(atom_mat(S)), atom_mat(V)


def pca(m, centre=True, inplace=False, eps=1e-10, **k):
    """menpo.math.pca of X without centring: rows of U orthonormal eigenvectors of X'X / (n - 1)"""
    if centre is not False or inplace or k:
        raise Unsupported('pca options')
    p = nf(m)
    s = st()
    key = ('pca', key_of(p))
    old = s['atoms'].get(key)
    r, c = p._s
    if old is None:
        s['n'] += 1
        i = s['n']
        q = z3.Int('pca_k#%d' % i)
        ctx().assume(z3.And(q >= 1, q <= zi(c)))

        def dec(env):
            def go():
                w, v = _np.linalg.eigh(ev(p, env).T.dot(ev(p, env)) / (ev_dim(r, env) - 1))
                return v.T[::-1], _np.diag(w[::-1])
            return _memo(env, ('pca', i), go)
        s.setdefault('dims', {})[str(q)] = c
        U = Atom('E#%d' % i, (q, c), lambda env: dec(env)[0])
        L = _diag_atom('L#%d' % i, q, lambda env: dec(env)[1])
        rule((U, U.transposed()), identity(q))
        # U X' X U' = (n - 1) L
        pp = nf(p.T.dot(p))
        ld = lead(pp)
        n = wrap(z3.ToReal(zi(r) - 1))
        if len(pp.terms) == 1:
            rule((U,) + ld, atom_mat(L).dot(atom_mat(U)) * n)
            rule(ld + (U.transposed(),), atom_mat(U.transposed()).dot(atom_mat(L)) * n)
        old = s['atoms'][key] = (U, L)
    U, L = old
    ctx().extra.setdefault('pcas', []).append((p, atom_mat(U), atom_mat(L)))
    return atom_mat(U), Vec(atom_mat(L)), None


def pcacov(m, *a, **k):
    """menpo.math.pcacov: rows of U orthonormal eigenvectors of the symmetric matrix m"""
    if a or k:
        raise Unsupported('pcacov options')
    p = nf(m)
    s = st()
    key = ('pcacov', key_of(p))
    old = s['atoms'].get(key)
    r, c = p._s
    if not symmetric(p):
        raise Unsupported('pcacov of a matrix that is not symmetric')
    if old is None:
        s['n'] += 1
        i = s['n']
        q = z3.Int('pca_k#%d' % i)
        ctx().assume(z3.And(q >= 1, q <= zi(c)))

        def dec(env):
            def go():
                w, v = _np.linalg.eigh(ev(p, env))
                return v.T[::-1], _np.diag(w[::-1])
            return _memo(env, ('pca', i), go)
        s.setdefault('dims', {})[str(q)] = c
        U = Atom('E#%d' % i, (q, c), lambda env: dec(env)[0])
        L = _diag_atom('L#%d' % i, q, lambda env: dec(env)[1])
        rule((U, U.transposed()), identity(q))
        old = s['atoms'][key] = (U, L)
    U, L = old
    ctx().extra.setdefault('pcas', []).append((p, atom_mat(U), atom_mat(L)))
    return atom_mat(U), Vec(atom_mat(L))


# ------------------------------------------------------------ numpy on Mats
class Ones(object):
    def __init__(self, shape):
        self.shape = shape if isinstance(shape, tuple) else (shape,)


class _Linalg(object):
    inv = staticmethod(inv)
    solve = staticmethod(solve)
    svd = staticmethod(svd)
    pinv = staticmethod(pinv)

    def __getattr__(self, n):
        raise Unsupported('np.linalg.%s of matrices' % n)


def augment(x):
    """[x 1]"""
    if not isinstance(x, Mat):
        raise Unsupported('hstack')
    p = nf(x)
    if len(p.terms) != 1 or len(list(p.terms)[0]) != 1:
        raise Unsupported('bias of an expression')
    a = list(p.terms)[0][0]
    if a.parts:
        return vcat([augment(q) for q in a.parts])
    return atom_mat(named(('aug', id(a), x.vec), lambda: Atom(
        '[%s 1]' % a.name, (x._s[0], dim(zi(x._s[1]) + 1)),
        lambda env: _np.hstack([ev_atom(a, env), _np.ones((ev_atom(a, env).shape[0], 1))]))), x.vec)


def vcat(ms):
    key = ('vcat',) + tuple(key_of(m) for m in ms)
    n = zi(0)
    for m in ms:
        n = n + zi(m._s[0])
    return atom_mat(named(key, lambda: Atom(
        'vcat(%s)' % ','.join(repr(m) for m in ms), (dim(n), ms[0]._s[1]),
        lambda env: _np.vstack([ev(m, env) for m in ms]), parts=list(ms))))


class RNP(object):
    """numpy as the regressors use it"""
    linalg = _Linalg()
    newaxis = None

    def __getattr__(self, n):
        raise Unsupported('np.%s of matrices' % n)

    def ones(self, shape, *a, **k):
        return Ones(shape)

    def hstack(self, xs, **k):
        xs = list(xs)
        if len(xs) == 2 and isinstance(xs[0], Mat) and isinstance(xs[1], Ones):
            sh = xs[1].shape
            if xs[0].vec:
                ok = len(sh) == 1 and dim(sh[0]) == 1
            else:
                ok = len(sh) == 2 and dim(sh[1]) == 1 and deq(dim(sh[0]), xs[0]._s[0])
            if ok:
                return augment(xs[0])
        raise Unsupported('hstack')

    def concatenate(self, xs, axis=0):
        if axis in (1, -1):
            return self.hstack(xs)
        raise Unsupported('concatenate')

    def vstack(self, xs):
        return vcat(list(xs))

    def diag(self, x):
        if isinstance(x, Vec):
            return x.m.copy()
        if isinstance(x, Mat):
            return DiagOf(x.copy())
        raise Unsupported('diag')

    def fill_diagonal(self, m, d):
        if isinstance(d, DiagOf) and is_zero(d.m - m):
            m._imp(m + identity(m._s[0]) * d.off)
            return
        raise Unsupported('fill_diagonal')

    def eye(self, n, *a, **k):
        return identity(dim(n))
    identity = eye

    def dot(self, a, b):
        return a.dot(b)
    matmul = dot

    def asarray(self, x, *a, **k):
        return x

    def array(self, x, *a, **k):
        return x.copy()

    def cumsum(self, v):
        if isinstance(v, Vec):
            return Agg('cumsum', v)
        raise Unsupported('cumsum')

    def sum(self, v, *a, **k):
        if isinstance(v, Vec):
            return Agg('sum', v)
        if isinstance(v, tuple) and v[0] in ('below', 'upto'):
            _, num, tot, lim = v
            if not (isinstance(num, Agg) and num.op == 'cumsum' and tot.op == 'sum' and
                    is_zero(num.v.m - tot.v.m)):
                raise Unsupported('share')
            return count(v[0], num.v, lim)
        raise Unsupported('sum')
    count_nonzero = sum

    def sqrt(self, m):
        if isinstance(m, Vec):
            return Vec(self.sqrt(m.m))
        p = nf(m)
        if len(p.terms) == 1:
            (k, c), = p.terms.items()
            if len(k) == 1 and k[0].diag and z3.is_rational_value(c) and c.as_fraction() == 1:
                key = ('sqrt', id(k[0]))
                new = key not in st()['atoms']
                a = named(key, lambda: _diag_atom('sqrt(%s)' % k[0].name, p._s[0], lambda env: _np.sqrt(ev(p, env))))
                if new:
                    rule((a, a), p)
                return atom_mat(a)
        raise Unsupported('square root of a matrix')


def count(kind, v, lim):
    """how many cumulative shares of v are below the limit"""
    key = 'count_%s(%s, %s)' % (kind, v.m, zreal(lim).sexpr())
    c = ctx()
    k = z3.Int(key)
    c.assume(z3.And(k >= 0, k <= zi(v.m._s[0])))
    m = v.m
    st().setdefault('dims', {})[key] = lambda env: max(1, int(_np.sum(
        _np.cumsum(_np.diag(ev(m, env))) / _np.sum(_np.diag(ev(m, env))) < ev_scalar(zreal(lim), env))))
    return wrap(k)


# ------------------------------------------------------- random instances
def _memo(env, k, f):
    if k not in env:
        env[k] = f()
    return env[k]


def ev_dim(x, env):
    if isinstance(x, int):
        return x
    sub = []
    seen = []

    def leaves(e):
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and not any(e.eq(q) for q in seen):
            seen.append(e)
        for ch in e.children():
            leaves(ch)
    leaves(x)
    for e in seen:
        d = env['dims'].get(str(e))
        if d is None and str(e) in env['derived']:
            d = env['derived'][str(e)]
            d = d(env) if callable(d) else ev_dim(d, env)
        if d is None:
            raise Unsupported('size %s' % e)
        sub.append((e, z3.IntVal(int(d))))
    return z3.simplify(z3.substitute(x, *sub)).as_long()


def ev_scalar(c, env):
    seen = []

    def leaves(e):
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and not any(e.eq(q) for q in seen):
            seen.append(e)
        for ch in e.children():
            leaves(ch)
    leaves(c)
    sub = []
    for e in seen:
        if e.sort() == INT:
            sub.append((e, z3.IntVal(ev_dim(e, env))))
        else:
            sub.append((e, z3.RealVal(str(_memo(env, ('s', str(e)), lambda: Fraction(random.randint(1, 9), 7))))))
    c = z3.simplify(z3.substitute(c, *sub)) if sub else z3.simplify(c)
    c = core.eval_recip(c) if hasattr(core, 'eval_recip') else c
    return float(c.as_fraction()) if z3.is_rational_value(c) else _ev_recip(c)


def _ev_recip(c):
    if z3.is_rational_value(c):
        return float(c.as_fraction())
    if z3.is_int_value(c):
        return float(c.as_long())
    n = c.decl().name()
    ch = [_ev_recip(x) for x in c.children()]
    k = c.decl().kind()
    if n == 'recip':
        return 1.0 / ch[0]
    if n == 'sqrt':
        return ch[0] ** .5
    if k == z3.Z3_OP_ADD:
        return sum(ch)
    if k == z3.Z3_OP_MUL:
        r = 1.0
        for x in ch:
            r *= x
        return r
    if k == z3.Z3_OP_SUB:
        return ch[0] - sum(ch[1:])
    if k == z3.Z3_OP_UMINUS:
        return -ch[0]
    if k == z3.Z3_OP_TO_REAL:
        return ch[0]
    raise Unsupported('value of %s' % n)


def ev_atom(a, env):
    return _memo(env, ('a', id(a)), lambda: a.num(env))


def ev(m, env):
    r = _np.zeros(tuple(ev_dim(x, env) for x in m._s))
    for k, c in m.terms.items():
        v = None
        for a in k:
            x = ev_atom(a, env)
            v = x if v is None else v.dot(x)
        if v is None:
            v = _np.eye(r.shape[0])
        r = r + ev_scalar(c, env) * v
    return r


def prove_eq(name, a, b, dims):
    """a == b by normal forms; otherwise decided on random instances of the given sizes"""
    c = ctx()
    t0 = time.time()
    if a.vec != b.vec or not all(deq(x, y) for x, y in zip(a._s, b._s)):
        c.obls.append((name, 'failed', 'ring', 0.0, 'shapes %s and %s' % (a.shape, b.shape)))
        return False
    raw = a - b
    d = raw if not raw.terms else nf(raw)
    if all(czero(csimp(x)) for x in d.terms.values()):
        c.obls.append((name, 'proved', 'ring', time.time() - t0, ''))
        return True
    from . import prove as PV
    if d.terms and all(PV.check(c.pc + c.axioms, x == 0)[0] == 'proved' for x in d.terms.values()):
        c.obls.append((name, 'proved', 'ring+z3', time.time() - t0, ''))
        return True
    st_, det = 'unknown', 'normal forms differ: %r' % d
    if c.extra.get('bridge') and any(getattr(m[0], 'tensor', None) is not None for m in d.terms if m):
        from . import bridge
        r = bridge.settle(d)
        if r == 'proved':
            c.obls.append((name, 'proved', 'ring+z3', time.time() - t0, ''))
            return True
        if r == 'unknown' or c.extra.get('atoms_unsure'):
            c.obls.append((name, 'unknown', 'ring+z3', time.time() - t0, det[:600]))
            return False
    try:
        for i in range(3):
            env = dict(rng=_np.random.default_rng(i), dims=dims, derived=st().get('dims', {}))
            x, y = ev(a, env), ev(b, env)
            if not _np.allclose(x, y, rtol=1e-6, atol=1e-8):
                st_ = 'failed'
                det = 'differs for random matrices (instance %d) by %g; %s' % (i, _np.max(_np.abs(x - y)), det)
                break
    except Unsupported as e:
        det += ' (%s)' % e
    c.obls.append((name, st_, 'ring', time.time() - t0, det[:600]))
    return False
