"""From arrays with symbolic elements to the matrix algebra of ring.py.

Arrays remember how they were computed from others (products, transposes, sums,
scalings, diagonals); an array computed otherwise is an atom, one atom per array
up to provable equality of all elements."""
from .core import z3, ctx, Unsupported, SBase, wrap, zreal, _isnum
from . import core, ring
from . import tensor as T
from .tensor import STensor, dprod, zi
import numpy as _np


def on():
    c = core.CTX
    return c is not None and c.extra.get('bridge')


def enable():
    ctx().extra['bridge'] = True


def _op(x):
    return (x, x.version()) if isinstance(x, STensor) else (x, None)


def note(r, op, *args):
    """r was computed as op(args)"""
    if isinstance(r, STensor) and r.ndim in (1, 2):
        r.prov = (r.version(), op, [_op(a) for a in args])
    return r


def _prov(t):
    p = getattr(t, 'prov', None)
    if p is None or p[0] != t.version():
        return None
    for x, v in p[2]:
        if isinstance(x, STensor) and x.version() != v:
            return None
    return p[1], [x for x, _ in p[2]]


def scalar(x):
    return isinstance(x, SBase) or _isnum(x)


def mat(t):
    """the matrix of an array (a one-dimensional array is a row vector)"""
    if isinstance(t, ring.Mat):
        return t
    if isinstance(t, _np.ndarray):
        t = T.as_tensor(t)
    if not isinstance(t, STensor) or t.ndim not in (1, 2):
        raise Unsupported('not a matrix: %r' % (t,))
    p = _prov(t)
    if p is not None:
        op, a = p
        if op == 'dot':
            if t.ndim == 1 and any((_prov(x) or ('',))[0] == 'diag' for x in a):
                return atom(t, 'vec')
            return mat(a[0]).dot(mat(a[1]))
        if op == 'T':
            return mat(a[0]).T
        if op == 'add':
            return mat(a[0]) + mat(a[1])
        if op == 'sub':
            return mat(a[0]) - mat(a[1])
        if op == 'mul':
            return mat(a[0]) * a[1]
        if op == 'div':
            return mat(a[0]) / a[1]
        if op == 'same':
            return mat(a[0])
        if op == 'diag':
            return atom(a[0], 'diag')
        if op == 'eye':
            return ring.identity(ring.dim(a[0]))
    return atom(t, 'vec' if t.ndim == 1 else 'mat')


def atom(t, kind):
    tab = ctx().extra.setdefault('bridge_atoms', [])
    dims = [ring.dim(zi(dprod(a)) if z3.is_expr(dprod(a)) else dprod(a)) for a in t.axes]
    if any(z3.is_expr(d) is False and d == 0 for d in dims):
        raise Unsupported('empty matrix')
    from . import prove as PV
    c = ctx()
    for k, u, m in tab:
        if k != kind or u.ndim != t.ndim or not all(T.deq(dprod(x), dprod(y)) for x, y in zip(u.axes, t.axes)):
            continue
        g = T.tensor_eq(u, t)
        st = PV.check(c.pc + c.axioms, g, timeout=3000)[0]
        if st == 'proved':
            return m
        if st == 'unknown':
            c.extra['atoms_unsure'] = True
    if iszero(t):
        sh = ((1, dims[0]) if kind == 'vec' else (dims[0],) * 2 if kind == 'diag' else tuple(dims))
        m = ring.Mat(sh, {}, kind == 'vec')
    else:
        s = ring.st()
        s['n'] += 1
        nm = '%s#%d' % (t.name or kind, s['n'])
        if kind == 'vec':
            m = _rnd(nm, 1, dims[0], True)
        elif kind == 'diag':
            n = dims[0]
            a = ring._diag_atom(nm, n, lambda env: _np.diag(env['rng'].uniform(0.5, 2, ring.ev_dim(n, env))))
            m = ring.atom_mat(a)
        else:
            m = _rnd(nm, dims[0], dims[1], False)
    u = t.copy()
    u.prov = None
    tab.append((kind, u, m))
    for k in m.terms:
        if kind != 'diag':
            k[0].tensor = u
            k[0].transposed().tensor = None
    return m


def mean(t, m):
    """the array t is known to be the matrix m"""
    u = t.copy()
    u.prov = None
    ctx().extra.setdefault('bridge_atoms', []).append(('mat', u, m))


def settle(d):
    """a difference of normal forms, zero by the elements of its leading arrays?
    -> 'proved' | 'failed' | 'unknown'"""
    from . import prove as PV
    c = ctx()
    groups = {}
    for mono, co in d.terms.items():
        a = mono[0] if mono else None
        t = getattr(a, 'tensor', None)
        groups.setdefault((tuple(id(x) for x in mono[1:]) if t is not None else ('?',) + tuple(id(x) for x in mono)),
                          []).append((t, co))
    out = 'proved'
    for g in groups.values():
        if any(t is None for t, _ in g):
            st = PV.check(c.pc + c.axioms, g[0][1] == 0)[0] if len(g) == 1 else 'unknown'
        else:
            tot = None
            for t, co in g:
                u = T.umap(lambda x, co=co: zreal(wrap(x)) * co, t, 'r')
                tot = u if tot is None else T.bmap(lambda x, y: x + y, tot, u, 'r')
            z = STensor(tot.axes, lambda idx: z3.RealVal(0), 'r')
            st = 'proved'
            n = len(c.obls)
            if not T.prove_eq('.', tot, z):
                st = 'failed' if any(o[1] == 'failed' for o in c.obls[n:]) else 'unknown'
            del c.obls[n:]
        if st == 'failed':
            return 'failed'
        if st == 'unknown':
            out = 'unknown'
    return out


def iszero(t):
    from . import prove as PV
    c = ctx()
    z = STensor(t.axes, lambda idx: z3.RealVal(0), 'r')
    return PV.check(c.pc + c.axioms, T.tensor_eq(t, z), timeout=2000)[0] == 'proved'


def _rnd(nm, r, c, vec):
    a = ring.Atom(nm, (ring.dim(r), ring.dim(c)), lambda env: env['rng'].standard_normal(
        (ring.ev_dim(r, env) if z3.is_expr(r) else r, ring.ev_dim(c, env) if z3.is_expr(c) else c)))
    return ring.atom_mat(a, vec)


def prove_eq(name, a, b, dims):
    return ring.prove_eq(name, mat(a), mat(b), dims)
