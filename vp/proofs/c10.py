"""C10: derivatives of shape models and of model driven warps; compositional updates.

The models are those of C09 (menpo's linear models executed along), from an
arbitrary state that satisfies the invariant proved there."""
from .common import *
from ..engine import diff
from . import c09
from .c09 import (M, MD, Align, AlignAffine, Shape, Warp, LIN, CLS, MDCLS, instance, scramble, shape_of, world, mdworld,
                  placed, agrees, md_agrees, nparams, matrix, Inverse, pca_model)
from .c08 import idx

PID = 'C10'


# what C08 proves of the alignments used as global transforms
def align_d_dp(self, x):
    o, z = T.const((x.shape[0],), 1.0), T.const((x.shape[0],), 0.0)
    st = lambda cols: T.transpose(T.stack(VList(cols)))
    if self.kind == 'similarity':
        rows = [st([x[:, 0], x[:, 1]]), st([-x[:, 1], x[:, 0]]), st([o, z]), st([z, o])]
    else:
        d = self.d
        rows = [st([x[:, c] if r == k else z for r in range(d)]) for c in range(d) for k in range(d)]
        rows += [st([o if r == k else z for r in range(d)]) for k in range(d)]
    return T.transpose(T.stack(VList(rows)), (1, 0, 2))


Align.d_dp = align_d_dp
Align.d_dx = lambda self, x: self.h[0][None, :, :]


def state(x, kind, d):
    scramble(x, kind, d)
    x._weights = fresh('w_now', axes_of(x.model.n_active_components))
    if kind == 'ortho':
        x.similarity_weights = fresh('q_now', axes_of(4))
        sm = x.similarity_model
        x.global_transform.set_target(Shape((sm._mean + T.dot(x.similarity_weights, sm.components)).reshape((-1, d))))
    elif kind != 'plain':
        x.global_transform.q = fresh('q_now', axes_of(x.global_transform.n_parameters))
    x._target = Shape(placed(x, kind, d))


def n_global(x, kind):
    return 0 if kind == 'plain' else int(x.global_transform.n_parameters)


def placed_mean(x, kind, d):
    mean = x.model._mean.reshape((-1, d))
    if kind == 'ortho':
        sm = x.similarity_model
        return (sm._mean + T.dot(x.similarity_weights, sm.components)).reshape((-1, d))
    A, t = x.global_transform.h
    return T.dot(mean, A.T) + t


def derivative_of_shape(x, J, kind, d, first=None):
    """J is the derivative of the placed points (from point `first` on)"""
    ng = n_global(x, kind)
    k = x.model.n_active_components
    N = zint(x.model.mean().points.shape[0])
    f = zint(first) if first is not None else z3.IntVal(0)
    prove('one row per point, one column per parameter, one entry per dimension',
          z3.And(zint(J.shape[0]) == N - f, zint(J.shape[1]) == ng + zint(k), zint(J.shape[2]) == d))
    p = idx('p', wrap(z3.simplify(N - f)))
    y = placed(x, kind, d)
    i = idx('i', k)
    e = lambda s, j: at(s, z3.simplify(p + f), j)
    for j in range(d):
        t = diff.tangent(e(y, j), diff.entry('w_now', i))
        prove('derivative of coordinate %d in a weight' % j, at(J, p, z3.simplify(i + ng), j) == t)
    if ng:
        m = placed_mean(x, kind, d)
        for g in range(ng):
            for j in range(d):
                t = diff.tangent(e(m, j), diff.entry('q_now', z3.IntVal(g)))
                prove('derivative of coordinate %d in global parameter %d' % (j, g), at(J, p, z3.IntVal(g), j) == t)


def shape_derivative(kind, d):
    x, N, w = instance(kind, d)
    state(x, kind, d)
    pt = pts('x', sint('n', 1), d)
    before, tgt, C, mean = x.as_vector().copy(), x.target.points.copy(), x.model._components.copy(), x.model._mean.copy()
    fr = Frame(x=pt, C=x.model._components, mean=x.model._mean)
    J = x.d_dp(pt)
    fr.check('points and model unmodified')
    derivative_of_shape(x, J, kind, d)
    prove_eq('parameters unmodified', x.as_vector(), before)
    prove_eq('target unmodified', x.target.points, tgt)


def similarity_only():
    w = world()
    m = w.load(M)
    N = sint('n_points', 3)
    g = object.__new__(m.GlobalSimilarityModel)
    g.mean = Shape(pts('mean', N, 2))
    g.transform = Align(g.mean, g.mean)
    g.transform.q = fresh('q_now', axes_of(4))
    g._target = g.transform.apply(g.mean)
    y = g._target.points.copy()
    J = g.d_dp(None)
    prove('layout', z3.And(zint(J.shape[0]) == N.t, zint(J.shape[1]) == 4, zint(J.shape[2]) == 2))
    p = idx('p', N)
    for j in range(2):
        for k in range(4):
            prove('derivative of coordinate %d in parameter %d' % (j, k),
                  at(J, p, k, j) == diff.tangent(at(y, p, j), diff.entry('q_now', z3.IntVal(k))))
    prove_eq('target unmodified', g.target.points, y)


DIF = 'derivatives of the global transform: those of its matrix (proved in C08)'
for _k in ('plain', 'similarity', 'affine', 'ortho'):
    for _d in ((2, 3) if _k in ('plain', 'affine') else (2,)):
        unit(PID, 'shape derivative: %s, %dD' % (_k, _d),
             [M + ':PDM.d_dp'] + ([M + ':GlobalPDM.d_dp', M + ':GlobalPDM._global_transform_d_dp'] if _k != 'plain' else [])
             + ([M + ':OrthoPDM._global_transform_d_dp'] if _k == 'ortho' else []), LIN + [DIF], budget=200)(
            lambda k=_k, d=_d: shape_derivative(k, d))
unit(PID, 'shape derivative: similarity only', [M + ':GlobalSimilarityModel.d_dp'], LIN + [DIF])(similarity_only)


# ------------------------------------------------------------------- warps
class DWarp(Warp):
    __vtrusted__ = 'warps: d_dl and d_dx are derivatives of the warp (C08); d_dl depends on the points and the source ' \
                   'only (proved in C08 for splines and piecewise affine warps); it may reject points'
    rejects = False

    def d_dl(self, x):
        if self.rejects:
            raise ValueError('point outside of the domain')
        return warp_d_dl(x, self.target.points.axes[0])

    def d_dx(self, x):
        return warp_d_dx(x, self.goes_to)


def _coords(e, i, d):
    return [e([i, (z3.IntVal(c),)]) for c in range(d)]


def warp_d_dl(x, axis):
    d = int(x.axes[1][0])
    e = x.frozen()
    f = z3.Function('d_dl', *([REAL] * d + [INT, INT, REAL]))
    return STensor([x.axes[0], axis, (d,)], lambda i: f(*(_coords(e, i[0], d) + [i[1][0], i[2][0]])), 'r')


def warp_d_dx(x, goes_to):
    """a function of the point (and of the current warp)"""
    d = int(x.axes[1][0])
    e = x.frozen()
    f = z3.Function('d_dx', *([REAL] * d + [INT, INT, REAL]))
    return STensor([x.axes[0], (d,), (d,)], lambda i: f(*(_coords(e, i[0], d) + [i[1][0], i[2][0]])), 'r')


def md(kind, d):
    w = mdworld()
    mod = w.load(MD)
    x, N, w = instance(kind, d, w)
    state(x, kind, d)
    src = Shape(pts('src', N, d))
    t = getattr(mod, MDCLS[kind])(x, DWarp, source=src)
    t.transform.to(x.target)
    return t, x, N, w, src


def chain(t, x, D, k, N, d, what, J):
    """sum over landmarks: d warp / d landmark * d landmark / d parameter, per coordinate"""
    L = warp_d_dl(x, D.axes[0])
    want = (L[:, :, None, :] * D[None, :, :, :]).sum(axis=1)
    prove_eq(what, J, want)


def warp_derivative(d):
    t, x, N, w, src = md('plain', d)
    k = zint(x.model.n_active_components)
    # contract of the model: the derivative of its shape, one row per landmark, for the current parameters
    D = fresh('dX', [x.target.points.axes[0], (k,), (d,)])
    x.d_dp = lambda p: D.copy()
    n = sint('n', 1)
    # any history before: a cache that holds what it should
    if ctx().branch(z3.Bool('read_before')):
        seen = pts('seen', sint('n_seen', 1), d)
        t._cached_points = seen
        t.dW_dl = warp_d_dl(seen, x.target.points.axes[0])
    p = pts('x', n, d)
    before, tgt = t.as_vector().copy(), t.target.points.copy()
    keep = p.copy()
    J = t.d_dp(p)
    prove_eq('points unmodified', p, keep)
    chain(t, p, D, k, N, d, 'derivative of the warped points', J)
    cached(t, x, 'afterwards')
    # rejected, twice
    t.transform.rejects = True
    q = pts('outside', n, d)
    ok = 0
    for i in range(2):
        try:
            J = t.d_dp(q)
        except ValueError:
            cached(t, x, 'points rejected')
            continue
        chain(t, q, D, k, N, d, 'points that were not rejected', J)
    t.transform.rejects = False
    # the caller writes to its points
    y = pts('y', n, d)
    p[...] = y
    J = t.d_dp(p)
    prove_eq('points unmodified again', p, y)
    chain(t, p, D, k, N, d, 'after the points were written to', J)
    cached(t, x, 'in the end')
    prove_eq('parameters unmodified', t.as_vector(), before)
    prove_eq('target unmodified', t.target.points, tgt)


def cached(t, x, what):
    c = t._cached_points
    if c is None:
        return
    prove_eq(what + ': the cached derivative is that of the cached points', t.dW_dl,
             warp_d_dl(c, x.target.points.axes[0]))


unit(PID, 'warp derivative', [MD + ':ModelDrivenTransform.d_dp'],
     LIN + [DWarp.__vtrusted__, 'the derivative of the shape model (shape derivative units)'], budget=200)(
    lambda: warp_derivative(2))
unit(PID, 'warp derivative, 3D', [MD + ':ModelDrivenTransform.d_dp'],
     LIN + [DWarp.__vtrusted__, 'the derivative of the shape model (shape derivative units)'], budget=200)(
    lambda: warp_derivative(3))


def projection(kind, compose):
    d = 2
    t, x, N, w, src = md(kind, d)
    calls = []
    k = z3.simplify(zint(x.model.n_active_components) + n_global(x, kind))

    def solve(H, J):
        R = fresh('Jp', [H.axes[0], J.axes[1]])
        calls.append((H.copy(), J.copy(), R.copy()))
        return R
    w.np.linalg.solve = solve
    mean = x.model._mean.reshape((-1, d))
    C = x.model.components
    dS = T.transpose(T.reshape(C, (x.model.n_active_components, -1, d)), (1, 0, 2))
    D = x.d_dp(mean)          # proved above: derivative of the placed points
    if kind == 'plain':
        D0 = D
    else:
        # at the identity: the global part is the same, the weights move the points by the components
        G = D[:, :n_global(x, kind), :]
        D0 = shim.np_hstack([G, dS])
    p = t.as_vector().copy()
    tgt = t.target.points.copy()
    goes = t.transform.goes_to
    dx = warp_d_dx(mean, goes)
    E = (dx[:, None, :, :] * D0[:, :, None, :]).sum(axis=3)
    H = (D[:, :, None, :] * D[:, None, :, :]).sum(axis=(0, 3))
    Jm = (D[:, :, None, :] * E[:, None, :, :]).sum(axis=(0, 3))
    if compose:
        delta = fresh('delta', axes_of(SInt(k)))
        keep = delta.copy()
        t.compose_after_from_vector_inplace(delta)
        prove_eq('increment unmodified', delta, keep)
    else:
        R = t.Jp()
    prove('the normal equations are solved once', len(calls) == 1)
    prove_eq('normal matrix: of the derivative of the shape', calls[0][0], H)
    prove_eq('right hand side: first order composition', calls[0][1], Jm)
    if compose:
        prove_eq('new parameters', t.as_vector(), p + T.dot(calls[0][2], keep))
        md_agrees(t, kind, d, src, 'composed')
    else:
        prove_eq('the projection', R, calls[0][2])
        prove_eq('parameters unmodified', t.as_vector(), p)
        prove_eq('target unmodified', t.target.points, tgt)


for _k in ('plain', 'similarity', 'affine', 'ortho'):
    for _c in (False, True):
        _f = 'compose_after_from_vector_inplace' if _c else 'Jp'
        unit(PID, '%s: %s' % ('composition' if _c else 'projection', _k),
             [MD + ':%s.%s' % ('ModelDrivenTransform' if _k == 'plain' else 'GlobalMDTransform', _f)],
             LIN + [DIF, DWarp.__vtrusted__, 'numpy.linalg.solve: the solution of the linear system'], budget=300)(
            lambda k=_k, c=_c: projection(k, c))


def linear():
    w = mdworld()
    mod = w.load(MD)
    model, N = pca_model(w, 2)
    n = sint('n_landmarks', 1)
    ctx().assume(n.t < zint(N))
    t = mod.LinearOrthoMDTransform(model, Shape(pts('sparse', n, 2)))
    state(t, 'ortho', 2)
    before, tgt = t.as_vector().copy(), t.target.points.copy()
    J = t.d_dp(pts('x', sint('n', 1), 2))
    derivative_of_shape(t, J, 'ortho', 2, n)
    prove_eq('parameters unmodified', t.as_vector(), before)
    prove_eq('target unmodified', t.target.points, tgt)


unit(PID, 'linear warp derivative', [MD + ':LinearOrthoMDTransform.d_dp'], LIN + [DIF], budget=200)(linear)
