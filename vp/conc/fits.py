"""what a run of an iterative algorithm promises, evaluated on its result"""
import copy
from .models import *


def record(fitter, log_on=(True,)):
    """log every algorithm run of the fitter: (algorithm as it was, arguments, result);
    'new' is the algorithm as it was when recording began"""
    log = []
    for a in fitter.algorithms:
        new = copy.deepcopy(a)

        def run(image, initial_shape, _a=a, _f=a.run, _new=new, **k):
            if not log_on[0]:
                return _f(image, initial_shape, **k)
            before = copy.deepcopy({x: y for x, y in _a.__dict__.items() if x != 'run'})
            ini = initial_shape.points.copy()
            r = _f(image, initial_shape, **k)
            need(np.array_equal(ini, initial_shape.points), 'initial shape unmodified by the algorithm')
            b = object.__new__(type(_a))
            b.__dict__.update(before)
            log.append(dict(alg=_a, copy=b, new=_new, image=image, ini=initial_shape, kw=k, res=r))
            return r
        a.run = run
    return log


def state(alg):
    """the transform whose parameters are recorded"""
    for k in ('transform', 'shape_model'):
        t = getattr(alg, k, None)
        if t is not None:
            return t
    raise Undecided('no transform')


def sparse(t, s):
    return getattr(t, 'sparse_target', None) or t.target


def place(t, p):
    t = copy.deepcopy(t)
    t._from_vector_inplace(np.asarray(p, dtype=float).copy())
    return t


def shape_at(t, p):
    return sparse(place(t, p), None).points


def common(e, exact_budget=False):
    """budget, early stop, recorded shapes and parameters; -> parameters"""
    a, r, k = e['alg'], e['res'], e['kw']
    P = [np.asarray(p, dtype=float) for p in (r.shape_parameters if hasattr(r, 'shape_parameters') else
                                              r.homogeneous_parameters)]
    n = len(P) - 1
    mi = k.get('max_iters', 20)
    need(n >= 0, 'starting parameters recorded')
    t0 = copy.deepcopy(state(e['copy']))
    t0.set_target(e['ini'])
    need_close(P[0], t0.as_vector(), 'recorded parameters start at the initial shape', tol=1e-6)
    # the results list the given initial shape first when there is one
    S = [s.points for s in r.shapes]
    if r.initial_shape is not None:
        need_close(r.initial_shape.points, e['ini'].points, 'initial shape of the result')
    if r.initial_shape is not None and len(S) == n + 2:
        need_close(S[0], e['ini'].points, 'first shape of the result')
        S = S[1:]
    need(len(S) == n + 1, 'one recorded shape per recorded parameter vector', got=len(S), expected=n + 1)
    lk = hasattr(r, 'homogeneous_parameters')
    if lk:
        need_close(S[0], e['ini'].points, 'the history starts at the initial shape')
    for j, p in enumerate(P):
        if np.all(np.isfinite(p)) and not (lk and j == 0):
            need_close(S[j], shape_at(e['copy'] and state(e['copy']), p), 'shape %d is the one its parameters describe' % j,
                       tol=1e-6)
    need_close(r.final_shape.points, S[-1], 'final shape')
    need_close(state(a).as_vector(), P[-1], 'the last parameters are those the algorithm ended at', tol=1e-6)
    if getattr(a, 'regressors', None) is not None:
        need(n == len(a.regressors), 'one iteration per regressor', got=n, expected=len(a.regressors))
    else:
        need(n <= max(mi, 0), 'iterations within the budget', got=n, budget=mi)
        if n < mi:
            need(n >= 1, 'at least one iteration is performed when there is budget')
            if hasattr(r, 'homogeneous_parameters'):
                pass
            else:
                T_ = place(state(e['copy']), P[-1]).target.points
                U_ = place(state(e['copy']), P[-2]).target.points
                d = np.linalg.norm(T_ - U_)
                need(d <= a.eps * (1 + 1e-6) + 1e-9 or not np.isfinite(d), 'stops early only when the shape did not change',
                     change=d, eps=a.eps)
    need(r.image is e['image'] or np.array_equal(r.image.pixels, e['image'].pixels), 'image passed on')
    gt = k.get('gt_shape')
    if gt is None:
        need(r.gt_shape is None, 'no ground truth')
    else:
        need(np.array_equal(r.gt_shape.points, gt.points), 'ground truth passed on')
    if not k.get('return_costs'):
        need(getattr(r, 'costs', None) is None, 'no costs unless asked for')
    return P


# ------------------------------------------------------------ Lucas-Kanade family
class LKSpec(object):
    """the quantities of one algorithm on one image, from its interface alone"""
    def __init__(self, e):
        self.a = e['copy']
        self.iface = copy.deepcopy(self.a.interface)
        self.t = self.iface.transform
        self.image = e['image']
        self.mask = np.asarray(self.iface.i_mask)
        am = getattr(self.iface, 'appearance_model', None)
        self.am = am
        if am is not None:
            self.A = am.components.T[self.mask]
            self.abar = am.mean().as_vector()[self.mask]
            self.Q = np.eye(len(self.abar)) - self.A.dot(np.linalg.pinv(self.A))
            sm = self.iface.shape_model
            s2 = am.noise_variance() / (sm.noise_variance() or 1)
            self.s2_S = s2 / am.eigenvalues
        else:
            sm = self.iface.shape_model
            s2 = 1. / (sm.noise_variance() or 1)
        self.L = np.hstack([np.ones(4), s2 / sm.eigenvalues])
        # the derivative of the warp is that of the model before the fit
        self.dW = copy.deepcopy(e['new'].interface).warp_jacobian()

    def warped(self, p):
        self.t._from_vector_inplace(np.asarray(p, float).copy())
        return self.iface.warp(self.image)

    def vec(self, im):
        return im.as_vector()[self.mask]

    def inst(self, c):
        return self.am.instance(c)

    def J(self, im, sign=1):
        return sign * self.iface.steepest_descent_images(self.iface.gradient(im), self.dW)


def ok(H):
    with np.errstate(all='ignore'):
        return np.all(np.isfinite(H)) and np.linalg.cond(H) < 1e9


def lk_step(name, S, p, c, q, cq, mp):
    """(p', c') of one iteration from (p, c); q, cq: what was recorded (used for the
    appearance of algorithms that project the image at the new shape).  None if the
    system is too close to singular to compare."""
    FC = name.endswith('ForwardCompositional')
    w = S.warped(p)
    i = S.vec(w)
    solve = np.linalg.solve

    def shape(JQ, J, e):
        H = JQ.T.dot(J)
        if mp:
            H = H + np.diag(S.L)
            b = S.L * p + JQ.T.dot(e)
        else:
            b = JQ.T.dot(e)
        return -solve(H, b) if ok(H) else None

    def upd(dp):
        return None if dp is None else (p + dp if FC else p - dp)
    if name in ('ForwardCompositional', 'InverseCompositional'):       # templates
        t = S.vec(S.iface.template)
        J = S.J(w) if FC else S.J(S.iface.template, -1)
        return upd(shape(J, J, i - t)), None, None
    if name.startswith('ProjectOut') or name.startswith('Wiberg'):
        if name.startswith('ProjectOut'):
            im = w if FC else S.am.mean()
        else:
            im = w if FC else S.inst(c)
        J = S.J(im, 1 if FC else -1)
        dp = shape(S.Q.dot(J), J, i - S.abar)
        if name.startswith('ProjectOut') or dp is None:
            return upd(dp), None, None
        i2 = S.vec(S.warped(q))
        return upd(dp), c + np.linalg.pinv(S.A).dot(i2 - S.vec(S.inst(c)) + J.dot(dp)), None
    J = S.J(w) if FC else S.J(S.inst(c), -1)
    e = i - S.vec(S.inst(c))
    if name.startswith('ModifiedAlternating'):
        return upd(shape(J, J, e)), np.linalg.pinv(S.A).dot(S.vec(S.warped(q)) - S.abar), None
    if name.startswith('Simultaneous'):
        Z = np.hstack([-S.A, J])
        H = Z.T.dot(Z)
        b = Z.T.dot(e)
        if mp:
            pr = np.hstack([S.s2_S, S.L])
            H = H + np.diag(pr)
            b = b + pr * np.hstack([c, p])
        if not ok(H):
            return None, None, None
        d = -solve(H, b)
        m = len(c)
        return upd(d[m:]), c + d[:m], None
    if name.startswith('Alternating'):
        prev = S.__dict__.get('Jdp', 0)
        if mp:
            H = S.A.T.dot(S.A) + np.diag(S.s2_S)
            dc = solve(H, -S.s2_S * c + S.A.T.dot(e + prev)) if ok(H) else None
        else:
            dc = np.linalg.pinv(S.A).dot(e + prev)
        if dc is None:
            return None, None, None
        dp = shape(J, J, e - S.A.dot(dc))
        S.Jdp = None if dp is None else J.dot(dp)
        if dp is None:
            S.Jdp = J.dot((q - p) * (1 if FC else -1))
        return upd(dp), c + dc, None
    raise Undecided('algorithm %s' % name)


def lk_costs(name, S, P, C):
    out = []
    for j, p in enumerate(P):
        i = S.vec(S.warped(p))
        if S.am is None:
            e = i - S.vec(S.iface.template)
            out.append(e.dot(e))
        elif name.startswith('ProjectOut') or name.startswith('Wiberg'):
            e = i - S.abar
            out.append(e.dot(S.Q.dot(e)))
        else:
            e = i - S.vec(S.inst(C[j]))
            out.append(e.dot(e))
    return np.array(out)


def near(a, b, ref, what, tol=1e-5):
    """an update within rounding of what its linear system asks for"""
    if a is None or not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
        return
    s = np.max(np.abs(a - ref)) + 1e-3 * np.max(np.abs(a)) + 1e-9
    need(a.shape == b.shape and np.max(np.abs(a - b)) <= tol * s + 1e-9, what, got=b, expected=a)
