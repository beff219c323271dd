"""C07: every update solves the linear system of its algorithm."""
from .fits import *
from . import c06
from .c06 import aam, run, LK, AAM_ALGS

PID = 'C07'


def np_solve(H, b):
    return shim.Linalg_solve(H, b)


def mat(x):
    return bridge.mat(x)


def shape_system(e, JQ, J, err, p, mp):
    """-(JQ^T J [+ L])^-1 (JQ^T err [+ L p])"""
    H = mat(JQ).T.dot(mat(J))
    b = mat(JQ).T.dot(mat(err))
    if mp:
        H = H + mat(diagm(e.L))
        b = b + mat(e.L * p)
    return -ring.inv(H).dot(b)


class Steps(object):
    """the updates the algorithm has to make, checked as it makes them"""

    def __init__(self, e, name, mp):
        self.e, self.name, self.mp = e, name, mp
        self.FC = name.endswith('ForwardCompositional')
        self.fam = name.replace('ForwardCompositional', '').replace('InverseCompositional', '')
        e.s.hook = self.on_update
        e.am.hook = self.on_instance
        e.I.on_jdp = self.on_jdp
        self.dp = self.J = None
        self.U = mat(e.A)
        self.P = ring.pinv(self.U)

    def vec(self, im):
        return self.e.I.mask(im.as_vector())

    def jac(self, c, a):
        e = self.e
        if self.FC:
            return e.I.sdi(e.I.warped(c), 1)
        return e.I.sdi(e.am.mean() if self.fam == 'ProjectOut' else e.am.inst(a), -1)

    def state(self, c, a):
        e = self.e
        i = self.vec(e.I.warped(c))
        return i, e.s.params(c)

    def both(self, c, a, k):
        """(dc, dp) of the iteration that starts in state c with appearance a"""
        e, mp = self.e, self.mp
        i, p = self.state(c, a)
        J = self.jac(c, a)
        if self.fam in ('ProjectOut', 'Wiberg'):
            er = i - e.abar
            return None, shape_system(e, e.Q.dot(J), J, er, p, mp), J
        er = i - self.vec(e.am.inst(a))
        if self.fam == 'ModifiedAlternating':
            return None, shape_system(e, J, J, er, p, mp), J
        w = e.am.weights(a)
        if self.fam == 'Simultaneous':
            Z = mat(hcat(-e.A, J))
            H = Z.T.dot(Z)
            b = Z.T.dot(mat(er))
            if mp:
                pr = hcat(e.S, e.L)
                H = H + mat(diagm(pr))
                b = b + mat(pr * hcat(w, p))
            d = -ring.inv(H).dot(b)
            m = e.m
            return d[:m], d[m:], J
        # Alternating
        er2 = mat(er)
        if not (z3.is_int_value(k) and k.as_long() == 0):
            er2 = er2 + mat(vec(fun('Jdp', 2), [c], e.nm, 'Jdp'))
        if mp:
            H = self.U.T.dot(self.U) + mat(diagm(e.S))
            dc = ring.inv(H).dot(self.U.T.dot(er2) - mat(e.S * w))
        else:
            dc = self.P.dot(er2)
        dp = shape_system(e, J, J, mat(er) - self.U.dot(dc), p, mp)
        return dc, dp, J

    def iteration(self):
        """are we in the first iteration"""
        k = self.e.s.k()
        if z3.is_int_value(k):
            return k
        return z3.IntVal(0) if ctx().branch(k == 0) else k

    def on_update(self, v):
        e = self.e
        c = e.s.c.t
        # the appearance the iteration started with
        a = e.am.a.t
        if self.fam in ('Simultaneous', 'Alternating'):
            a = z3.simplify(a - 1)
        dc, dp, J = self.both(c, a, self.iteration())
        p = mat(e.s.params(c))
        bridge_eq('update of the shape parameters', v, p + dp if self.FC else p - dp)
        self.dp, self.J = dp, J

    def on_instance(self, w, j):
        e = self.e
        c, a = e.s.c.t, e.am.a.t
        if z3.is_int_value(j) and j.as_long() == 0:
            # the image projected at the starting shape
            i = mat(self.vec(e.I.warped(c)))
            bridge_eq('starting appearance', w, self.P.dot(i - mat(e.abar)))
            return
        if self.fam == 'ModifiedAlternating':
            i = mat(self.vec(e.I.warped(c)))
            bridge_eq('appearance projected at the new shape', w, self.P.dot(i - mat(e.abar)))
        elif self.fam == 'Wiberg':
            i = mat(self.vec(e.I.warped(c))) - mat(self.vec(e.am.inst(a)))
            bridge_eq('update of the appearance parameters', w,
                      mat(e.am.weights(a)) + self.P.dot(i + mat(self.J).dot(self.dp)))
        else:
            dc, dp, J = self.both(c, a, self.iteration())
            bridge_eq('update of the appearance parameters', w, mat(e.am.weights(a)) + dc)

    def on_jdp(self, J, v):
        prove('Jacobian of the iteration', T.tensor_eq(J, self.J))
        bridge_eq('update of the iteration', v, self.dp)


def bridge_eq(name, a, b):
    ring.prove_eq(name, mat(a), mat(b), DIMS)


def aam_steps(name, mp):
    e = aam(name)
    st = Steps(e, name, mp)
    run(e, map_inference=mp)
    prove('the algorithm ran', len(e.given) == 1)


for _n in AAM_ALGS:
    for _m in (False, True):
        unit(PID, 'updates of %s%s' % (_n, ' with priors' if _m else ''),
             ['%s:%s' % (LK, _n), LK + ':_solve_all_map', LK + ':_solve_all_ml', LK + ':LucasKanade._precompute',
              LK + ':LucasKanadeBaseInterface.solve_shape_map', LK + ':LucasKanadeBaseInterface.solve_shape_ml'],
             budget=200)(lambda _n=_n, _m=_m: aam_steps(_n, _m))


# --- template fits ---------------------------------------------------------
def atm_steps(name, mp):
    e = c06.atm(name)
    FC = name.startswith('Forward')

    def on_update(v):
        c = e.s.c.t
        i = e.I.mask(e.I.warped(c).as_vector())
        p = e.s.params(c)
        J = e.I.sdi(e.I.warped(c), 1) if FC else e.I.sdi(e.I.template, -1)
        dp = shape_system(e, J, J, i - e.tm, p, mp)
        bridge_eq('update of the shape parameters', v, mat(p) + dp if FC else mat(p) - dp)
    e.s.hook = on_update
    run(e, map_inference=mp)
    prove('the algorithm ran', len(e.given) == 1)


for _n in ('ForwardCompositional', 'InverseCompositional'):
    for _m in (False, True):
        unit(PID, 'updates of template %s%s' % (_n, ' with priors' if _m else ''),
             [c06.ATM + ':' + _n, c06.ATM + ':LucasKanade._precompute',
              LK + ':LucasKanadeBaseInterface.solve_shape_map', LK + ':LucasKanadeBaseInterface.solve_shape_ml'],
             budget=200)(lambda _n=_n, _m=_m: atm_steps(_n, _m))


# --- constrained local models ----------------------------------------------
def gd_steps(name, mp):
    e = c06.gd(name)
    J = T.reshape(T.transpose(e.dX, (0, 2, 1)), (-1, e.np_))
    prove_eq('derivative of the landmarks', e.alg.J, J)
    off = c06.grid(e.h, e.wd)

    def weighted(c, w):
        """the mean of the candidates of every landmark, weighted"""
        cand = e.s.points(c)[:, None, None, None, :] + off
        w = w / w.sum(axis=(-2, -1))[..., None, None]
        return (w[..., None] * cand).sum(axis=(-3, -2))

    def on_update(v):
        c = e.s.c.t
        R = e.ex.responses(c)
        x = e.s.points(c)
        if name == 'ActiveShapeModel':
            # a density around the best candidate of every landmark
            i = shim.np_argmax(R.reshape(R.shape[:2] + (-1,)), axis=-1)
            yx = shim.np_unravel_index(i, R.shape)[-2:]
            best = shim.np_hstack([yx[0] - e.h // 2, yx[1] - e.wd // 2])[:, None, None, :]
            g = c06.Density().pdf(best + off[None])[:, None, :, :]
            err = x.ravel() - weighted(c, g).ravel()
        else:
            g = c06.Density().pdf(off)[None, None]
            err = weighted(c, R * g).ravel() - x.ravel()
        p = e.s.params(c)
        H = mat(J).T.dot(mat(J))
        b = mat(J).T.dot(mat(err))
        if mp:
            H = H + mat(diagm(e.L))
            b = b - mat(e.L * p)
        bridge_eq('update of the shape parameters', v, mat(p) + ring.inv(H).dot(b))
    e.s.hook = on_update
    run(e, map_inference=mp)
    prove('the algorithm ran', len(e.given) == 1)


for _n in c06.CLM_ALGS:
    for _m in (False, True):
        unit(PID, 'updates of %s%s' % (_n, ' with priors' if _m else ''),
             [c06.GD + ':%s.run' % _n, c06.GD + ':%s._precompute' % _n,
              c06.GD + ':GradientDescentCLMAlgorithm._precompute'],
             [c06.Density.__vtrusted__, c06.Experts.__vtrusted__], budget=200)(lambda _n=_n, _m=_m: gd_steps(_n, _m))


@unit(PID, 'project out', [LK + ':ProjectOut.project_out'])
def project_out():
    bridge.enable()
    w = c06.lkworld()
    M = w.load(LK)
    nm, m, q = sint('nm', 8), sint('m', 1), sint('q', 1)
    a = object.__new__(M.ProjectOut)
    a.A_m = fresh('A_m', axes_of(nm, m))
    a.pinv_A_m = w.np.linalg.pinv(a.A_m)
    J = fresh('J', axes_of(nm, q))
    fr = Frame(J=J, A=a.A_m)
    r = a.project_out(J)
    A = mat(a.A_m)
    bridge_eq('projects the appearance out', r, mat(J) - A.dot(ring.pinv(A).dot(mat(J))))
    fr.check('unmodified')


# --- image alignment -------------------------------------------------------
for _n in ('ForwardAdditive', 'ForwardCompositional', 'InverseCompositional'):
    unit(PID, 'updates of image %s' % _n, ['%s:%s' % (c06.LKI, _n)], [c06.LKResidual.__vtrusted__],
         budget=200)(lambda _n=_n: c06.lk_run(_n))
