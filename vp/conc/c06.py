"""C06 runtime contracts: histories recorded by the real algorithms."""
from .fits import *

PID = 'C06'


def budget(g, ns):
    return [g.choice([0, 1, 2, 3, 6]) for _ in range(ns)]


def fit(g, f, ims, at=None, **kw):
    im = g.choice(ims[1:])
    s = start(g, im, g.choice([.3, 1.5, 3.]))
    if at is not None:
        im, s = at
    gt = im.landmarks['PTS'].copy() if g.flag() else None
    kp = Keep([im], [s] + ([gt] if gt is not None else []))
    log = record(f)
    f.fit_from_shape(im, s, gt_shape=gt, **kw)
    kp.check('fitting')
    return log


def scales(g):
    return g.choice([(1.,), (.5, 1.), (.5, 1., 1.)])


def sampling(g, patch, ns):
    if g.flag(.5):
        return None
    if patch is None:
        return g.int(1, 3)
    m = g.r.random(patch) < .8
    m[patch[0] // 2, patch[1] // 2] = True
    return [m] * ns


@case(PID, 'appearance models', n=40, timeout=300)
def aams(g):
    name = AAM_ALGS[g.it % 10]
    cls = g.choice(AAM_CLS)
    sc = scales(g)
    patch = (7, 9) if cls == 'PatchAAM' else None
    f, ims = aam_fitter(g, cls, name, scales=sc, sampling=sampling(g, patch, len(sc)))
    rc = g.flag(.7)
    mp = g.flag(.4)
    if g.flag(.3):
        for a in f.algorithms:
            a.eps = g.choice([1e-2, .3, 1e9])
    log = fit(g, f, ims, max_iters=budget(g, len(sc)), return_costs=rc, map_inference=mp)
    need(len(log) == len(sc), 'every scale runs once')
    for e in log:
        P = common(e)
        r = e['res']
        S = LKSpec(e)
        C = r.appearance_parameters
        if name.startswith('ProjectOut'):
            need(C is None or len(C) == len(P), 'appearance parameters')
        else:
            need(len(C) == len(P), 'one vector of appearance parameters per shape', got=len(C), expected=len(P))
        if C is not None and len(P):
            i0 = S.vec(S.warped(P[0]))
            need_close(C[0], np.linalg.pinv(S.A).dot(i0 - S.abar), 'appearance parameters of the starting shape', tol=1e-6)
        if rc:
            need(len(r.costs) == len(P), 'one cost per shape', got=len(r.costs), expected=len(P))
            exp = lk_costs(name, S, P, C)
            if np.all(np.isfinite(exp)):
                need_close(r.costs, exp, 'cost of each shape', tol=1e-6)


@case(PID, 'templates', n=24, timeout=250)
def atms(g):
    name = g.choice(['ForwardCompositional', 'InverseCompositional'])
    cls = g.choice(ATM_CLS)
    sc = scales(g)
    patch = (7, 9) if cls == 'PatchATM' else None
    f, ims = atm_fitter(g, cls, name, scales=sc, sampling=sampling(g, patch, len(sc)))
    rc = g.flag(.7)
    if g.flag(.3):
        for a in f.algorithms:
            a.eps = g.choice([1e-2, .3, 1e9])
    for e in fit(g, f, ims, max_iters=budget(g, len(sc)), return_costs=rc, map_inference=g.flag(.4)):
        P = common(e)
        if rc:
            S = LKSpec(e)
            need(len(e['res'].costs) == len(P), 'one cost per shape', got=len(e['res'].costs), expected=len(P))
            exp = lk_costs(name, S, P, None)
            if np.all(np.isfinite(exp)):
                need_close(e['res'].costs, exp, 'cost of each shape', tol=1e-6)


@case(PID, 'constrained local models', n=16, timeout=250)
def clms(g):
    f, ims = clm_fitter(g, g.choice(['RegularisedLandmarkMeanShift', 'ActiveShapeModel']))
    if g.flag(.3):
        for a in f.algorithms:
            a.eps = g.choice([1e-2, .3, 1e9])
    for e in fit(g, f, ims, max_iters=budget(g, 2), map_inference=g.flag()):
        common(e)


@case(PID, 'unified models', n=16, timeout=250)
def unified(g):
    name = g.choice(['ProjectOutRegularisedLandmarkMeanShift', 'AlternatingRegularisedLandmarkMeanShift'])
    f, ims = unified_fitter(g, name, sampling=g.choice([None, 2]))
    rc = g.flag(.7)
    va = g.choice([.5, .1, 1., 0.])
    for e in fit(g, f, ims, max_iters=budget(g, 2), return_costs=rc, prior=g.flag(), a=va):
        P = common(e)
        C = e['res'].appearance_parameters
        if name.startswith('Alt'):
            need(len(C) == len(P), 'one vector of appearance parameters per shape')
        S = UnifiedSpec(e)
        if name.startswith('Alt'):
            for j, p in enumerate(P):
                need_close(C[j], S.weights(p), 'appearance parameters of iterate %d' % j, tol=1e-6)
        if rc:
            need(len(e['res'].costs) == len(P), 'one cost per shape')
            exp = np.array([S.cost(p, va, name) for p in P])
            if np.all(np.isfinite(exp)):
                need_close(e['res'].costs, exp, 'cost of each shape', tol=1e-6)


class UnifiedSpec(LKSpec):
    def __init__(self, e):
        self.a = e['copy']
        self.iface = copy.deepcopy(self.a.interface)
        self.t = self.iface.transform
        self.image = e['image']
        self.mask = np.asarray(self.iface.i_mask)
        self.am = self.iface.appearance_model
        self.A = self.am.components.T[self.mask]
        self.abar = self.am.mean().as_vector()[self.mask]

    def weights(self, p):
        return np.linalg.pinv(self.A).dot(self.vec(self.warped(p)) - self.abar)

    def errors(self, p, name):
        i = self.vec(self.warped(p))
        ea = (self.abar if name.startswith('Project') else self.abar + self.A.dot(self.weights(p))) - i
        b = self.a.transform
        b._from_vector_inplace(np.array(p, float))
        return ea, self.a._compute_clm_error(self.image)

    def cost(self, p, a, name):
        ea, ec = self.errors(p, name)
        return a * ea.dot(ea) + ec.dot(ec)


@case(PID, 'pictorial structures', n=16, timeout=250)
def apss(g):
    w = g.choice([200., 1., [3., 50.]])
    f, ims = aps_fitter(g, g.choice(['Inverse', 'Forward']), weight=w)
    rc = g.flag(.7)
    for j, e in enumerate(fit(g, f, ims, max_iters=budget(g, 2), return_costs=rc)):
        P = common(e)
        if not rc:
            continue
        r = e['res']
        I = copy.deepcopy(e['copy'].interface)
        Q = e['copy'].appearance_model.precision
        mask = np.asarray(I.i_mask)
        abar = I.appearance_model.mean().as_vector()[mask]
        dm = I.deformation_model
        A, D = [], []
        for p in P:
            I.transform._from_vector_inplace(p.copy())
            err = I.warp(e['image']).as_vector()[mask] - abar
            A.append(err.dot(Q.dot(err)))
            d = I.transform.target.as_vector() - dm.mean_vector
            D.append(d.dot(np.asarray(dm.precision.dot(d)).ravel()) * (w[j] if isinstance(w, list) else w))
        for what, got, exp in (('appearance', r.appearance_costs, A), ('deformation', r.deformation_costs, D),
                               ('total', r.costs, np.array(A) + np.array(D))):
            need(len(got) == len(P), 'one %s cost per shape' % what, got=len(got), expected=len(P))
            if np.all(np.isfinite(exp)):
                need_close(np.ravel(got), np.ravel(exp), '%s cost of each shape' % what, tol=1e-5)


def lk_change(t, alg, p, q):
    """size of the update that leads from parameters p to q"""
    if alg == 'ForwardAdditive':
        return np.linalg.norm(q - p)
    t = copy.deepcopy(t)
    h = []
    for x in (p, q):
        t._from_vector_inplace(x.copy())
        h.append(t.h_matrix.copy())
    d = np.linalg.solve(h[0], h[1])
    if alg == 'InverseCompositional':
        d = np.linalg.inv(d)
    t._set_h_matrix(d, copy=True, skip_checks=True)
    return np.linalg.norm(t.as_vector())


@case(PID, 'image alignment', n=100, timeout=250)
def lk(g):
    from menpofit.transform import DifferentiableAlignmentAffine, DifferentiableAlignmentSimilarity
    res = g.choice(['SSD', 'SSD', 'FourierSSD', 'ECC', 'GradientImages', 'GradientCorrelation'])
    alg = g.choice(['InverseCompositional', 'ForwardCompositional', 'ForwardAdditive'])
    f, ims = lk_fitter(g, alg, res, transform=g.choice([DifferentiableAlignmentAffine, DifferentiableAlignmentSimilarity]))
    rc = g.flag(.7)
    if g.flag(.3):
        for a in f.algorithms:
            a.eps = g.choice([1e-2, .3, 1e9])
    ims = ims + [ims[0]]
    if g.flag(.4):
        # tolerances close to the size of an update
        im = ims[1]
        ini = start(g, im, 1.5)
        log = record(f)
        f.fit_from_shape(im, ini, max_iters=3)
        for a, e in zip(f.algorithms, log):
            P = [p for p in e['res'].homogeneous_parameters if np.all(np.isfinite(p))]
            if len(P) > 1:
                j = g.int(0, len(P) - 2)
                a.eps = g.r.uniform(.5, 1.05) * lk_change(a.transform, alg, P[j], P[j + 1])
            a.__dict__.pop('run', None)
        return_to = (im, ini)
    else:
        return_to = None
    for e in fit(g, f, ims, max_iters=budget(g, 2), return_costs=rc, at=return_to):
        P = common(e)
        n = len(P) - 1
        r = e['res']
        if 1 <= n < e['kw'].get('max_iters', 20) and np.all(np.isfinite(P[-1])):
            d, eps = lk_change(e['copy'].transform, alg, P[-2], P[-1]), e['alg'].eps
            need(d <= eps * (1 + 1e-6) + 1e-7, 'stops early only after an update within the tolerance', change=d, eps=eps)
        if rc:
            need(len(r.costs) == n, 'one cost per iteration', got=len(r.costs), expected=n)
            if res in ('SSD', 'FourierSSD'):
                t = copy.deepcopy(e['copy'].transform)
                tm = e['copy'].template
                exp = []
                for p in P[:-1]:
                    t._from_vector_inplace(p.copy())
                    d = e['image'].warp_to_mask(tm.mask, t, warp_landmarks=False).as_vector() - tm.as_vector()
                    exp.append(d.dot(d))
                if np.all(np.isfinite(exp)):
                    need_close(np.real(r.costs), exp, 'cost of each iterate', tol=1e-6)


@case(PID, 'supervised descent', n=24, timeout=300)
def sdm(g):
    import menpofit.sdm as M
    import menpofit.aam as MA
    import menpofit.sdm.algorithm as SA
    names = [n for n in dir(M) if n.startswith(('NonParametric', 'Parametric', 'FullyParametric'))]
    if g.flag(.3):
        import menpofit.aam as A
        cls = g.choice(['HolisticAAM', 'PatchAAM', 'LinearAAM'])
        m, ims = aam(g, cls)
        alg = g.choice([n for n in dir(A) if n.endswith('Newton')])
        np.random.seed(g.int(0, 10 ** 6))
        f = A.SupervisedDescentAAMFitter(ims, m, group='PTS', sd_algorithm_cls=getattr(A, alg), n_iterations=2,
                                         n_perturbations=2)
    else:
        alg = g.choice(names)
        f, ims = sdm_fitter(g, getattr(M, alg))
    for e in fit(g, f, ims):
        r = e['res']
        if hasattr(r, 'shape_parameters'):
            common(e)
        else:
            S = [s.points for s in r.shapes]
            need(len(S) == 1 + len(e['alg'].regressors), 'starting shape and one shape per regressor', got=len(S))
            need_close(S[0], e['ini'].points, 'history starts at the initial shape')
            cur = e['ini']
            for j, rg in enumerate(e['alg'].regressors):
                x = e['copy']._compute_test_features(e['image'], cur)
                cur = cur.from_vector(cur.as_vector() + np.ravel(rg.predict(x)))
                need_close(S[j + 1], cur.points, 'shape of level %d' % j, tol=1e-6)
