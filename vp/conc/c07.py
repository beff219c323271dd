"""C07 runtime contracts: fits leave the fitter as it was; updates solve their systems."""
from .fits import *

PID = 'C07'


def history(r):
    h = [s.points.copy() for s in r.shapes]
    for k in ('shape_parameters', 'homogeneous_parameters', 'appearance_parameters'):
        v = getattr(r, k, None)
        if v is not None:
            h += [np.array(x, dtype=complex) for x in v]
    for k in ('costs', 'appearance_costs', 'deformation_costs'):
        v = getattr(r, k, None)
        if v is not None:
            h += [np.array(np.ravel(x), dtype=complex) for x in v]
    return h


def same_history(a, b, what):
    need(len(a) == len(b), what + ': as many recorded values', got=len(b), expected=len(a))
    for x, y in zip(a, b):
        need(x.shape == y.shape and np.allclose(np.nan_to_num(x), np.nan_to_num(y), rtol=1e-7, atol=1e-9), what,
             got=y, expected=x)


def options(g, kind):
    k = dict(max_iters=g.int(1, 4))
    if kind in ('aam', 'atm'):
        k.update(map_inference=g.flag(), return_costs=g.flag())
    elif kind == 'clm':
        k.update(map_inference=g.flag())
    elif kind == 'unified':
        k.update(prior=g.flag(), a=g.choice([.2, .5, .9]), return_costs=g.flag())
    elif kind in ('aps', 'lk'):
        k.update(return_costs=g.flag())
    return k


MODEL = ('components', 'eigenvalues', 'mean_vector', '_mean', 'precision', '_components', '_eigenvalues')


def trained(f):
    """arrays of the trained model that no fit may change"""
    out = {}

    def put(name, o):
        if o is None:
            return
        for k in MODEL:
            v = getattr(o, k, None)
            if callable(v):
                continue
            if hasattr(v, 'toarray'):
                v = v.toarray()
            if isinstance(v, np.ndarray):
                out[name + '.' + k] = v.copy()
    for j, a in enumerate(f.algorithms):
        for k in ('appearance_model', 'deformation_model'):
            put('%s %d' % (k, j), getattr(a, k, None))
        t = getattr(a, 'transform', None)
        if t is None:
            t = getattr(a, 'shape_model', None)
        t = getattr(t, 'pdm', t)
        put('shape model %d' % j, getattr(t, 'model', None))
        put('similarity model %d' % j, getattr(t, 'similarity_model', None))
        tm = getattr(a, 'template', None)
        if tm is not None and hasattr(tm, 'pixels') and 'Regularised' not in type(a).__name__:
            out['template %d' % j] = tm.pixels.copy()
        for i, r in enumerate(getattr(a, 'regressors', None) or []):
            for k in ('W', 'R'):
                v = getattr(r, k, None)
                if isinstance(v, np.ndarray):
                    out['regressor %d %d %s' % (j, i, k)] = v.copy()
        e = getattr(a, 'expert_ensemble', None)
        for k in ('fft_padded_filters',):
            v = getattr(e, k, None)
            if isinstance(v, np.ndarray):
                out['%s %d' % (k, j)] = v.copy()
    return out


def repeat(g, kind, f, ims):
    im = g.choice(ims)
    s = start(g, im, g.choice([.5, 1.5]))
    opt = options(g, kind)
    before = trained(f)
    first = history(f.fit_from_shape(im, s.copy(), **opt))
    for _ in range(g.int(1, 3)):
        o = g.choice(ims)
        f.fit_from_shape(o, start(g, o, g.choice([.5, 1.5, 4.])), **options(g, kind))
    again = history(f.fit_from_shape(im, s.copy(), **opt))
    same_history(first, again, 'the same fit after other fits')
    after = trained(f)
    for k in before:
        need(k in after and before[k].shape == after[k].shape and np.array_equal(before[k], after[k]),
             'trained quantities unchanged: ' + k)


def scales(g):
    return g.choice([(1.,), (.5, 1.)])


@case(PID, 'repeatable: appearance models', n=50, timeout=300)
def aams(g):
    cls = g.choice(AAM_CLS)
    f, ims = aam_fitter(g, cls, AAM_ALGS[g.it % 10], scales=scales(g))
    repeat(g, 'aam', f, ims)


@case(PID, 'repeatable: templates', n=16, timeout=200)
def atms(g):
    f, ims = atm_fitter(g, g.choice(ATM_CLS), ['ForwardCompositional', 'InverseCompositional'][g.it % 2], scales=scales(g))
    repeat(g, 'atm', f, ims)


@case(PID, 'repeatable: local models', n=10, timeout=200)
def clms(g):
    f, ims = clm_fitter(g, ['RegularisedLandmarkMeanShift', 'ActiveShapeModel'][g.it % 2], scales=scales(g))
    repeat(g, 'clm', f, ims)


@case(PID, 'repeatable: unified models', n=14, timeout=200)
def uni(g):
    f, ims = unified_fitter(g, ['ProjectOut', 'Alternating'][g.it % 2] + 'RegularisedLandmarkMeanShift', scales=scales(g),
                            sampling=g.choice([None, 2]))
    repeat(g, 'unified', f, ims)


@case(PID, 'repeatable: pictorial structures', n=12, timeout=200)
def aps(g):
    f, ims = aps_fitter(g, ['Inverse', 'Forward'][g.it % 2], scales=scales(g), use_procrustes=g.flag(.7))
    repeat(g, 'aps', f, ims)


@case(PID, 'repeatable: image alignment', n=30, timeout=200)
def lk(g):
    from menpofit.transform import DifferentiableAlignmentAffine, DifferentiableAlignmentSimilarity
    f, ims = lk_fitter(g, g.choice(['InverseCompositional', 'ForwardCompositional', 'ForwardAdditive']),
                       g.choice(['SSD', 'FourierSSD', 'ECC', 'GradientImages', 'GradientCorrelation']), scales=scales(g),
                       transform=g.choice([DifferentiableAlignmentAffine, DifferentiableAlignmentSimilarity]))
    repeat(g, 'lk', f, ims)


@case(PID, 'repeatable: supervised descent', n=20, timeout=250)
def sdm(g):
    import menpofit.sdm as M
    import menpofit.aam as A
    if g.flag(.4):
        m, ims = aam(g, g.choice(['HolisticAAM', 'PatchAAM', 'LinearAAM']))
        alg = g.choice([n for n in dir(A) if n.endswith('Newton')])
        np.random.seed(g.int(0, 10 ** 6))
        f = A.SupervisedDescentAAMFitter(ims, m, group='PTS', sd_algorithm_cls=getattr(A, alg), n_iterations=2,
                                         n_perturbations=2)
    else:
        names = [n for n in dir(M) if n.startswith(('NonParametric', 'Parametric', 'FullyParametric'))]
        f, ims = sdm_fitter(g, getattr(M, g.choice(names)))
    repeat(g, 'sdm', f, ims)


# ---------------------------------------------------------------- updates
@case(PID, 'updates: appearance models', n=60, timeout=300)
def aam_steps(g):
    name = AAM_ALGS[g.it % 10]
    cls = g.choice(AAM_CLS)
    f, ims = aam_fitter(g, cls, name, scales=(1.,), sampling=None if cls == 'PatchAAM' else g.choice([None, 1, 2]))
    _steps(g, f, ims, name)


@case(PID, 'updates: templates', n=30, timeout=200)
def atm_steps(g):
    name = ['ForwardCompositional', 'InverseCompositional'][g.it % 2]
    cls = g.choice(ATM_CLS)
    f, ims = atm_fitter(g, cls, name, scales=(1.,), sampling=None if cls == 'PatchATM' else g.choice([None, 1, 2]))
    _steps(g, f, ims, name)


def _steps(g, f, ims, name):
    # a fit before the one that is checked, with the other kind of inference
    mp = g.flag()
    on = [False]
    log = record(f, on)
    if g.flag():
        f.fit_from_shape(ims[0], start(g, ims[0]), max_iters=2, map_inference=g.flag())
    on[0] = True
    im = g.choice(ims)
    f.fit_from_shape(im, start(g, im), max_iters=4, map_inference=mp)
    for e in log:
        r = e['res']
        P = [np.asarray(p, float) for p in r.shape_parameters]
        C = r.appearance_parameters if hasattr(r, 'appearance_parameters') else None
        S = LKSpec(e)
        for j in range(len(P) - 1):
            c = C[j] if C is not None else None
            if not np.all(np.isfinite(P[j])) or np.max(np.abs(P[j])) > 1e4:
                break
            p1, c1, _ = lk_step(name, S, P[j], c, P[j + 1], C[j + 1] if C is not None else None, mp)
            near(p1, P[j + 1], P[j], 'shape parameters of iteration %d solve the system of %s%s'
                 % (j, name, ' with priors' if mp else ''))
            if c1 is not None:
                near(np.asarray(c1), np.asarray(C[j + 1]), np.asarray(C[j]),
                     'appearance parameters of iteration %d of %s%s' % (j, name, ' with priors' if mp else ''))


@case(PID, 'solves with any number of parameters', n=30)
def solves(g):
    from menpofit.aam.algorithm import lk as L
    I = L.LucasKanadeBaseInterface
    n = g.choice([5, 9, 40, 255, 256, 257, 300])
    N = n + g.int(3, 40)
    J = g.normal(N, n)
    H = J.T.dot(J) + np.eye(n)
    e, p = g.normal(N), g.normal(n)
    L_ = g.uniform(.1, 3, n)
    a = [x.copy() for x in (H, J, e, L_, p)]
    need_close(I.solve_shape_map(H, J, e, L_, p), -np.linalg.solve(H + np.diag(L_), L_ * p + J.T.dot(e)),
               'MAP shape solve', tol=1e-7)
    need_close(I.solve_shape_ml(H, J, e), -np.linalg.solve(H, J.T.dot(e)), 'ML shape solve', tol=1e-7)
    for x, y in zip(a, (H, J, e, L_, p)):
        need(np.array_equal(x, y), 'arguments of the solve unmodified')
    m = g.choice([1, 3, 255, 257, 300])
    k = m + n
    N = k + 5
    J = g.normal(N, k)
    H = J.T.dot(J) + np.eye(k)
    e, c = g.normal(N), g.normal(m)
    S = g.uniform(.1, 3, m)

    class F(object):
        pass
    it = object.__new__(L.LucasKanadeStandardInterface)
    it.transform = F()
    it.transform.n_parameters = n
    it.appearance_model = F()
    it.appearance_model.n_active_components = m
    pr = np.hstack([S, L_])
    H0, J0 = H.copy(), J.copy()
    exp = -np.linalg.solve(H + np.diag(pr), pr * np.hstack([c, p]) + J.T.dot(e))
    dc, dp = it.solve_all_map(H, J, e, S, c, L_, p)
    need_close(dc, exp[:m], 'joint MAP solve, appearance', tol=1e-7)
    need_close(dp, exp[m:], 'joint MAP solve, shape', tol=1e-7)
    dc, dp = it.solve_all_ml(H, J, e)
    exp = -np.linalg.solve(H, J.T.dot(e))
    need_close(dc, exp[:m], 'joint ML solve, appearance', tol=1e-7)
    need_close(dp, exp[m:], 'joint ML solve, shape', tol=1e-7)
    need(np.array_equal(H, H0) and np.array_equal(J, J0), 'arguments of the joint solve unmodified')


@case(PID, 'updates: unified models', n=20, timeout=200)
def uni_steps(g):
    from .c06 import UnifiedSpec
    name = ['ProjectOut', 'Alternating'][g.it % 2] + 'RegularisedLandmarkMeanShift'
    f, ims = unified_fitter(g, name, scales=(1.,), sampling=g.choice([None, 2]))
    on = [False]
    log = record(f, on)
    if g.flag():
        f.fit_from_shape(ims[0], start(g, ims[0]), max_iters=2, prior=g.flag())
    on[0] = True
    im = g.choice(ims)
    prior, a = g.flag(), g.choice([.1, .5, .8])
    f.fit_from_shape(im, start(g, im), max_iters=3, prior=prior, a=a)
    for e in log:
        P = [np.asarray(p, float) for p in e['res'].shape_parameters]
        S = UnifiedSpec(e)
        pdm = copy.deepcopy(e['new'].pdm)
        rho, sig = pdm.model.inverse_noise_variance(), S.am.inverse_noise_variance()
        Jc = pdm.d_dp(None)
        Jc = np.array([Jc[:, k, :].ravel() for k in range(Jc.shape[1])]).T
        L = np.hstack([np.zeros(4), 1 / pdm.model.eigenvalues])
        dw = copy.deepcopy(e['new'].interface).warp_jacobian()
        for j in range(len(P) - 1):
            ea, ec = S.errors(P[j], name)
            if name.startswith('Project'):
                t = S.am.mean()
            else:
                t = S.am.mean().from_vector(S.am.mean().as_vector() + S.am.components.T.dot(S.weights(P[j])))
            J = S.iface.steepest_descent_images(S.iface.gradient(t), dw)
            if name.startswith('Project'):
                J = J - S.A.dot(np.linalg.pinv(S.A).dot(J))
            H = a * sig * J.T.dot(J) + (1 - a) * rho * Jc.T.dot(Jc)
            b = a * sig * J.T.dot(ea) + (1 - a) * rho * Jc.T.dot(ec)
            if prior:
                H = H + np.diag(L)
                b = b - L * P[j]
            if ok(H):
                near(P[j] + np.linalg.solve(H, b), P[j + 1], P[j], 'parameters of iteration %d of %s%s' % (
                    j, name, ' with priors' if prior else ''))


@case(PID, 'updates: pictorial structures', n=16, timeout=200)
def aps_steps(g):
    alg = ['Inverse', 'Forward'][g.it % 2]
    w = g.choice([200., 1.])
    f, ims = aps_fitter(g, alg, scales=(1.,), weight=w, use_procrustes=g.flag())
    on = [False]
    log = record(f, on)
    if g.flag():
        f.fit_from_shape(ims[0], start(g, ims[0]), max_iters=2)
    on[0] = True
    im = g.choice(ims)
    f.fit_from_shape(im, start(g, im, .5), max_iters=3)
    for e in log:
        P = [np.asarray(p, float) for p in e['res'].shape_parameters]
        I = copy.deepcopy(e['copy'].interface)
        Q = I.appearance_model.precision
        Q = Q.toarray() if hasattr(Q, 'toarray') else Q
        mask = np.asarray(I.i_mask)
        Q = Q[np.ix_(mask, mask)]
        abar = I.appearance_model.mean().as_vector()[mask]
        ds = np.moveaxis(copy.deepcopy(e['new'].interface).transform.d_dp(None), -1, 0)
        dv = np.array([[ds[d, i, k] for k in range(ds.shape[2])] for i in range(ds.shape[1]) for d in range(2)])
        Qd = I.deformation_model.precision
        Qd = Qd.toarray() if hasattr(Qd, 'toarray') else np.asarray(Qd)
        Hs = dv.T.dot(Qd).dot(dv) * w
        for j in range(len(P) - 1):
            I.transform._from_vector_inplace(P[j].copy())
            im_j = I.warp(e['image'])
            err = im_j.as_vector()[mask] - abar
            J = I.steepest_descent_images(I.gradient(im_j if alg == 'Forward' else I.template), ds)
            p = P[j].copy()
            if I.use_procrustes:
                p[:4] = 0
            H = J.T.dot(Q).dot(J) + Hs
            b = J.T.dot(Q).dot(err) + Hs.dot(p)
            if ok(H):
                near(P[j] - np.linalg.solve(H, b), P[j + 1], P[j], 'parameters of iteration %d of %s Gauss-Newton' % (j, alg),
                     tol=1e-4)
