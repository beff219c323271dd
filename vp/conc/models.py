"""trained models and fitters of every family on synthetic images"""
from .data import *

AAM_ALGS = ['ProjectOutForwardCompositional', 'ProjectOutInverseCompositional', 'SimultaneousForwardCompositional',
            'SimultaneousInverseCompositional', 'AlternatingForwardCompositional', 'AlternatingInverseCompositional',
            'ModifiedAlternatingForwardCompositional', 'ModifiedAlternatingInverseCompositional',
            'WibergForwardCompositional', 'WibergInverseCompositional']
AAM_CLS = ['HolisticAAM', 'PatchAAM', 'MaskedAAM', 'LinearAAM', 'LinearMaskedAAM']
ATM_CLS = ['HolisticATM', 'PatchATM', 'MaskedATM', 'LinearATM', 'LinearMaskedATM']


def two_channels(im):
    r = im.copy()
    r.pixels = np.vstack([im.pixels, im.pixels ** 2])
    return r


def train(g, n=6, **k):
    return faces(g, n, group=None if False else 'PTS', **k)


def diag(im, group='PTS'):
    return float(im.landmarks[group].norm())


def aam(g, cls='HolisticAAM', scales=(.5, 1.), ims=None, feats=None, **k):
    import menpofit.aam as M
    ims = ims or train(g)
    kw = dict(group='PTS', diagonal=45, scales=list(scales), max_shape_components=3, max_appearance_components=3)
    if cls in ('PatchAAM', 'MaskedAAM', 'LinearMaskedAAM'):
        kw['patch_shape'] = (7, 9)
    if feats is not None:
        kw['holistic_features'] = feats
    kw.update(k)
    return getattr(M, cls)(ims, **kw), ims


def aam_fitter(g, cls='HolisticAAM', alg='WibergInverseCompositional', n_shape=None, n_appearance=None, sampling=None, **k):
    import menpofit.aam as M
    m, ims = aam(g, cls, **k)
    return M.LucasKanadeAAMFitter(m, lk_algorithm_cls=getattr(M, alg), n_shape=n_shape, n_appearance=n_appearance,
                                  sampling=sampling), ims


def atm_fitter(g, cls='HolisticATM', alg='InverseCompositional', scales=(.5, 1.), n_shape=None, sampling=None, **k):
    import menpofit.atm as M
    ims = train(g)
    kw = dict(group='PTS', diagonal=45, scales=list(scales), max_shape_components=3)
    if cls in ('PatchATM', 'MaskedATM', 'LinearMaskedATM'):
        kw['patch_shape'] = (7, 9)
    kw.update(k)
    m = getattr(M, cls)(ims[0], [i.landmarks['PTS'] for i in ims], **kw)
    return M.LucasKanadeATMFitter(m, lk_algorithm_cls=getattr(M, alg), n_shape=n_shape, sampling=sampling), ims


def clm_fitter(g, alg='RegularisedLandmarkMeanShift', scales=(.5, 1.), **k):
    import menpofit.clm as M
    ims = train(g, noise=.1)
    kw = dict(group='PTS', diagonal=45, scales=list(scales), patch_shape=(9, 9), context_shape=(15, 15),
              max_shape_components=3)
    kw.update(k)
    m = M.CLM(ims, **kw)
    return M.GradientDescentCLMFitter(m, gd_algorithm_cls=getattr(M, alg)), ims


def unified_fitter(g, alg='AlternatingRegularisedLandmarkMeanShift', scales=(.5, 1.), sampling=None, **k):
    import menpofit.unified_aam_clm as M
    import menpofit.unified_aam_clm.algorithm as A
    ims = train(g, noise=.1)
    kw = dict(group='PTS', diagonal=45, scales=list(scales), patch_shape=(9, 9), context_shape=(15, 15),
              max_shape_components=3, max_appearance_components=3)
    kw.update(k)
    m = M.UnifiedAAMCLM(ims, **kw)
    return M.UnifiedAAMCLMFitter(m, algorithm_cls=getattr(A, alg), sampling=sampling), ims


def graph(n):
    from menpo.shape import UndirectedGraph
    return UndirectedGraph.init_from_edges(np.array([[i, (i + 1) % n] for i in range(n)]), n)


def aps_fitter(g, alg='Inverse', scales=(.5, 1.), weight=200., sampling=None, n_shape=None, **k):
    import menpofit.aps as M
    ims = train(g)
    kw = dict(group='PTS', diagonal=45, scales=list(scales), patch_shape=(5, 7), max_shape_components=3,
              appearance_graph=graph(ims[0].landmarks['PTS'].n_points), n_appearance_components=3)
    kw.update(k)
    m = M.GenerativeAPS(ims, **kw)
    return M.GaussNewtonAPSFitter(m, gn_algorithm_cls=getattr(M, alg), weight=weight, sampling=sampling,
                                  n_shape=n_shape), ims


def lk_fitter(g, alg='InverseCompositional', residual='SSD', scales=(.5, 1.), **k):
    import menpofit.lk as M
    ims = train(g, n=2)
    kw = dict(group='PTS', diagonal=45, scales=list(scales))
    kw.update(k)
    return M.LucasKanadeFitter(ims[0], algorithm_cls=getattr(M, alg), residual_cls=getattr(M, residual), **kw), ims


def sdm_fitter(g, alg=None, scales=(.5, 1.), n_iterations=2, **k):
    import menpofit.sdm as M
    ims = train(g, noise=.1)
    kw = dict(group='PTS', diagonal=45, scales=list(scales), n_iterations=n_iterations, n_perturbations=2,
              patch_shape=(7, 7), sd_algorithm_cls=alg or M.NonParametricNewton)
    kw.update(k)
    import inspect
    from functools import partial
    cls = kw['sd_algorithm_cls']
    par = inspect.signature(cls.__init__).parameters if inspect.isclass(cls) else {}
    # (few images: the regressions need their regularisation)
    reg = {q: 1e-2 for q in ('alpha', 'alpha2') if q in par}
    if reg:
        kw['sd_algorithm_cls'] = partial(cls, **reg)
    np.random.seed(int(g.int(0, 10 ** 6)))
    return M.SupervisedDescentFitter(ims, **kw), ims


def start(g, im, amount=1.5):
    s = im.landmarks['PTS'].copy()
    s.points = s.points + g.normal(*s.points.shape) * amount + g.uniform(-2, 2, 2)
    return s
