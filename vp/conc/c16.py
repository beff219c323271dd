"""C16 runtime contracts: every scale of a trained model uses its own components."""
import contextlib
import io
from .models import *

PID = 'C16'


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


class Item(object):
    """items compare by identity only"""


def fresh(xs, kind):
    return {'list': lambda: list(xs), 'tuple': lambda: tuple(xs), 'generator': lambda: (x for x in xs),
            'iterator': lambda: iter(list(xs))}[kind]()


@case(PID, 'batch', n=60, thorough=600)
def batching(g):
    from menpofit.base import batch
    n = g.choice([0, 1, 2, 3, 5, 8, 13, 30])
    k = g.choice([1, 2, 3, 4, 7, n or 1, n + 1, 2 * n + 1])
    xs = [Item() for _ in range(n)]
    if n and g.flag(.4):
        xs[g.int(0, n - 1)] = g.choice([None, 0, False, '', ()])    # falsy items are items
    kind = g.choice(['list', 'tuple', 'generator', 'iterator'])
    g.log.update(n=n, k=k, kind=kind)
    out = [list(c) for c in batch(fresh(xs, kind), k)]
    flat = [x for c in out for x in c]
    need(len(flat) == n and all(a is b for a, b in zip(flat, xs)), 'every item once and in order', got=len(flat), n=n)
    need(all(len(c) == k for c in out[:-1]) and all(0 < len(c) <= k for c in out), 'batches of the asked size',
         sizes=[len(c) for c in out], k=k)


@case(PID, 'batch: lazily', n=10, thorough=60)
def batching_lazy(g):
    """a batch is handed over before the next one is read (streams of images)"""
    from menpofit.base import batch
    k, n = g.int(1, 5), g.int(1, 17)
    read = []

    def src():
        for i in range(n):
            read.append(i)
            yield i
    got = []
    for c in batch(src(), k):
        got += list(c)
        need(got == list(range(len(got))), 'items in order', got=got)
    need(got == list(range(n)) and read == got, 'every item once', got=got, n=n)


@case(PID, 'print_progress', n=40, thorough=300)
def progress(g):
    from menpofit.visualize import print_progress
    n = g.choice([1, 2, 3, 7, 20])
    xs = [Item() for _ in range(n)]
    verbose = g.flag()
    kind = g.choice(['list', 'tuple', 'generator'])
    kw = dict(verbose=verbose, prefix=g.choice(['', 'a ']), end_with_newline=g.flag(), show_bar=g.flag(),
              show_count=g.flag(), show_eta=g.flag())
    if kind == 'generator' or g.flag(.3):
        kw['n_items'] = n
        if g.flag(.3):
            kw['offset'] = g.int(0, n - 1)
    g.log.update(n=n, kind=kind, kw=kw)
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        out = list(print_progress(fresh(xs, kind), **kw))
    need(len(out) == n and all(a is b for a, b in zip(out, xs)), 'every item once and in order', got=len(out), n=n)
    if not verbose:
        need(buf.getvalue() == '', 'silent when not verbose')


# ----------------------------------------------------------------------
# training

class Hist(object):
    """one training history: images in batches, then increments"""
    def __init__(self, g, n_channels=1):
        # (shapes are aligned with each other: a batch has at least two)
        self.batch_size = g.choice([None, 3, 4])
        self.first = faces(g, 5 if self.batch_size == 3 else 6, noise=.1)
        self.again = [g.choice([None, 3, 2]) for _ in range(g.choice([0, 1, 1, 2]))]
        self.more = [faces(g, {None: g.int(3, 5), 3: 5, 2: 4}[k], noise=.1) for k in self.again]

    def batches(self, n_min=1):
        """what the statement says the models are trained on, in order"""
        out = []
        for xs, k in [(self.first, self.batch_size)] + list(zip(self.more, self.again)):
            k = k or len(xs)
            out += [xs[i:i + k] for i in range(0, len(xs), k)]
        return out


def neg(im):
    r = im.copy()
    r.pixels = 1 - im.pixels
    return r


def ident(im):
    return im


FEATS = [two_channels, neg, ident]
SCALES = [[.5, 1.], [.4, .7, 1.], [1.], [1., .6], [.8, .5, .9], [.6, .6], [.5, 1., .5, 1.]]


def settings(g):
    scales = SCALES[g.it % len(SCALES)] if g.it % 3 < 2 else g.choice(SCALES)
    k = len(scales)
    # features may change at any scale and come back at a later one
    a, b = g.choice([(0, 1), (1, 0), (2, 0), (0, 2)])
    feats = [[FEATS[(a, b)[j % 2]] for j in range(k)], [FEATS[g.int(0, 2)] for _ in scales], None, [two_channels] * k]
    s = dict(scales=scales, feats=feats[g.it % 2] if k > 2 else g.choice(feats),
             shapes=[(2 * g.int(2, 4) + 1, 2 * g.int(2, 4) + 1) for _ in scales],
             ns=[g.int(1, 3) for _ in scales], na=[g.int(1, 3) for _ in scales])
    if g.flag(.3):
        s['shapes'] = [tuple(q - 1 for q in p) for p in s['shapes']]
    return s


def at_scale(model, ims, feat, scale, group='PTS'):
    """the images and the shapes of one scale, each computed on its own"""
    out = []
    for im in ims:
        r = im.rescale_to_pointcloud(model.reference_shape, group=group)
        if feat is not None:
            l = r.landmarks[group]
            r = feat(r)
            r.landmarks[group] = l
        if scale != 1:
            r = r.rescale(scale)
        out.append(r)
    return out, [r.landmarks[group] for r in out]


def same_pdm(got, exp, what):
    a, b = got.model, exp.model
    need(a.n_components == b.n_components, 'number of shape components of ' + what, got=a.n_components, expected=b.n_components)
    need(a.n_samples == b.n_samples, 'shapes seen by ' + what, got=a.n_samples, expected=b.n_samples)
    need(a.mean().points.shape == b.mean().points.shape, 'points of ' + what, got=a.mean().points.shape,
         expected=b.mean().points.shape)
    need(close(a.mean().points, b.mean().points, 1e-6), 'mean shape of ' + what)
    need(close(np.abs(a.components), np.abs(b.components), 1e-4) or
         close(a.components.T.dot(a.components), b.components.T.dot(b.components), 1e-4), 'shape components of ' + what)


def same_pca(got, exp, what):
    need(got.n_components == exp.n_components, 'number of appearance components of ' + what, got=got.n_components,
         expected=exp.n_components)
    need(got.n_samples == exp.n_samples, 'images seen by ' + what, got=got.n_samples, expected=exp.n_samples)
    m, n = got.mean(), exp.mean()
    need(m.pixels.shape == n.pixels.shape, 'frame of the appearance of ' + what, got=m.pixels.shape, expected=n.pixels.shape)
    need(close(m.pixels, n.pixels, 1e-6), 'mean appearance of ' + what)
    need(close(got.components.T.dot(got.components), exp.components.T.dot(exp.components), 1e-4),
         'appearance components of ' + what)


def counts(m, k, names):
    for n in names:
        l = getattr(m, n)
        need(len(l) == k, 'exactly one of %s per scale' % n, got=len(l), n_scales=k)
        need(len({id(x) for x in l}) == k, 'separate %s per scale' % n)


def trimmed(pca, n):
    if n is not None:
        pca.trim_components(n)
    return pca


class Oracle(object):
    """the components of one scale of an active appearance model, from the stated contracts"""
    def __init__(self, m, cls, j, s):
        self.m, self.cls, self.j, self.s = m, cls, j, s
        self.sm = self.am = None

    def frame(self, shape):
        from menpofit.builder import build_reference_frame, build_patch_reference_frame
        if 'Masked' in self.cls:
            return build_patch_reference_frame(shape, patch_shape=self.s['shapes'][self.j])
        return build_reference_frame(shape)

    def feed(self, ims):
        from menpo.model import PCAModel
        from menpo.transform import Scale
        from menpo.shape import mean_pointcloud
        from menpofit.builder import warp_images, extract_patches, densify_shapes, align_shapes
        from menpofit.modelinstance import OrthoPDM
        j, s, m = self.j, self.s, self.m
        ims, shapes = at_scale(m, ims, (s['feats'] or [None] * 9)[j], s['scales'][j])
        linear = 'Linear' in self.cls
        if 'Patch' in self.cls:
            warped = extract_patches(ims, shapes, s['shapes'][j])
        else:
            if self.sm is None:
                ref = mean_pointcloud(align_shapes(shapes)) if linear else Scale(s['scales'][j], n_dims=2).apply(m.reference_shape)
                self.ref = self.frame(ref)
            warped = warp_images(ims, shapes, self.ref, m.transform)
        if self.sm is None:
            sh = densify_shapes(shapes, self.ref, m.transform) if linear else shapes
            self.sm = OrthoPDM(sh, max_n_components=s['ns'][j])
            self.am = trimmed(PCAModel(warped), s['na'][j])
        else:
            sh = densify_shapes(align_shapes(shapes), self.ref, m.transform) if linear else shapes
            self.sm.increment(sh, forgetting_factor=1., max_n_components=s['ns'][j])
            self.am.increment(warped, forgetting_factor=1.)
            trimmed(self.am, s['na'][j])


def aam_history(g, cls):
    import menpofit.aam as M
    s, h = settings(g), Hist(g)
    kw = dict(group='PTS', diagonal=g.choice([45, 50]), scales=s['scales'], max_shape_components=s['ns'],
              max_appearance_components=s['na'])
    if s['feats']:
        kw['holistic_features'] = s['feats']
    if cls not in ('HolisticAAM', 'LinearAAM'):
        kw['patch_shape'] = s['shapes']
    g.log.update(cls=cls, scales=s['scales'], shapes=s['shapes'], ns=s['ns'], na=s['na'], batch_size=h.batch_size,
                 first=len(h.first), more=[len(x) for x in h.more], again=h.again,
                 feats=[f.__name__ for f in s['feats'] or []])
    m = quiet(getattr(M, cls), h.first, batch_size=h.batch_size, **kw)
    counts(m, len(s['scales']), ['shape_models', 'appearance_models'])
    for xs, k in zip(h.more, h.again):
        m.increment(xs, group='PTS', batch_size=k)
        counts(m, len(s['scales']), ['shape_models', 'appearance_models'])
    return m, s, h


@case(PID, 'active appearance models', n=45, thorough=120, timeout=600)
def aams(g):
    cls = AAM_CLS[g.it % len(AAM_CLS)]
    m, s, h = aam_history(g, cls)
    keep = Keep(h.first)
    for j in range(len(s['scales'])):
        o = Oracle(m, cls, j, s)
        for b in h.batches():
            o.feed(b)
        same_pdm(m.shape_models[j], o.sm, 'scale %d' % j)
        same_pca(m.appearance_models[j], o.am, 'scale %d' % j)
    keep.check('training')
    interfaces(m, s, m.appearance_models)


def interfaces(m, s, templates):
    k = len(s['scales'])
    if hasattr(m, 'patch_shape') and 'Masked' not in type(m).__name__ and 'Unified' not in type(m).__name__:
        sampling = [np.arange(np.prod(p)).reshape(p) % 2 == 0 for p in m.patch_shape]
    else:
        sampling = [j + 1 for j in range(k)]
    out = m.build_fitter_interfaces(sampling)
    need(len(out) == k, 'one interface per scale', got=len(out))
    for j, i in enumerate(out):
        if hasattr(i, 'appearance_model'):
            need(i.appearance_model is m.appearance_models[j], 'the interface of scale j has the appearance model of scale j', j=j)
        t = m.appearance_models[j].mean() if hasattr(m, 'appearance_models') else m.warped_templates[j]
        need(i.template.pixels.shape == t.pixels.shape and close(i.template.pixels, t.pixels), 'template of scale j', j=j)
        pdm = getattr(i.transform, 'pdm', i.transform)
        mod = getattr(pdm, 'model', None)
        need(mod is m.shape_models[j].model or getattr(i, 'transform', None) is m.shape_models[j], 'shape model of scale j', j=j)
        if hasattr(i, 'patch_shape'):
            need(tuple(i.patch_shape) == tuple(m.patch_shape[j]), 'patch shape of scale j', j=j, got=i.patch_shape)


# ----------------------------------------------------------------------
# instances

class Asked(object):
    """records which models are asked for instances, and with what"""
    def __init__(self, **models):
        self.log = []
        self.un = []
        for kind, ms in models.items():
            for j, mod in enumerate(ms):
                self.spy(kind, j, mod)

    def spy(self, kind, j, mod):
        f = mod.instance

        def instance(weights, *a, **k):
            r = f(weights, *a, **k)
            self.log.append((kind, j, np.array(weights, float), k.get('normalized_weights', a[0] if a else False), r.copy()))
            return r
        mod.instance = instance
        self.un.append(mod)

    def close(self):
        for mod in self.un:
            del mod.instance


def spanned(model, v):
    """the residual of v after the mean and the components of the model"""
    d = np.asarray(v, float).ravel() - np.asarray(model.mean_vector if hasattr(model, 'mean_vector') else model._mean, float).ravel()
    U = model.components
    return np.linalg.norm(d - U.T.dot(U.dot(d))) / (1e-12 + np.linalg.norm(d) + 1)


def expected_instance(m, cls, s, j, shape, appearance, template):
    from menpofit.builder import build_reference_frame, build_patch_reference_frame
    if 'Masked' in cls:
        f = build_patch_reference_frame(shape, patch_shape=s['shapes'][j])
    else:
        f = build_reference_frame(shape)
    t = m.transform(f.landmarks['source'], template.landmarks['source'])
    return appearance.as_unmasked().warp_to_mask(f.mask, t, warp_landmarks=True)


def same_instance(got, exp, cls):
    if 'Patch' in cls:
        need(len(got) == 2, 'a shape and an appearance')
        need(close(got[0].points, exp[0].points), 'the shape of the instance')
        need(got[1].pixels.shape == exp[1].pixels.shape and close(got[1].pixels, exp[1].pixels), 'the appearance of the instance')
        return
    need(got.pixels.shape == exp.pixels.shape, 'frame of the instance', got=got.pixels.shape, expected=exp.pixels.shape)
    need(np.array_equal(got.mask.pixels, exp.mask.pixels), 'mask of the instance')
    need(close(got.pixels, exp.pixels), 'pixels of the instance')
    need(close(got.landmarks['source'].points, exp.landmarks['source'].points), 'landmarks of the instance')


def containment(f):
    """menpo refuses to warp a folded shape: nothing to decide there"""
    def run(g):
        try:
            f(g)
        except Exception as e:
            if type(e).__name__ != 'TriangleContainmentError':
                raise
    run.__name__ = f.__name__
    return run


def weights(g, model):
    return g.normal(g.int(1, model.n_active_components))


def scale_choice(g, k):
    j = g.int(0, k - 1)
    return j, g.choice([j, j - k])


@case(PID, 'instances of appearance models', n=40, thorough=100, timeout=600)
@containment
def aam_instances(g):
    kind = g.choice(['HolisticAAM', 'PatchAAM', 'MaskedAAM', 'UnifiedAAMCLM'])
    s = settings(g)
    k = len(s['scales'])
    # (any combination of component counts)
    s['ns'], s['na'] = [g.int(1, 4) for _ in s['scales']], [g.int(1, 4) for _ in s['scales']]
    kw = dict(group='PTS', diagonal=45, scales=s['scales'], max_shape_components=s['ns'], max_appearance_components=s['na'])
    if kind != 'HolisticAAM':
        kw['patch_shape'] = s['shapes']
    if kind == 'UnifiedAAMCLM':
        import menpofit.unified_aam_clm as M
        kw.update(context_shape=(15, 15))
    else:
        import menpofit.aam as M
    ims = faces(g, 6, noise=.1)
    m = getattr(M, kind)(ims, **kw)
    counts(m, k, ['shape_models', 'appearance_models'] + (['expert_ensembles'] if kind == 'UnifiedAAMCLM' else []))
    for j in range(k):
        if g.flag(.3) and m.appearance_models[j].n_components > 1:
            m.appearance_models[j].n_active_components = g.int(1, m.appearance_models[j].n_components - 1)
    j, idx = scale_choice(g, k)
    sm, am = m.shape_models[j].model, m.appearance_models[j]
    w, v = weights(g, sm), weights(g, am)
    if g.flag(.2):
        w = None
    if g.flag(.2):
        v = None
    g.log.update(kind=kind, scales=s['scales'], shapes=s['shapes'], ns=s['ns'], na=s['na'], j=idx, w=w, v=v,
                 active=[a.n_active_components for a in m.appearance_models])
    shape = sm.instance([0] if w is None else w, normalized_weights=True)
    app = am.instance([0] if v is None else v, normalized_weights=True)
    got = m.instance(shape_weights=w, appearance_weights=v, scale_index=idx)
    exp = (shape, app) if kind == 'PatchAAM' else expected_instance(m, kind, s, j, shape, app, am.mean())
    same_instance(got, exp, kind)
    if kind == 'UnifiedAAMCLM':
        got = m.shape_instance(shape_weights=w, scale_index=idx)
        need(close(got.points, shape.points), 'shape instance of scale j')
    # random
    spy = Asked(shape=[x.model for x in m.shape_models], appearance=m.appearance_models)
    got = m.random_instance(scale_index=idx)
    spy.close()
    log = spy.log
    need(sorted((a, b) for a, b, _, _, _ in log) == [('appearance', j), ('shape', j)], 'the models of scale j are asked',
         asked=[(a, b) for a, b, _, _, _ in log], j=j)
    for a, b, ww, norm, _ in log:
        mod = am if a == 'appearance' else sm
        need(len(ww) == mod.n_active_components, 'a weight for every active component of the %s model' % a, got=len(ww),
             expected=mod.n_active_components)
        need(norm, 'weights are in standard deviations')
    shape, app = [[r for a, _, _, _, r in log if a == q][0] for q in ('shape', 'appearance')]
    exp = (shape, app) if kind == 'PatchAAM' else expected_instance(m, kind, s, j, shape, app, am.mean())
    same_instance(got, exp, kind)


@case(PID, 'appearance reconstructions', n=45, thorough=120, timeout=600)
def reconstructions(g):
    kind = g.choice(['HolisticAAM', 'PatchAAM', 'MaskedAAM', 'UnifiedAAMCLM', 'LinearAAM'])
    s = settings(g)
    k = len(s['scales'])
    kw = dict(group='PTS', diagonal=45, scales=s['scales'], max_shape_components=2, max_appearance_components=s['na'])
    if kind not in ('HolisticAAM', 'LinearAAM'):
        kw['patch_shape'] = s['shapes']
    ims = faces(g, 5, noise=.1)
    if kind == 'UnifiedAAMCLM':
        import menpofit.unified_aam_clm as M
        m = M.UnifiedAAMCLM(ims, context_shape=(15, 15), **kw)
        fit = M.UnifiedAAMCLMFitter(m) if g.flag(.3) else None
    else:
        import menpofit.aam as M
        m = getattr(M, kind)(ims, **kw)
        fit = M.LucasKanadeAAMFitter(m) if g.flag(.3) else None
    # the scales that were run, and the iterations of each (iterate 0 of a scale is its start)
    used = g.int(1, k)
    iters = [g.choice([0, 1, 2, 3, 5]) for _ in range(used)]
    owner = [j for j in range(used) for _ in range(iters[j] + 1)]
    ps = [g.normal(m.appearance_models[j].n_active_components) for j in owner]
    g.log.update(kind=kind, scales=s['scales'], iters=iters, na=s['na'])
    got = (fit or m).appearance_reconstructions(ps, iters)
    need(len(got) == len(owner), 'one reconstruction per iterate', got=len(got), expected=len(owner))
    for i, (j, c, r) in enumerate(zip(owner, ps, got)):
        e = m.appearance_models[j].instance(c)
        p = r if kind == 'PatchAAM' else r.pixels
        need(np.shape(p) == e.pixels.shape and close(p, e.pixels),
             'the reconstruction of iterate i uses the appearance model of its scale', i=i, scale=j, iters=iters,
             got=np.shape(p), expected=e.pixels.shape)


@case(PID, 'reconstructions of a fit', n=15, thorough=40, timeout=600)
def fit_reconstructions(g):
    kind = g.choice(['HolisticAAM', 'PatchAAM', 'UnifiedAAMCLM'])
    scales = g.choice([[.4, .7, 1.], [.5, 1.], [.5, .6, .8, 1.]])
    if kind == 'UnifiedAAMCLM':
        f, ims = unified_fitter(g, 'AlternatingRegularisedLandmarkMeanShift', scales=scales)
        m = f.unified_aam_clm
    else:
        f, ims = aam_fitter(g, kind, g.choice([a for a in AAM_ALGS if 'ProjectOut' not in a and 'Forward' not in a]), scales=scales)
        m = f.aam
    mi = [g.int(1, 4) for _ in scales]
    im = face(g, noise=.1)
    g.log.update(kind=kind, scales=scales, max_iters=mi)
    r = f.fit_from_shape(im, start(g, im), max_iters=mi)
    ps = r.appearance_parameters
    it = r.n_iters_per_scale
    need(len(it) == len(scales), 'iterations of every scale')
    owner = [j for j in range(len(it)) for _ in range(it[j] + 1)]
    need(len(ps) == len(owner), 'appearance parameters of every iterate', got=len(ps), expected=len(owner), iters=it)
    got = f.appearance_reconstructions(ps, it)
    need(len(got) == len(owner), 'one reconstruction per iterate', got=len(got), expected=len(owner))
    for i, (j, c, q) in enumerate(zip(owner, ps, got)):
        e = m.appearance_models[j].instance(c)
        p = q if kind == 'PatchAAM' else q.pixels
        need(np.shape(p) == e.pixels.shape and close(p, e.pixels),
             'the reconstruction of iterate i uses the appearance model of its scale', i=i, scale=j, iters=it)


# ----------------------------------------------------------------------
# active template models

def atm_history(g, cls):
    import menpofit.atm as M
    s, h = settings(g), Hist(g)
    kw = dict(group='PTS', diagonal=45, scales=s['scales'], max_shape_components=s['ns'])
    if s['feats']:
        kw['holistic_features'] = s['feats']
    if cls not in ('HolisticATM', 'LinearATM'):
        kw['patch_shape'] = s['shapes']
    templates = [face(g, noise=.1)]
    g.log.update(cls=cls, scales=s['scales'], shapes=s['shapes'], ns=s['ns'], batch_size=h.batch_size,
                 first=len(h.first), more=[len(x) for x in h.more], again=h.again)
    sh = lambda xs: [i.landmarks['PTS'] for i in xs]
    m = quiet(getattr(M, cls), templates[0], sh(h.first), batch_size=h.batch_size, **kw)
    counts(m, len(s['scales']), ['shape_models', 'warped_templates'])
    for xs, k in zip(h.more, h.again):
        templates.append(face(g, noise=.1))
        m.increment(templates[-1], sh(xs), group='PTS', batch_size=k)
        counts(m, len(s['scales']), ['shape_models', 'warped_templates'])
    return m, s, h, templates


@case(PID, 'active template models', n=45, thorough=120, timeout=600)
def atms(g):
    from menpo.transform import Scale
    from menpo.shape import mean_pointcloud
    from menpofit.builder import warp_images, extract_patches, densify_shapes, align_shapes
    from menpofit.modelinstance import OrthoPDM
    cls = ATM_CLS[g.it % len(ATM_CLS)]
    m, s, h, ts = atm_history(g, cls)
    linear = 'Linear' in cls
    for j, sc in enumerate(s['scales']):
        o = Oracle(m, cls, j, s)
        pdm = None
        for b in h.batches():
            shapes = [Scale(sc, n_dims=2).apply(i.landmarks['PTS']) for i in b]
            if pdm is None:
                if 'Patch' not in cls:
                    ref = mean_pointcloud(align_shapes(shapes)) if linear else Scale(sc, n_dims=2).apply(m.reference_shape)
                    frame = o.frame(ref)
                pdm = OrthoPDM(densify_shapes(shapes, frame, m.transform) if linear else shapes, max_n_components=s['ns'][j])
            else:
                pdm.increment(densify_shapes(align_shapes(shapes), frame, m.transform) if linear else shapes,
                              max_n_components=s['ns'][j])
        same_pdm(m.shape_models[j], pdm, 'scale %d' % j)
        # the template of the last training (an increment replaces it) or of the first
        exp = []
        for t in (ts[-1], ts[0]):
            ims, shp = at_scale(m, [t], (s['feats'] or [None] * 9)[j], sc)
            exp.append((extract_patches(ims, shp, s['shapes'][j]) if 'Patch' in cls else warp_images(ims, shp, frame, m.transform))[0])
        got = m.warped_templates[j]
        need(got.pixels.shape == exp[0].pixels.shape, 'frame of the template of scale j', j=j, got=got.pixels.shape,
             expected=exp[0].pixels.shape)
        need(any(close(got.pixels, e.pixels, 1e-6) for e in exp[:1]), 'template of scale j', j=j)
    interfaces(m, s, m.warped_templates)


@case(PID, 'instances of template models', n=40, thorough=100, timeout=600)
@containment
def atm_instances(g):
    import menpofit.atm as M
    kind = g.choice(['HolisticATM', 'PatchATM', 'MaskedATM'])
    s = settings(g)
    k = len(s['scales'])
    kw = dict(group='PTS', diagonal=45, scales=s['scales'], max_shape_components=s['ns'])
    if kind != 'HolisticATM':
        kw['patch_shape'] = s['shapes']
    ims = faces(g, 6, noise=.1)
    m = getattr(M, kind)(ims[0], [i.landmarks['PTS'] for i in ims], **kw)
    if g.flag(.4):
        m.increment(ims[1], [i.landmarks['PTS'] for i in faces(g, 3)], group='PTS')
    counts(m, k, ['shape_models', 'warped_templates'])
    j, idx = scale_choice(g, k)
    sm, t = m.shape_models[j].model, m.warped_templates[j]
    w = None if g.flag(.2) else weights(g, sm)
    g.log.update(kind=kind, scales=s['scales'], shapes=s['shapes'], ns=s['ns'], j=idx, w=w)
    shape = sm.instance([0] if w is None else w, normalized_weights=True)
    before = t.pixels.copy()
    got = m.instance(shape_weights=w, scale_index=idx)
    exp = (shape, t) if kind == 'PatchATM' else expected_instance(m, kind, s, j, shape, t, t)
    same_instance(got, exp, kind)
    spy = Asked(shape=[x.model for x in m.shape_models])
    got = m.random_instance(scale_index=idx)
    spy.close()
    need([(a, b) for a, b, _, _, _ in spy.log] == [('shape', j)], 'the model of scale j is asked',
         asked=[(a, b) for a, b, _, _, _ in spy.log], j=j)
    need(len(spy.log[0][2]) == sm.n_active_components and spy.log[0][3], 'a weight for every active component')
    shape = spy.log[0][4]
    exp = (shape, t) if kind == 'PatchATM' else expected_instance(m, kind, s, j, shape, t, t)
    same_instance(got, exp, kind)
    need(np.array_equal(before, m.warped_templates[j].pixels), 'instances leave the template as it was')


# ----------------------------------------------------------------------
# pictorial structures, constrained local models

@case(PID, 'pictorial structures', n=21, thorough=60, timeout=600)
def apss(g):
    import menpofit.aps as M
    from menpo.model import GMRFModel
    from menpofit.builder import extract_patches, align_shapes
    from menpofit.modelinstance import OrthoPDM
    s, h = settings(g), Hist(g)
    k = len(s['scales'])
    n = h.first[0].landmarks['PTS'].n_points
    s['shapes'] = [(g.int(2, 4), g.int(2, 4)) for _ in s['shapes']]
    graphs = [graph(n) for _ in s['scales']]
    trees = g.flag()
    kw = dict(group='PTS', diagonal=45, scales=s['scales'], patch_shape=s['shapes'], max_shape_components=s['ns'],
              appearance_graph=graphs, n_appearance_components=s['na'], can_be_incremented=True,
              use_procrustes=g.flag(.7))
    if s['feats']:
        kw['holistic_features'] = s['feats']
    g.log.update(scales=s['scales'], shapes=s['shapes'], ns=s['ns'], na=s['na'], batch_size=h.batch_size,
                 first=len(h.first), more=[len(x) for x in h.more], again=h.again, procrustes=kw['use_procrustes'])
    m = quiet(M.GenerativeAPS, h.first, batch_size=h.batch_size, **kw)
    names = ['shape_models', 'appearance_models', 'deformation_models']
    counts(m, k, names)
    for xs, b in zip(h.more, h.again):
        m.increment(xs, group='PTS', batch_size=b)
        counts(m, k, names)
    for j in range(k):
        pdm = app = dm = None
        for b in h.batches():
            ims, shapes = at_scale(m, b, (s['feats'] or [None] * 9)[j], s['scales'][j])
            al = align_shapes(shapes)
            de = al if kw['use_procrustes'] else shapes
            w = extract_patches(ims, shapes, s['shapes'][j])
            if pdm is None:
                pdm = OrthoPDM(al, max_n_components=s['ns'][j])
                app = GMRFModel(w, graphs[j], mode='concatenation', n_components=s['na'][j], dtype=np.float32, sparse=True, incremental=True)
                dm = GMRFModel(de, m.deformation_graph[j], mode='subtraction', n_components=None, dtype=np.float64,
                               sparse=False, incremental=True)
            else:
                pdm.increment(al)
                app.increment(w)
                dm.increment(de)
        need(m.shape_models[j].model.n_samples == pdm.model.n_samples, 'shapes seen by the shape model', j=j,
             got=m.shape_models[j].model.n_samples, expected=pdm.model.n_samples)
        need(close(m.shape_models[j].model.mean().points, pdm.model.mean().points, 1e-6), 'mean shape of scale j', j=j)
        for nm, a, b in (('appearance', m.appearance_models[j], app), ('deformation', m.deformation_models[j], dm)):
            need(a.n_samples == b.n_samples, '%s model: items seen' % nm, j=j, got=a.n_samples, expected=b.n_samples)
            need(np.shape(a.mean_vector) == np.shape(b.mean_vector) and close(a.mean_vector, b.mean_vector, 1e-5),
                 '%s model of scale j: mean' % nm, j=j)
        A, B = m.deformation_models[j].precision, dm.precision
        need(close(A, B, 1e-4), 'deformation precision of scale j', j=j)
    # instances
    j, idx = scale_choice(g, k)
    sm = m.shape_models[j].model
    w = weights(g, sm)
    exp = sm.instance(w, normalized_weights=True)
    got = m.instance(w, scale_index=idx)
    need(close(got.points, exp.points), 'instance of scale j')
    got = m.instance(w, scale_index=idx, as_graph=True)
    need(close(got.points, exp.points), 'instance of scale j as a graph')
    need((got.adjacency_matrix != m.deformation_graph[j].adjacency_matrix).nnz == 0, 'the graph of scale j')
    spy = Asked(shape=[x.model for x in m.shape_models])
    got = m.random_instance(scale_index=idx)
    spy.close()
    need([(a, b) for a, b, _, _, _ in spy.log] == [('shape', j)], 'the model of scale j is asked')
    need(len(spy.log[0][2]) == sm.n_active_components, 'a weight for every active component')
    need(close(got.points, spy.log[0][4].points), 'the random instance is the instance of its weights')


@case(PID, 'constrained local models', n=21, thorough=60, timeout=600)
def clms(g):
    import menpofit.clm as M
    from menpofit.modelinstance import OrthoPDM
    s, h = settings(g), Hist(g)
    k = len(s['scales'])
    odd = lambda p: tuple(q | 1 for q in p)
    s['shapes'] = [odd(p) for p in s['shapes']]
    ctx = [(2 * g.int(6, 8) + 1, 2 * g.int(6, 8) + 1) for _ in s['shapes']]
    seen = []

    class Experts(M.CorrelationFilterExpertEnsemble):
        def __init__(self, images, shapes, **kk):
            seen.append((list(images), list(shapes), dict(kk)))
            super(Experts, self).__init__(images, shapes, **kk)
            self.fed = [(list(images), list(shapes))]

        def increment(self, images, shapes, **kk):
            self.fed.append((list(images), list(shapes)))
            return super(Experts, self).increment(images, shapes, **kk)

    kw = dict(group='PTS', diagonal=45, scales=s['scales'], patch_shape=s['shapes'], context_shape=ctx,
              max_shape_components=s['ns'], expert_ensemble_cls=Experts)
    if s['feats']:
        # (at least one image channel, whatever the features)
        kw['holistic_features'] = s['feats']
    g.log.update(scales=s['scales'], shapes=s['shapes'], ctx=ctx, ns=s['ns'], batch_size=h.batch_size,
                 first=len(h.first), more=[len(x) for x in h.more], again=h.again)
    m = quiet(M.CLM, h.first, batch_size=h.batch_size, **kw)
    names = ['shape_models', 'expert_ensembles']
    counts(m, k, names)
    for xs, b in zip(h.more, h.again):
        m.increment(xs, group='PTS', batch_size=b)
        counts(m, k, names)
    need(len(seen) == k, 'one expert ensemble trained per scale', got=len(seen))
    for j in range(k):
        e = m.expert_ensembles[j]
        need(tuple(e.patch_shape) == s['shapes'][j] and tuple(e.context_shape) == ctx[j], 'patch and context shape of scale j', j=j)
        pdm = None
        need(len(e.fed) == len(h.batches()), 'every batch once', got=len(e.fed), expected=len(h.batches()))
        for b, (gi, gs) in zip(h.batches(), e.fed):
            ims, shapes = at_scale(m, b, (s['feats'] or [None] * 9)[j], s['scales'][j])
            need(len(gi) == len(ims) == len(gs), 'every image of the batch once', got=len(gi), expected=len(ims))
            for a, c, x, y in zip(gi, gs, ims, shapes):
                need(a.pixels.shape == x.pixels.shape and close(a.pixels, x.pixels), 'images of scale j, in order', j=j)
                need(close(c.points, y.points), 'shapes of scale j, in order', j=j)
            if pdm is None:
                pdm = OrthoPDM(shapes, max_n_components=s['ns'][j])
            else:
                pdm.increment(shapes, max_n_components=s['ns'][j])
        same_pdm(m.shape_models[j], pdm, 'scale %d' % j)
    j, idx = scale_choice(g, k)
    sm = m.shape_models[j].model
    w = weights(g, sm)
    need(close(m.shape_instance(w, scale_index=idx).points, sm.instance(w, normalized_weights=True).points), 'shape instance of scale j')


@case(PID, 'unified models', n=21, thorough=40, timeout=600)
def unified(g):
    import menpofit.unified_aam_clm as M
    s = settings(g)
    k = len(s['scales'])
    s['shapes'] = [tuple(q | 1 for q in p) for p in s['shapes']]
    ctx = [(2 * g.int(6, 8) + 1, 2 * g.int(6, 8) + 1) for _ in s['shapes']]
    kw = dict(group='PTS', diagonal=45, scales=s['scales'], patch_shape=s['shapes'], context_shape=ctx,
              max_shape_components=s['ns'], max_appearance_components=s['na'])
    if s['feats']:
        kw['holistic_features'] = s['feats']
    g.log.update(scales=s['scales'], shapes=s['shapes'], ctx=ctx, ns=s['ns'], na=s['na'])
    ims = faces(g, 5, noise=.1)
    m = M.UnifiedAAMCLM(ims, **kw)
    counts(m, k, ['shape_models', 'appearance_models', 'expert_ensembles'])
    for j in range(k):
        o = Oracle(m, 'HolisticAAM', j, s)
        o.feed(ims)
        same_pdm(m.shape_models[j], o.sm, 'scale %d' % j)
        same_pca(m.appearance_models[j], o.am, 'scale %d' % j)
        e = m.expert_ensembles[j]
        need(tuple(e.patch_shape) == s['shapes'][j] and tuple(e.context_shape) == ctx[j], 'patch and context shape of scale j', j=j)
    interfaces(m, s, m.appearance_models)
