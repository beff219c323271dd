"""C05 runtime contracts: the real multi-scale fitter with recording algorithms."""
from .common import *
from .data import *

PID = 'C05'


def _half(im):
    return im.rescale(.5)


def _crop(im):
    return im.crop([3, 5], [im.shape[0] - 2, im.shape[1] - 4])


def _grad(im):
    r = im.copy()
    r.pixels = np.vstack([im.pixels, im.pixels ** 2])
    return r


def _stretch(im):
    return im.resize([int(im.shape[0] * 1.25) + 1, int(im.shape[1] * .8) + 1])


class _Alg(object):
    """moves the shape by a known offset at each iteration"""
    def __init__(self, k, log, parametric):
        self.k, self.log, self.par = k, log, parametric

    def run(self, image, shape, gt_shape=None, max_iters=20, return_costs=False, **kw):
        from menpofit.result import NonParametricIterativeResult, ParametricIterativeResult
        rec = dict(image=image, shape=shape.copy(), gt=gt_shape, max_iters=max_iters, costs=return_costs, kw=kw)
        self.log.append(rec)
        shapes = [shape]
        for _ in range(int(max_iters)):
            s = shapes[-1].copy()
            s.points = s.points + [1.5 + self.k, -2.0]
            shapes.append(s)
        rec['out'] = [s.copy() for s in shapes]
        cls = ParametricIterativeResult if self.par else NonParametricIterativeResult
        a = dict(shape_parameters=[np.zeros(2)] * len(shapes)) if self.par else {}
        costs = list(np.arange(len(shapes)) * 1.) if return_costs else None
        return cls(shapes=shapes[1:] if not self.par else shapes, initial_shape=shape, image=image, gt_shape=gt_shape,
                   costs=costs, **a)


@case(PID, 'coordinates of the caller', n=60, timeout=250)
def coords(g):
    from menpofit.fitter import MultiScaleNonParametricFitter, MultiScaleParametricFitter
    from menpo.feature import no_op
    from menpo.shape import PointCloud
    ns = g.int(1, 4)
    scales = sorted(g.choice([.25, .4, .5, .75, 1., 1.0]) for _ in range(ns))
    if g.flag(.3):
        scales = [scales[0]] * ns
    pool = [no_op, _half, _crop, _grad, _stretch]
    feats = [g.choice(pool)] * ns if g.flag(.3) else [g.choice(pool[:3 + g.int(0, 2)]) for _ in range(ns)]
    im = face(g, channels=g.choice([1, 2]), size=90)
    ini = im.landmarks['PTS'].copy()
    ini.points = ini.points + g.normal(*ini.points.shape) * 2
    gt = im.landmarks['PTS'].copy() if g.flag() else None
    ref = ini.copy()
    ref.points = ref.points * g.uniform(.6, 1.6) + g.uniform(-20, 20)
    par = g.flag()
    log = []
    cls = MultiScaleParametricFitter if par else MultiScaleNonParametricFitter
    f = cls(scales, ref, feats, [_Alg(k, log, par) for k in range(ns)])
    its = [g.int(1, 3) for _ in range(ns)]
    mi = list(its) if g.flag(.7) or ns == 1 else None
    shapes = [ini, ref] + ([gt] if gt is not None else [])
    kp = Keep([im], shapes)
    kw = {} if mi is None else dict(max_iters=mi)
    rc = g.flag()
    use_bb = g.flag(.3)
    if use_bb:
        bb = ini.bounding_box()
        kp2 = Keep(shapes=[bb])
        r = f.fit_from_bb(im, bb, gt_shape=gt, return_costs=rc, extra=3, **kw)
        kp2.check('fitting')
        from menpo.transform import AlignmentSimilarity
        ini = AlignmentSimilarity(ref.bounding_box(), bb).apply(ref)
    else:
        r = f.fit_from_shape(im, ini, gt_shape=gt, return_costs=rc, extra=3, **kw)
    kp.check('fitting')
    need(len(log) == ns, 'each algorithm runs once')
    budget = its if mi is not None else [np.round(20. / ns)] * ns
    base = im.copy()
    base.landmarks['i'] = ini
    if gt is not None:
        base.landmarks['g'] = gt
    base = base.rescale_to_pointcloud(ref, group='i')
    exp = []

    def back(s, w, wi):
        """working coordinates to the coordinates of the image, by the landmarks of the two"""
        A = np.hstack([wi, np.ones((len(wi), 1))])
        X = np.linalg.lstsq(A, ini.points, rcond=None)[0]
        return np.hstack([s, np.ones((len(s), 1))]).dot(X)
    prev = None
    for j, c in enumerate(log):
        need(c['max_iters'] == budget[j], 'iteration budget of the scale', got=c['max_iters'], expected=budget[j])
        need(c['kw'] == {'extra': 3} and c['costs'] == rc, 'options passed on')
        w = feats[j](base)
        if scales[j] != 1:
            w = w.rescale(scales[j])
        need(c['image'].pixels.shape == w.pixels.shape, 'working image of the scale', got=c['image'].pixels.shape,
             expected=w.pixels.shape)
        need_close(c['image'].pixels, w.pixels, 'pixels of the working image')
        wi = w.landmarks['i'].points
        if gt is None:
            need(c['gt'] is None, 'no ground truth')
        else:
            need_close(c['gt'].points, w.landmarks['g'].points, 'ground truth of the scale', tol=1e-6)
        start = back(c['shape'].points, w, wi)
        if j == 0:
            need_close(start, ini.points, 'first scale starts from the initial shape', tol=1e-5)
            exp.append(ini.points)
        else:
            need_close(start, prev, 'scale starts where the previous ended', tol=1e-5)
        out = [back(s.points, w, wi) for s in c['out']]
        exp.extend(out if par else out[1:])
        prev = out[-1]
    if par and len(r.shapes) == len(exp) - 1:
        exp = exp[1:]
    need(len(r.shapes) == len(exp), 'one reported shape per iteration', got=len(r.shapes), expected=len(exp))
    for k, (a, b) in enumerate(zip(r.shapes, exp)):
        need_close(a.points, b, 'reported shape %d in the coordinates of the image' % k, tol=1e-5)
    need_close(r.final_shape.points, exp[-1], 'final shape', tol=1e-5)
    if r.initial_shape is not None:
        need_close(r.initial_shape.points, ini.points, 'initial shape', tol=1e-5)
    if gt is not None:
        need(np.array_equal(r.gt_shape.points, gt.points), 'ground truth at the coordinates of the caller')
    need(np.array_equal(r.image.pixels, im.pixels), 'image of the caller')
