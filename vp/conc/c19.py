"""C19 runtime contracts."""
from .common import *
from .data import *

PID = 'C19'


def _dlib():
    import dlib
    return dlib


def _near(a, b, msg):
    a, b = np.asarray(a, float), np.asarray(b, float)
    need(a.shape == b.shape, msg + ': shape', got=a.shape, expected=b.shape)
    need(np.all(np.abs(a - b) < 1 + 1e-9), msg, got=a, expected=b)


def _pc(p):
    from menpo.shape import PointCloud
    return PointCloud(p)


@case(PID, 'shapes there and back', n=60)
def shapes(g):
    from menpofit.dlib import conversion as c
    d = _dlib()
    p = g.points(g.choice([1, 2, 3, 5, 68, 97]), scale=30, offset=g.choice([0, 60]))
    if g.flag(.4):
        p = np.round(p)
    s = _pc(p.copy())
    parts = c.pointcloud_to_dlib_parts(s)
    need(np.array_equal(s.points, p), 'shape unmodified')
    need(len(parts) == len(p), 'number of parts')
    _near([[q.y, q.x] for q in parts], p, 'parts keep their coordinates')
    det = d.full_object_detection(d.rectangle(1, 2, 3, 4), parts)
    r = c.dlib_full_object_detection_to_pointcloud(det)
    need(np.array_equal(r.points, [[q.y, q.x] for q in parts]), 'detection coordinates', got=r.points)
    _near(r.points, p, 'shape returns')
    if np.array_equal(p, np.round(p)):
        need(np.array_equal(r.points, p), 'whole pixels return exactly')


@case(PID, 'boxes there and back', n=60)
def boxes(g):
    from menpofit.dlib import conversion as c
    d = _dlib()
    t, l = g.int(-20, 60), g.int(-20, 60)
    b, r = t + g.int(1, 80), l + g.int(1, 80)
    q = d.rectangle(left=l, top=t, right=r, bottom=b)
    bb = c.dlib_rect_to_bounding_box(q)
    lo, hi = bb.bounds()
    need_close(lo, [t, l], 'upper left')
    need_close(hi, [b, r], 'lower right')
    from menpo.shape import bounding_box
    need_close(bb.points, bounding_box((t, l), (b, r)).points, 'corner order')
    need(c.pointcloud_to_dlib_rect(bb) == q, 'rectangle returns', got=c.pointcloud_to_dlib_rect(bb))
    s = _pc(g.points())
    p = s.points.copy()
    v = c.pointcloud_to_dlib_rect(s)
    need(np.array_equal(s.points, p), 'shape unmodified')
    lo, hi = s.bounds()
    _near([v.top(), v.left(), v.bottom(), v.right()], [lo[0], lo[1], hi[0], hi[1]], 'rectangle of a shape')
    lm = _pc(g.points(6))
    f = c.bounding_box_pointcloud_to_dlib_fo_detection(bb, lm)
    need(f.rect == q, 'rectangle of the example')
    _near([[x.y, x.x] for x in f.parts()], lm.points, 'landmarks of the example')


@case(PID, 'pixels', n=30)
def pixels(g):
    from menpofit.dlib import conversion as c
    from menpo.image import Image
    ch = g.choice([1, 3])
    h, w = g.int(4, 20), g.int(4, 20)
    px = g.uniform(0, 1, ch, h, w)
    if g.flag():
        im = Image(px.copy())
    else:
        im = Image((px * 255).astype(np.uint8))
        px = im.pixels / 255.
    kept = im.pixels.copy()
    r = c.image_to_dlib_pixels(im)
    need(np.array_equal(im.pixels, kept), 'image unmodified')
    need(r.dtype == np.uint8, '8-bit pixels', got=r.dtype)
    exp = px[0] if ch == 1 else np.moveaxis(px, 0, -1)
    need(r.shape == exp.shape, 'rows by columns by channels', got=r.shape)
    need(np.max(np.abs(r / 255. - exp)) <= 1 / 255. + 1e-9, 'pixel values to 8-bit precision',
         worst=np.max(np.abs(r / 255. - exp)))


@case(PID, 'options', n=3)
def options(g):
    from menpofit.dlib import conversion as c
    o = _dlib().shape_predictor_training_options()
    o.nu, o.tree_depth, o.oversampling_amount = g.uniform(.01, .2), g.int(2, 6), g.int(1, 30)
    o.feature_pool_region_padding = g.uniform(0, .5)
    names = [x for x in dir(o) if '__' not in x]
    v = {k: getattr(o, k) for k in names}
    r = c.copy_dlib_options(o)
    need({k: getattr(r, k) for k in names} == v, 'options copied')
    r.tree_depth = 1
    need({k: getattr(o, k) for k in names} == v, 'original options independent')


class _Spy(object):
    """dlib with its training recorded"""
    def __init__(self, shift):
        self.calls, self.shift = [], shift

    def __enter__(self):
        import menpofit.dlib.algorithm as A
        self.A, self.real = A, A.dlib
        spy, d = self, self.real

        class Fake(object):
            def __getattr__(self, k):
                return getattr(d, k)

            def train_shape_predictor(self, pix, dets, opts):
                rec = dict(pixels=[np.array(p) for p in pix],
                           rects=[[(q.rect.top(), q.rect.left(), q.rect.bottom(), q.rect.right()) for q in ds]
                                  for ds in dets],
                           parts=[[[[p.y, p.x] for p in q.parts()] for q in ds] for ds in dets],
                           opts={k: getattr(opts, k) for k in dir(opts) if '__' not in k}, predicted=[])
                spy.calls.append(rec)

                def model(px, r):
                    rec['predicted'].append((np.array(px), (r.top(), r.left(), r.bottom(), r.right())))
                    k = spy.shift
                    return d.full_object_detection(r, [d.point(r.left() + k, r.top() + k),
                                                       d.point(r.right() + k, r.bottom() + 2 * k)])
                return model
        A.dlib = Fake()
        return self

    def __exit__(self, *a):
        self.A.dlib = self.real


@case(PID, 'training examples pair images and shapes', n=12, timeout=200)
def training(g):
    from menpofit.dlib import DlibERT
    k = g.int(2, 4)
    ims = faces(g, k, channels=g.choice([1, 3]), size=50)
    nb = g.int(0, 3)
    for im in ims:
        for j in range(nb):
            b = im.landmarks['PTS'].bounding_box()
            b.points = b.points + g.int(-3, 3) + j
            im.landmarks['bb_%d' % j] = b
    ns = g.int(1, 3)
    scales = [1.0] if ns == 1 else list(np.linspace(.5, 1, ns)) if g.flag() else list(np.linspace(.4, .9, ns))
    npert = g.int(1, 2)
    made = []

    def pf(gt, b):
        made.append(b)
        r = b.copy()
        r.points = r.points + .9 * len(made)
        return r
    kp = Keep(ims)
    its = [g.int(1, 4) for _ in range(ns)]
    with _Spy(g.int(1, 3)) as spy:
        f = DlibERT(ims, group='PTS', bounding_box_group_glob='bb_*' if nb else None, scales=scales,
                    n_perturbations=npert, perturb_from_gt_bounding_box=pf, n_iterations=its, diagonal=None)
        kp.check('training')
        need(len(spy.calls) == ns, 'one training per scale', got=len(spy.calls))
        exp_boxes = (nb * (npert + 1)) if nb else npert
        prev = None
        for j, c in enumerate(spy.calls):
            need(c['opts']['cascade_depth'] == its[j], 'cascade depth of the scale')
            need(len(c['pixels']) == k and len(c['rects']) == k and len(c['parts']) == k, 'one entry per image')
            P = []
            for i in range(k):
                gt = ims[i].landmarks['PTS']
                s = scales[j] * f.reference_shape.norm() / gt.bounding_box().norm()
                need(len(c['rects'][i]) == exp_boxes, 'one example per box of the image', got=len(c['rects'][i]),
                     expected=exp_boxes)
                for q in c['parts'][i]:
                    need(np.max(np.abs(np.array(q) - gt.points * s)) < 2.5,
                         'ground truth of the image itself', got=np.array(q), expected=gt.points * s)
                h, w = ims[i].shape
                need(abs(c['pixels'][i].shape[0] - h * s) <= 2.5 and abs(c['pixels'][i].shape[1] - w * s) <= 2.5,
                     'image of the scale')
                if prev is not None:
                    z = scales[j] / scales[j - 1]
                    for b, (top, left, bot, right) in zip(c['rects'][i], prev[i]):
                        e = np.array([top + spy.shift, left + spy.shift, bot + 2 * spy.shift, right + spy.shift]) * z
                        need(np.max(np.abs(np.array(b) - e)) < 2.5, 'boxes follow the predictions of the last scale',
                             got=b, expected=e)
            order = [(i, b) for i in range(k) for b in range(exp_boxes)]
            need(len(c['predicted']) == len(order), 'one prediction per box')
            for (i, b), (px, r) in zip(order, c['predicted']):
                need(r == c['rects'][i][b] and np.array_equal(px, c['pixels'][i]), 'prediction from the own image and box')
            prev = c['rects']


@case(PID, 'fitting returns dlib predictions', n=6, timeout=200)
def fitting(g):
    from menpofit.dlib import DlibERT
    d = _dlib()
    ims = faces(g, 4, size=60)
    kp = Keep(ims)
    f = DlibERT(ims, group='PTS', scales=1, n_iterations=2, n_perturbations=2, n_trees=10, n_dlib_perturbations=3,
                diagonal=None)
    im = ims[g.int(0, 3)]
    bb = im.landmarks['PTS'].bounding_box()
    kb = Keep(ims, [bb])
    alg = f.algorithms[0]
    res = alg.run(im, bb)
    kb.check('fitting')
    from menpofit.dlib.conversion import image_to_dlib_pixels, pointcloud_to_dlib_rect
    det = alg.dlib_model(image_to_dlib_pixels(im), pointcloud_to_dlib_rect(bb))
    need_close(res.final_shape.points, [[q.y, q.x] for q in det.parts()], 'predicted landmarks')
    r = f.fit_from_bb(im, bb, gt_shape=im.landmarks['PTS'])
    kb.check('fitting')
    need(r.final_shape.n_points == 7, 'number of landmarks')
    need(np.max(np.abs(r.final_shape.points - im.landmarks['PTS'].points)) < 25, 'the fit is at the face')
    kp.check('fitting')
