"""C17 runtime contracts."""
from .common import *

PID = 'C17'


def _shape(g, n=None):
    from menpo.shape import PointCloud
    return PointCloud(g.points(n, scale=g.uniform(3, 30), offset=g.uniform(-100, 300)))


class _Draws(object):
    """numpy.random with chosen values"""
    def __init__(self, mode):
        self.mode = mode

    def __enter__(self):
        self.old = np.random.rand, np.random.randn
        m = self.mode
        np.random.rand = lambda *s: np.full(s, {'lo': 0.0, 'hi': 1.0 - 1e-12, 'mid': 0.5}[m])
        np.random.randn = lambda *s: np.full(s, {'lo': -1.0, 'hi': 1.0, 'mid': 0.0}[m])

    def __exit__(self, *a):
        np.random.rand, np.random.randn = self.old


def _sim(src, tgt, rot):
    """least-squares similarity"""
    from menpo.transform import AlignmentSimilarity
    return AlignmentSimilarity(src, tgt, rotation=rot)


def _parts(tr, src, tgt, rot):
    """noise of tr relative to the alignment, about the centre of the target"""
    S = _sim(src, tgt, rot).h_matrix
    N = np.asarray(tr.h_matrix).dot(np.linalg.inv(S))
    A, b = N[:2, :2], N[:2, 2]
    s = np.sqrt(np.linalg.det(A))
    ang = np.degrees(np.arctan2(A[1, 0], A[0, 0]))
    c = tgt.centre()
    t = A.dot(c) + b - c
    need(np.allclose(A / s, [[np.cos(np.radians(ang)), -np.sin(np.radians(ang))],
                             [np.sin(np.radians(ang)), np.cos(np.radians(ang))]], atol=1e-7), 'similarity noise')
    return s - 1, ang, t


def _pct(g):
    k = g.int(0, 3)
    v = [g.uniform(0, .3) for _ in range(3)]
    if k == 0:
        return v[0], [v[0]] * 3
    if k == 1:
        return [v[0]], [v[0]] * 3
    if k == 2:
        return v, list(v)
    return [0.0, 0.0, 0.0], [0.0] * 3


@case(PID, 'noise within its bounds', n=60)
def bounds(g):
    from menpofit.fitter import noisy_alignment_similarity_transform as f
    src, tgt = _shape(g), None
    from menpo.shape import PointCloud
    tgt = PointCloud(src.points * g.uniform(.5, 2) + g.uniform(-50, 50, 2) + g.normal(*src.points.shape))
    a, p = _pct(g)
    rot = g.flag()
    keep = list(a) if isinstance(a, list) else a
    s0, t0 = src.points.copy(), tgt.points.copy()
    tr = f(src, tgt, ''.join('uniform'), a, rot)
    need(a == keep, 'noise_percentage unmodified', got=a)
    need(np.array_equal(src.points, s0) and np.array_equal(tgt.points, t0), 'shapes unmodified')
    s, r, t = _parts(tr, src, tgt, rot)
    e = 1e-7
    need(abs(s) <= .5 * p[0] + e, 'scale noise bound', got=s, bound=.5 * p[0])
    need(abs(r) <= 180 * p[1] + 1e-5, 'rotation noise bound', got=r, bound=180 * p[1])
    need(np.all(np.abs(t) <= p[2] * tgt.range() + 1e-6), 'translation noise bound', got=t)


@case(PID, 'noise magnitudes', n=40)
def magnitudes(g):
    from menpofit.fitter import noisy_alignment_similarity_transform as f
    src = _shape(g)
    from menpo.shape import PointCloud
    tgt = PointCloud(src.points * g.uniform(.5, 2) + g.uniform(-50, 50, 2) + g.normal(*src.points.shape))
    a, p = _pct(g)
    rot = g.flag()
    kind = g.choice(['uniform', 'gaussian'])
    mode = g.choice(['lo', 'mid', 'hi'])
    with _Draws(mode):
        tr = f(src, tgt, kind, a, rot)
    s, r, t = _parts(tr, src, tgt, rot)
    q = {'lo': -1, 'mid': 0, 'hi': 1}[mode] * (1.0 if kind == 'uniform' else 1.0 / 3)
    need_close(s, q * .5 * p[0], 'scale noise', tol=1e-6)
    need_close(r, q * 180 * p[1], 'rotation noise', tol=1e-6)
    need_close(t, q * p[2] * tgt.range(), 'translation noise', tol=1e-6)


@case(PID, 'zero noise', n=30)
def zero(g):
    from menpofit.fitter import noisy_shape_from_bounding_box, noisy_shape_from_shape, align_shape_with_bounding_box
    sh, tg = _shape(g), _shape(g)
    kind, rot = g.choice(['uniform', 'gaussian']), g.flag()
    z = g.choice([0.0, [0.0], [0.0, 0.0, 0.0]])
    out = noisy_shape_from_bounding_box(sh, tg.bounding_box(), kind, z, rot)
    e = _sim(sh.bounding_box(), tg.bounding_box(), rot).apply(sh)
    need_close(out.points, e.points, 'unperturbed alignment with the box', tol=1e-6)
    n = sh.n_points
    tg2 = _shape(g, n)
    out = noisy_shape_from_shape(sh, tg2, kind, z, rot)
    need_close(out.points, _sim(sh, tg2, rot).apply(sh).points, 'unperturbed alignment with the shape', tol=1e-6)
    # a box of the same proportions is spanned exactly
    bb = sh.bounding_box()
    b2 = bb.copy()
    b2.points = bb.points * g.uniform(.3, 3) + g.uniform(-50, 50, 2)
    out = align_shape_with_bounding_box(sh, b2)
    need_close(out.bounding_box().points, b2.points, 'the shape spans the box', tol=1e-6)


@case(PID, 'gaussian spread', n=3)
def spread(g):
    from menpofit.fitter import noisy_alignment_similarity_transform as f
    src = _shape(g, 6)
    p = [.06, .05, .1]
    ps = [_parts(f(src, src, 'gaussian', list(p), False), src, src, False) for _ in range(1500)]
    sd = [np.std([x[0] for x in ps]), np.std([x[1] for x in ps])]
    need(abs(sd[0] / (p[0] * .5 / 3) - 1) < .15, 'scale standard deviation', got=sd[0])
    need(abs(sd[1] / (p[1] * 180 / 3) - 1) < .15, 'rotation standard deviation', got=sd[1])
    st = np.std([x[2] for x in ps], axis=0)
    need(np.all(np.abs(st / (p[2] * src.range() / 3) - 1) < .15), 'translation standard deviation', got=st)


@case(PID, 'perturbations of the right image', n=40)
def perturbations(g):
    from menpofit.fitter import generate_perturbations_from_gt
    from menpo.image import Image
    from menpo.shape import PointCloud
    k = g.int(1, 3)
    ims, gts, bbs = [], [], []
    nb = g.int(1, 3)
    glob = g.choice([None, 'bb_*'])
    for i in range(k):
        im = Image(np.zeros((1, 100, 120)))
        p = PointCloud(g.r.uniform(10, 90, (5, 2)))
        im.landmarks['PTS'] = p
        bl = []
        for j in range(nb):
            b = PointCloud(g.r.uniform(10, 90, (5, 2))).bounding_box()
            im.landmarks['bb_%d' % j] = b
            bl.append(b)
        im.landmarks['other'] = PointCloud(g.r.uniform(10, 90, (3, 2)))
        ims.append(im), gts.append(p), bbs.append(bl)
    before = [{n: im.landmarks[n].points.copy() for n in im.landmarks} for im in ims]
    calls = []

    def pf(a, b):
        calls.append((a.points.copy(), b.points.copy()))
        r = b.copy()
        r.points = r.points + len(calls) * .01
        return r
    for rnd in range(g.int(1, 2)):
        n = g.int(1, 4)
        del calls[:]
        fn = generate_perturbations_from_gt(ims, n, pf, gt_group='PTS', bb_group_glob=glob)
        pos = 0
        for im, gt, bl in zip(ims, gts, bbs):
            src = [gt.bounding_box()] if glob is None else bl
            exp = []
            for b in src:
                for _ in range(n):
                    need_close(calls[pos][0], gt.bounding_box().points, 'ground truth of the image')
                    need_close(calls[pos][1], b.points, 'box of the image')
                    pos += 1
                    exp.append(b.points + pos * .01)
                if glob is not None:
                    exp.append(b.points)
            got = fn(im)
            need(len(got) == len(exp), 'number of boxes of an image', got=len(got), expected=len(exp))
            for a, b in zip(got, exp):
                need_close(a.points, np.clip(b, 0, [99, 119]), 'generated box')
        need(pos == len(calls), 'one call per perturbation')
    for im, d in zip(ims, before):
        for n_, q in d.items():
            need(n_ in im.landmarks and np.array_equal(im.landmarks[n_].points, q), 'landmarks of the images unchanged')
