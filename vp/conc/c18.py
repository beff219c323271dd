"""C18 runtime contracts."""
from .common import *
from .data import *

PID = 'C18'


def _check_resampled(im, out, s, group='PTS', what='rescaled image'):
    """out is im resampled by the factor s, landmarks moved with the pixels"""
    h, w = im.shape
    need(abs(out.shape[0] - h * s) <= 1.01 and abs(out.shape[1] - w * s) <= 1.01, what + ': size', got=out.shape,
         expected=(h * s, w * s))
    p, q = im.landmarks[group].points, out.landmarks[group].points
    need(p.shape == q.shape, what + ': number of landmarks')
    need(np.max(np.abs(q - p * s)) <= 2.1, what + ': landmarks moved like the pixels', got=q, expected=p * s)
    a = im.sample(im.landmarks[group], order=1)
    b = out.sample(out.landmarks[group], order=1)
    need(np.max(np.abs(a - b)) < .25, what + ': pixels under the landmarks', worst=np.max(np.abs(a - b)))


@case(PID, 'reference shape', n=40)
def reference(g):
    from menpofit.builder import compute_reference_shape
    from menpo.shape import PointCloud
    n, k = g.int(1, 6), g.int(3, 9)
    sh = [PointCloud(g.points(k)) for _ in range(n)]
    kp = Keep(shapes=sh)
    m = np.mean([s.points for s in sh], axis=0)
    d = g.choice([None, 50, g.uniform(20, 300)])
    r = compute_reference_shape(sh, d)
    kp.check('computing the reference shape')
    if d is None:
        need_close(r.points, m, 'mean shape')
    else:
        need_close(np.sqrt(np.sum(r.range() ** 2)), d, 'diagonal of the bounding box')
        f = d / np.sqrt(np.sum(np.ptp(m, axis=0) ** 2))
        need_close(r.points, m * f, 'mean shape resized')


@case(PID, 'rescaling and features', n=25)
def rescale(g):
    import menpofit.builder as B
    ims = faces(g, g.int(1, 4), channels=g.choice([1, 2]))
    kp = Keep(ims)
    ref = ims[0].landmarks['PTS'].copy()
    ref.points = ref.points * g.uniform(.5, 1.8)
    r0 = ref.points.copy()
    out = B.rescale_images_to_reference_shape(ims, 'PTS', ref, verbose=False)
    need(len(out) == len(ims), 'one image per image')
    for im, o in zip(ims, out):
        _check_resampled(im, o, ref.norm() / im.landmarks['PTS'].norm())
    kp.check('rescaling')
    need(np.array_equal(ref.points, r0), 'reference shape unmodified')
    d = g.uniform(25, 90)
    rs, out = B.normalization_wrt_reference_shape(ims, 'PTS', d)
    need_close(np.sqrt(np.sum(rs.range() ** 2)), d, 'diagonal')
    for im, o in zip(ims, out):
        _check_resampled(im, o, rs.norm() / im.landmarks['PTS'].norm(), what='normalised image')
    kp.check('normalising')
    s = g.choice([.5, 2., 1.3, 1., .7, .95, .985, 1.02, 1.005])
    out, trs = B.scale_images(ims, s, return_transforms=True)
    need(len(out) == len(ims) and len(trs) == len(ims), 'one image and transform per image')
    for im, o, t in zip(ims, out, trs):
        _check_resampled(im, o, s, what='scaled image')
        need_close(o.pixels, im.rescale(s).pixels, 'scaled image')
        need_close(t.apply(o.landmarks['PTS']).points, im.landmarks['PTS'].points, 'transform maps back to the original',
                   tol=1e-6)
    out2 = B.scale_images(ims, s)
    for a, b in zip(out, out2):
        need(np.array_equal(a.pixels, b.pixels), 'same images without transforms')
    kp.check('scaling')
    calls = []

    def f(im):
        calls.append(im)
        r = im.copy()
        r.pixels = r.pixels * 2 + len(calls)
        return r
    out = B.compute_features(ims, f)
    need(len(out) == len(ims), 'one feature image per image')
    for k, (im, o) in enumerate(zip(ims, out)):
        need_close(o.pixels, im.pixels * 2 + k + 1, 'features of the image, in order')
        need_close(o.landmarks['PTS'].points, im.landmarks['PTS'].points, 'landmarks of the features')
    kp.check('feature extraction')


@case(PID, 'warping and patches', n=15)
def warping(g):
    import menpofit.builder as B
    from menpofit.transform import DifferentiablePiecewiseAffine, DifferentiableThinPlateSplines
    from menpo.shape import TriMesh
    ims = faces(g, g.int(1, 4), channels=g.choice([1, 2]))
    sh = [im.landmarks['PTS'] for im in ims]
    ref = sh[0].copy()
    ref.points = ref.points * .8
    tri = TriMesh(ref.points)
    frame = B.build_reference_frame(tri, boundary=3)
    fl = frame.landmarks['source'].points.copy()
    kp = Keep(ims, sh)
    T = g.choice([DifferentiablePiecewiseAffine, DifferentiableThinPlateSplines])
    out = B.warp_images(ims, sh, frame, T)
    kp.check('warping')
    need(np.array_equal(frame.landmarks['source'].points, fl), 'frame unmodified')
    need(len(out) == len(ims), 'one warped image per image')
    for im, s, o in zip(ims, sh, out):
        need_close(o.landmarks['source'].points, fl, 'landmarks of the frame')
        need(o.mask.mask.shape == frame.mask.mask.shape and np.array_equal(o.mask.mask, frame.mask.mask), 'mask of the frame')
        idx = frame.mask.true_indices()
        w = T(frame.landmarks['source'], s)
        exp = im.sample(w.apply(idx), order=1)
        need_close(o.as_vector(keep_channels=True), exp, 'pixels sampled at the own shape', tol=1e-6)
    ps = (g.int(2, 7), g.int(2, 7))
    out = B.extract_patches(ims, sh, ps)
    kp.check('extracting patches')
    need(len(out) == len(ims), 'one set of patches per image')
    for im, s, o in zip(ims, sh, out):
        need_close(o.pixels, im.extract_patches(s, patch_shape=ps, as_single_array=True), 'patches at the own shape')
        q = np.round(s.points[2]).astype(int)
        c = np.array(ps) // 2
        need_close(o.pixels[2, 0, :, c[0], c[1]], im.pixels[:, q[0], q[1]], 'centre of the patch is the landmark')
    out = B.extract_patches(ims, sh, ps, normalise_function=lambda p: p - 1)
    for im, s, o in zip(ims, sh, out):
        need_close(o.pixels, im.extract_patches(s, patch_shape=ps, as_single_array=True) - 1, 'normalised patches')
    dense = B.densify_shapes(sh, frame, T)
    need(len(dense) == len(sh), 'one dense shape per shape')
    for s, d in zip(sh, dense):
        need_close(d.points[:s.n_points], s.points, 'own points first')
        need_close(d.points[s.n_points:], T(frame.landmarks['source'], s).apply(frame.mask.true_indices()),
                   'pixels warped to the shape', tol=1e-6)
    kp.check('densifying')


@case(PID, 'alignment', n=25)
def align(g):
    from menpofit.builder import align_shapes
    from menpo.shape import PointCloud
    k = g.int(3, 8)
    base = g.points(k)
    sh = []
    for _ in range(g.int(2, 6)):
        th, s = g.uniform(-1, 1), g.uniform(.5, 2)
        R = s * np.array([[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]])
        sh.append(PointCloud((base + g.normal(k, 2)).dot(R.T) + g.uniform(-50, 50, 2)))
    kp = Keep(shapes=sh)
    out = align_shapes(sh)
    kp.check('aligning')
    need(len(out) == len(sh), 'one aligned shape per shape')
    for s, o in zip(sh, out):
        a, b = s.points - s.points.mean(0), o.points - o.points.mean(0)
        za, zb = a[:, 0] + 1j * a[:, 1], b[:, 0] + 1j * b[:, 1]
        c = np.vdot(za, zb) / np.vdot(za, za)
        need(np.max(np.abs(zb - c * za)) < 1e-6 * (1 + np.max(np.abs(zb))), 'aligned by a similarity, in order')
        need_close(o.points.mean(0), out[0].points.mean(0), 'aligned centres', tol=1e-6, scale=10)


@case(PID, 'reference frames', n=25)
def frames(g):
    import menpofit.builder as B
    from menpo.shape import TriMesh, PointCloud
    p = g.points(g.int(4, 9))
    b = g.int(0, 6)
    s = g.choice([PointCloud, TriMesh])(p)
    kp = Keep(shapes=[s])
    f = B.build_reference_frame(s, boundary=b)
    kp.check('building the frame')
    q = f.landmarks['source'].points
    need_close(q - q[0], p - p[0], 'shape of the frame', tol=1e-6)
    need(np.all(q.min(0) >= b - 1e-6), 'margin above and left', got=q.min(0), margin=b)
    need(np.all(np.array(f.shape) - 1 - q.max(0) >= b - 1.001), 'margin below and right', got=np.array(f.shape) - q.max(0),
         margin=b)
    c = np.round(q.mean(0)).astype(int)
    need(f.mask.n_true() > 0, 'mask of the frame')
    ps = (g.int(2, 9), g.int(2, 9))
    f = B.build_patch_reference_frame(s, boundary=b, patch_shape=ps)
    kp.check('building the patch frame')
    q = f.landmarks['source'].points
    need_close(q - q[0], p - p[0], 'shape of the patch frame', tol=1e-6)
    m = b + max(ps)
    need(np.all(q.min(0) >= m - 1e-6), 'patch margin above and left', got=q.min(0), margin=m)
    need(np.all(np.array(f.shape) - 1 - q.max(0) >= m - 1.001), 'patch margin below and right')
    for x in np.floor(q).astype(int):
        need(f.mask.mask[x[0], x[1]], 'patch around each landmark')
