"""C19: conversions to and from dlib keep coordinates and pixels."""
from .common import *

PID = 'C19'
CV = 'menpofit.dlib.conversion'
AL = 'menpofit.dlib.algorithm'


class Point(object):
    """dlib.point: integer x (column) and y (row)"""
    def __init__(self, x, y):
        if not (isinstance(x, (int, SInt)) and isinstance(y, (int, SInt))):
            raise TypeError('dlib.point takes integers')
        self.x, self.y = x, y


class Rect(object):
    def __init__(self, left, top, right, bottom):
        for v in (left, top, right, bottom):
            if not isinstance(v, (int, SInt)):
                raise TypeError('dlib.rectangle takes integers')
        self.e = dict(left=left, top=top, right=right, bottom=bottom)

    def left(self):
        return self.e['left']

    def top(self):
        return self.e['top']

    def right(self):
        return self.e['right']

    def bottom(self):
        return self.e['bottom']


class Detection(object):
    def __init__(self, rect, parts):
        self.rect, self._parts = rect, parts

    def parts(self):
        return self._parts


class Options(object):
    NAMES = ('be_verbose', 'cascade_depth', 'feature_pool_region_padding', 'feature_pool_size', 'lambda_param',
             'landmark_relative_padding_mode', 'nu', 'num_test_splits', 'num_threads', 'num_trees_per_cascade_level',
             'oversampling_amount', 'oversampling_translation_jitter', 'random_seed', 'tree_depth')

    def __init__(self, tag=None):
        self.__dict__.update({k: (SInt(z3.Int('opt_%s' % k)) if tag else 0) for k in self.NAMES})

    def __dir__(self):
        return list(self.NAMES) + ['__init__', '__doc__', '__getstate__']


class Shape(SPointCloud):
    def bounding_box(self):
        lo, hi = self.bounds()
        return bounding_box((lo[0], lo[1]), (hi[0], hi[1]))


def bounding_box(lo, hi):
    return Shape(T.stack(VList([VList([lo[0], lo[1]]), VList([hi[0], lo[1]]), VList([hi[0], hi[1]]),
                                VList([lo[0], hi[1]])])))


class Dlib(object):
    point, rectangle, full_object_detection = Point, Rect, Detection
    shape_predictor_training_options = Options


TRUST = ['dlib.point(x, y), dlib.rectangle(left, top, right, bottom) and full_object_detection hold what they are given',
         'menpo.shape.bounding_box: corners (lo,lo),(hi,lo),(hi,hi),(lo,hi)']


def world(**r):
    st = {'dlib': {k: v for k, v in Dlib.__dict__.items() if not k.startswith('_')},
          'menpo.shape': {'PointCloud': Shape, 'bounding_box': bounding_box},
          'menpo.visualize': {'print_dynamic': lambda *a, **k: None},
          'menpofit.fitter': {'raise_costs_warning': lambda *a: None}}
    return World(stubs=st, replace=r)


def whole(x, q):
    """x is the whole pixel of coordinate q, up to rounding"""
    x = zreal(x)
    return z3.And(x - q < 1, q - x < 1)


def index(name, n):
    i = z3.Int(name)
    ctx().assume(z3.And(i >= 0, i < zint(n)))
    return i


@unit(PID, 'shape to dlib parts', [CV + ':pointcloud_to_dlib_parts'], TRUST)
def parts():
    m = world().load(CV)
    n = sint('n', 0)
    s = Shape(pts('s', n, 2), copy=False)
    fr = Frame(points=s.points)
    r = as_vlist(m.pointcloud_to_dlib_parts(s))
    fr.check()
    prove('one part per point', r.zlen() == n.t)
    i = index('i', n)
    p = r.at(i)
    prove('x is the column', whole(p.x, at(s.points, i, 0 + 1)))
    prove('y is the row', whole(p.y, at(s.points, i, 0)))
    isint = z3.And(z3.IsInt(at(s.points, i, 0)), z3.IsInt(at(s.points, i, 1)))
    prove('whole pixels exact', z3.Implies(isint, z3.And(zreal(p.x) == at(s.points, i, 1),
                                                         zreal(p.y) == at(s.points, i, 0))))


def detection(name, n):
    X, Y = z3.Function(name + '_x', INT, INT), z3.Function(name + '_y', INT, INT)
    ps = slist(name, n, lambda i: Point(SInt(X(i if z3.is_expr(i) else z3.IntVal(i))),
                                        SInt(Y(i if z3.is_expr(i) else z3.IntVal(i)))))
    return Detection(rect(name), ps), X, Y


def rect(name):
    return Rect(*[SInt(z3.Int('%s_%s' % (name, k))) for k in ('left', 'top', 'right', 'bottom')])


@unit(PID, 'dlib detection to shape', [CV + ':dlib_full_object_detection_to_pointcloud'],
      TRUST + ['numpy.vstack of n pairs is the n x 2 array of them'])
def det():
    m = world().load(CV)
    n = sint('n', 1)
    d, X, Y = detection('d', n)
    s = m.dlib_full_object_detection_to_pointcloud(d)
    prove('one point per part', zint(s.n_points) == n.t)
    prove('two coordinates', zint(s.n_dims) == 2)
    i = index('i', n)
    prove('row is y', at(s.points, i, 0) == z3.ToReal(Y(i)))
    prove('column is x', at(s.points, i, 1) == z3.ToReal(X(i)))


@unit(PID, 'shape to dlib and back',
      [CV + ':' + f for f in ('pointcloud_to_dlib_parts', 'dlib_full_object_detection_to_pointcloud')], TRUST)
def trip():
    m = world().load(CV)
    n = sint('n', 1)
    s = Shape(pts('s', n, 2), copy=False)
    back = m.dlib_full_object_detection_to_pointcloud(Detection(None, m.pointcloud_to_dlib_parts(s)))
    i = index('i', n)
    prove('number of points', zint(back.n_points) == n.t)
    for k in (0, 1):
        prove('coordinate %d returns' % k, whole(wrap(at(back.points, i, k)), at(s.points, i, k)))


@unit(PID, 'rectangles', [CV + ':dlib_rect_to_bounding_box', CV + ':pointcloud_to_dlib_rect'],
      TRUST + ['PointCloud.bounds: least and greatest coordinate per axis'])
def rects():
    m = world().load(CV)
    q = rect('q')
    bb = m.dlib_rect_to_bounding_box(q)
    lo, hi = bb.points[0], bb.points[2]
    for nm, v, e in (('top', at(lo, 0), q.top()), ('left', at(lo, 1), q.left()), ('bottom', at(hi, 0), q.bottom()),
                     ('right', at(hi, 1), q.right())):
        prove('bounding box ' + nm, v == zreal(e))
    n = sint('n', 1)
    s = Shape(pts('s', n, 2), copy=False)
    fr = Frame(points=s.points)
    r = m.pointcloud_to_dlib_rect(s)
    fr.check()
    lo, hi = s.bounds()
    for nm, v, e in (('top', r.top(), at(lo, 0)), ('left', r.left(), at(lo, 1)), ('bottom', r.bottom(), at(hi, 0)),
                     ('right', r.right(), at(hi, 1))):
        prove('rectangle ' + nm, whole(v, e))
    # a rectangle survives the round trip
    ctx().assume(z3.And(zint(q.left()) <= zint(q.right()), zint(q.top()) <= zint(q.bottom())))
    q2 = m.pointcloud_to_dlib_rect(m.dlib_rect_to_bounding_box(q))
    for nm in ('left', 'top', 'right', 'bottom'):
        prove('round trip ' + nm, zint(getattr(q2, nm)()) == zint(getattr(q, nm)()))


@unit(PID, 'training example', [CV + ':bounding_box_pointcloud_to_dlib_fo_detection'], TRUST)
def example():
    m = world().load(CV)
    n, k = sint('n', 1), sint('k', 1)
    s, b = Shape(pts('s', n, 2), copy=False), Shape(pts('b', k, 2), copy=False)
    fr = Frame(shape=s.points, box=b.points)
    d = m.bounding_box_pointcloud_to_dlib_fo_detection(b, s)
    fr.check()
    lo, hi = b.bounds()
    for nm, v, e in (('top', d.rect.top(), at(lo, 0)), ('left', d.rect.left(), at(lo, 1)),
                     ('bottom', d.rect.bottom(), at(hi, 0)), ('right', d.rect.right(), at(hi, 1))):
        prove('rectangle is the box: ' + nm, whole(v, e))
    ps = as_vlist(d.parts())
    prove('one part per landmark', ps.zlen() == n.t)
    i = index('i', n)
    prove('landmarks are the shape', z3.And(whole(ps.at(i).x, at(s.points, i, 1)), whole(ps.at(i).y, at(s.points, i, 0))))


@unit(PID, 'options are copied', [CV + ':copy_dlib_options'], TRUST)
def options():
    m = world().load(CV)
    o = Options('o')
    r = m.copy_dlib_options(o)
    prove('another object', r is not o)
    for k in Options.NAMES:
        prove('option ' + k, zint(getattr(r, k)) == z3.Int('opt_%s' % k))
        prove('original option ' + k, zint(getattr(o, k)) == z3.Int('opt_%s' % k))


class Image(object):
    """pixels are C x H x W in [0, 1]; as_PILImage has 8-bit H x W (x C) samples"""
    def __init__(self, t):
        self.t = t


class Box(object):
    def __init__(self, w, i, k, t):
        self.w, self.i, self.k, self.t = w, i, k, t

    def bounding_box(self):
        return self

    def _from_vector_inplace(self, v):
        self.w.update(self, v)

    def __enc__(self):
        return self.t

    def __vsubst__(self, pairs):
        return Box(self.w, z3.substitute(self.i, *pairs), z3.substitute(self.k, *pairs), z3.substitute(self.t, *pairs))


class World2(object):
    """the dlib calls made while training or fitting"""
    def __init__(self):
        self.trained = None
        self.P = z3.Function('image', INT, V)
        self.G = z3.Function('gt', INT, V)
        self.B = z3.Function('box', INT, INT, V)
        self.nb = z3.Function('n_boxes', INT, INT)

    def update(self, box, v):
        """contract of the predictions: box k of image i becomes the box of the landmarks predicted on the pixels of
        image i from box k"""
        spec = app('bbvec', app('predict', app('pixels', Opq(self.P(box.i))), app('rectof', Opq(box.t))))
        prove('predicted from the own image and the own box', enc(v) == enc(spec))
        self.updates = True


@unit(PID, 'training pairs', [AL + ':DlibAlgorithm.train'],
      ['contracts of the conversions (proved above); dlib.train_shape_predictor receives what it is given'])
def train():
    w = World2()
    n = sint('n', 1)
    zi = lambda i: i if z3.is_expr(i) else z3.IntVal(i)
    ctx().assume(z3.ForAll([z3.Int('wf')], w.nb(z3.Int('wf')) >= 0))
    boxes = slist('boxes', n, lambda i: slist('boxes_i', SInt(w.nb(zi(i))),
                                              lambda k: Box(w, zi(i), zi(k), w.B(zi(i), zi(k)))))
    images = slist('images', n, lambda i: Opq(w.P(zi(i))))
    gts = slist('gts', n, lambda i: Opq(w.G(zi(i))))

    class Predicted(object):
        def __init__(self, t):
            self.t = t

        def bounding_box(self):
            return self

        def as_vector(self):
            return app('bbvec', self.t)

    class Det(object):
        def __init__(self, b, s):
            self.b, self.s = b, s

        def __enc__(self):
            return enc(VTuple([self.b, self.s]))

        @property
        def rect(self):
            return app('rectof', Opq(self.b.t))

    def model(pix, rect):
        return app('predict', pix, rect)

    def train_(pix, dets, opts):
        w.trained = (pix, dets, opts)
        return model
    m = world(**{CV: {'image_to_dlib_pixels': lambda im: app('pixels', im),
                 'bounding_box_pointcloud_to_dlib_fo_detection': lambda b, s: Det(b, s),
                 'dlib_full_object_detection_to_pointcloud': lambda d: Predicted(d),
                 }}).load(AL)
    m.dlib.train_shape_predictor = train_
    alg = object.__new__(m.DlibAlgorithm)
    alg.dlib_options = Options('o')
    alg.dlib_model = None
    r = alg.train(images, gts, boxes)
    prove('trained once', w.trained is not None)
    pix, dets, opts = w.trained
    list_eq('the pixels of each image in order', pix, slist('px', n, lambda i: app('pixels', Opq(w.P(zi(i))))))
    dets = as_vlist(dets)
    prove('one list of examples per image', dets.zlen() == n.t)
    i = index('i', n)
    di = as_vlist(dets.at(i))
    prove('one example per box of the image', di.zlen() == w.nb(i))
    k = z3.Int('k')
    ctx().assume(z3.And(k >= 0, k < w.nb(i)))
    d = di.at(k)
    prove('example uses its own box', d.b.t == w.B(i, k))
    prove('example uses the ground truth of its image', enc(d.s) == w.G(i))
    prove('own options', opts is alg.dlib_options)
    prove('returns the boxes', r is boxes)


@unit(PID, 'prediction', [AL + ':DlibAlgorithm.run'], ['contracts of the conversions (proved above)'])
def run():
    res = {}
    m = world(**{CV: {'image_to_dlib_pixels': lambda im: app('pixels', im),
                 'pointcloud_to_dlib_rect': lambda b: app('rectof', b),
                 'dlib_full_object_detection_to_pointcloud': lambda d: app('cloud', d)}}).load(AL)

    def result(**k):
        res.update(k)
        return res
    m.NonParametricIterativeResult = result
    alg = object.__new__(m.DlibAlgorithm)
    alg.dlib_model = lambda p, r: app('predict', p, r)
    im, bb, gt = opq('im'), opq('bb'), opq('gt')
    alg.run(im, bb, gt_shape=gt)
    sh = as_vlist(res['shapes'])
    prove('one shape', sh.zlen() == 1)
    prove('the prediction on the image from the box', enc(sh.at(0)) == enc(
        app('cloud', app('predict', app('pixels', im), app('rectof', bb)))))
    prove('image', enc(res['image']) == enc(im))
    prove('ground truth', enc(res['gt_shape']) == enc(gt))
