"""C02: landmark error metrics equal their published definitions."""
from .common import *

PID = 'C02'
EB = 'menpofit.error.base'
EF = 'menpofit.error.human.face'


def world():
    w = World(stubs={'menpo.shape': MENPO_SHAPE})
    return w


def rms(a, b, n, d):
    s = ssum(n, lambda i: ssum(d, lambda j: (at(a, i, j) - at(b, i, j)) * (at(a, i, j) - at(b, i, j))))
    return rsqrt(rdiv(s, zreal(n) * zreal(d)))


def euc(a, b, n, d):
    s = ssum(n, lambda i: rsqrt(ssum(d, lambda j: (at(a, i, j) - at(b, i, j)) * (at(a, i, j) - at(b, i, j)))))
    return rdiv(s, zreal(n))


def rng(a, j):
    """extent along axis j"""
    col = a[:, j]
    return val(T.reduce_op('max', col)) - val(T.reduce_op('min', col))


NORMS = {
    'area': lambda a: rng(a, 0) * rng(a, 1),
    'perimeter': lambda a: 2 * (rng(a, 0) + rng(a, 1)),
    'avg_edge_length': lambda a: (rng(a, 0) + rng(a, 1)) / 2,
    'diagonal': lambda a: rsqrt(rng(a, 0) * rng(a, 0) + rng(a, 1) * rng(a, 1)),
}


def shapes(d=None):
    n = sint('n', 1)
    if d is None:
        d = sint('d', 1)
    return n, d, pts('a', n, d), pts('b', n, d)


def both_forms(f, a, b):
    """apply to arrays and to PointClouds"""
    yield 'array', f(a, b)
    yield 'PointCloud', f(SPointCloud(a, copy=False), SPointCloud(b, copy=False))
    yield 'mixed', f(a, SPointCloud(b, copy=False))


@unit(PID, 'base errors', [EB + ':root_mean_square_error', EB + ':euclidean_error', EB + ':pointcloud_to_points'])
def base_errors():
    m = world().load(EB)
    n, d, a, b = shapes()
    fr = Frame(a=a, b=b)
    for k, r in both_forms(m.root_mean_square_error, a, b):
        prove('root_mean_square_error = definition (%s)' % k, val(r) == rms(a, b, n, d))
    for k, r in both_forms(m.euclidean_error, a, b):
        prove('euclidean_error = definition (%s)' % k, val(r) == euc(a, b, n, d))
    fr.check()
    cover('precondition satisfiable')


@unit(PID, 'identity', [EB + ':root_mean_square_error', EB + ':euclidean_error'],
      ['lemma: a sum of non-negative terms is at least each of its terms'])
def identity():
    m = world().load(EB)
    n, d, a, b = shapes()
    prove('rms(a, a) = 0', val(m.root_mean_square_error(a, a)) == 0)
    prove('euclidean(a, a) = 0', val(m.euclidean_error(a, a)) == 0)
    # converse: error zero => equal at an arbitrary landmark and coordinate
    i, j = z3.Ints('i j')
    ctx().assume(z3.And(i >= 0, i < n.t, j >= 0, j < d.t))
    for nm, f in (('rms', m.root_mean_square_error), ('euclidean', m.euclidean_error)):
        r = val(f(a, b))
        ls = PV.combo_members(r, [i, j], ctx().pc)
        g = z3.Implies(z3.And(*ls + PV.axioms(ls + [r]) + [r == 0]), at(a, i, j) == at(b, i, j))
        prove('%s = 0 only for identical shapes' % nm, g)
        prove('%s >= 0' % nm, r >= 0)


@unit(PID, 'bounding box normalisers', [EB + ':bb_area', EB + ':bb_perimeter', EB + ':bb_avg_edge_length',
                                        EB + ':bb_diagonal'])
def bb():
    m = world().load(EB)
    n = sint('n', 1)
    a = pts('a', n, 2)
    fr = Frame(a=a)
    for k, sp in NORMS.items():
        prove('bb_%s = definition' % k, val(getattr(m, 'bb_' + k)(a)) == sp(a))
        prove('bb_norm_types[%s]' % k, val(m.bb_norm_types[k](a)) == sp(a))
    prove('names', set(m.bb_norm_types) == set(NORMS))
    fr.check()


@unit(PID, 'bounding box normalised errors', [EB + ':bb_normalised_error',
                                              EB + ':root_mean_square_bb_normalised_error',
                                              EB + ':euclidean_bb_normalised_error'])
def bbn():
    m = world().load(EB)
    n, d, a, b = shapes(2)
    c = pts('c', sint('nc', 1), 2)
    fr = Frame(a=a, b=b, c=c)
    for nm, f, e in (('rms', m.root_mean_square_bb_normalised_error, rms),
                     ('euclidean', m.euclidean_bb_normalised_error, euc)):
        for k, r in both_forms(f, a, b):
            prove('%s default normaliser (%s)' % (nm, k),
                  val(r) == rdiv(e(a, b, n, d), NORMS['avg_edge_length'](b)))
        for t, sp in NORMS.items():
            for k, r in both_forms(lambda x, y: f(x, y, norm_type=t), a, b):
                prove('%s/%s of the ground truth (%s)' % (nm, t, k), val(r) == rdiv(e(a, b, n, d), sp(b)))
            for k, r in both_forms(lambda x, y: f(x, y, norm_shape=SPointCloud(c, copy=False), norm_type=t), a, b):
                prove('%s/%s of norm_shape (%s)' % (nm, t, k), val(r) == rdiv(e(a, b, n, d), sp(c)))
        expect_raises('%s: unknown norm_type' % nm, ValueError, lambda: f(a, b, norm_type='nope'))
    fr.check()


@unit(PID, 'landmark distance normalised errors',
      [EB + ':distance_two_indices', EB + ':distance_normalised_error', EB + ':distance_indexed_normalised_error',
       EB + ':root_mean_square_distance_normalised_error', EB + ':euclidean_distance_normalised_error',
       EB + ':root_mean_square_distance_indexed_normalised_error',
       EB + ':euclidean_distance_indexed_normalised_error'])
def dist():
    m = world().load(EB)
    n, d, a, b = shapes()
    i, j = sint('i1', 0), sint('i2', 0)
    ctx().assume(z3.And(i.t < n.t, j.t < n.t))
    fr = Frame(a=a, b=b)
    two = rsqrt(ssum(d, lambda k: (at(b, i.t, k) - at(b, j.t, k)) * (at(b, i.t, k) - at(b, j.t, k))))
    prove('distance_two_indices', val(m.distance_two_indices(i, j, b)) == two)
    K = z3.Function('norm_f', INT, REAL)(z3.IntVal(0))
    got = []

    def nf(x, y):
        got.append((x, y))
        return SReal(K)
    for nm, f, fi, e in (('rms', m.root_mean_square_distance_normalised_error,
                          m.root_mean_square_distance_indexed_normalised_error, rms),
                         ('euclidean', m.euclidean_distance_normalised_error,
                          m.euclidean_distance_indexed_normalised_error, euc)):
        for k, r in both_forms(lambda x, y: fi(x, y, i, j), a, b):
            prove('%s / distance of ground truth landmarks (%s)' % (nm, k), val(r) == rdiv(e(a, b, n, d), two))
        for k, r in both_forms(lambda x, y: f(x, y, nf), a, b):
            prove('%s / distance_norm_f (%s)' % (nm, k), val(r) == rdiv(e(a, b, n, d), K))
            x, y = got.pop()
            prove_eq('%s: distance_norm_f gets the shape (%s)' % (nm, k), x, a)
            prove_eq('%s: distance_norm_f gets the ground truth (%s)' % (nm, k), y, b)
    fr.check()


# ------------------------------------------------ human face schemes
IDX49_68 = list(range(17, 60)) + [61, 62, 63] + [65, 66, 67]
IDX49_51 = [k for k in range(51) if k not in (43, 47)]
CONV = {'68_to_51': (68, list(range(17, 68))), '68_to_49': (68, IDX49_68), '66_to_49': (66, list(range(17, 66))),
        '51_to_49': (51, IDX49_51)}


def face_world():
    return World(stubs={'menpo.shape': MENPO_SHAPE, 'menpo.landmark': {
        'face_ibug_68_to_face_ibug_68': mapper(68), 'face_ibug_49_to_face_ibug_49': mapper(49),
        'face_ibug_68_to_face_ibug_49': None}})


MAPS = {68: dict(right_eye=list(range(36, 42)), left_eye=list(range(42, 48))),
        49: dict(right_eye=list(range(19, 25)), left_eye=list(range(25, 31)))}


def mapper(n):
    def f(s, return_mapping=False):
        if T.dim(s.shape[0]) != n:
            raise ValueError('wrong number of points')
        return s, {k: np.array(v) for k, v in MAPS[n].items()}
    return f


def sub(a, idx):
    return a[np.array(idx)]


def to49(a, n):
    if n == 68:
        return sub(a, IDX49_68)
    if n == 66:
        return sub(a, range(17, 66))
    if n == 51:
        return sub(a, IDX49_51)
    return a


def pupil(b, n):
    m = MAPS[n]
    t = z3.RealVal(0)
    for j in range(2):
        l = sum((at(b, k, j) for k in m['left_eye']), z3.RealVal(0)) / 6
        r = sum((at(b, k, j) for k in m['right_eye']), z3.RealVal(0)) / 6
        t = t + (l - r) * (l - r)
    return rsqrt(t)


@unit(PID, 'face scheme conversions', [EF + ':_convert_%s' % k for k in CONV], budget=90)
def conv():
    m = face_world().load(EF)
    for k, (n, idx) in CONV.items():
        a = pts('a', n, 2)
        fr = Frame(a=a)
        r = getattr(m, '_convert_' + k)(SPointCloud(a, copy=False))
        prove_eq('%s keeps the landmark subset in order' % k, r.points, sub(a, idx))
        fr.check()


FACE = ['mean_pupil_68_error', 'mean_pupil_49_error', 'outer_eye_corner_68_euclidean_error',
        'outer_eye_corner_51_euclidean_error', 'outer_eye_corner_49_euclidean_error',
        'bb_avg_edge_length_68_euclidean_error', 'bb_avg_edge_length_49_euclidean_error']
ALLOWED = {'68': ([68], [68]), '51': ([68, 51], [68, 51]), '49': ([68, 66, 51, 49], [68, 66, 51, 49])}


def two(b, i, j):
    return rsqrt(sum(((at(b, i, k) - at(b, j, k)) * (at(b, i, k) - at(b, j, k)) for k in range(2)), z3.RealVal(0)))


def face_spec(name, a, na, b, nb):
    if name == 'mean_pupil_68_error':
        return a, b, lambda: pupil(b, 68)
    if name == 'outer_eye_corner_68_euclidean_error':
        return a, b, lambda: two(b, 36, 45)
    if name == 'bb_avg_edge_length_68_euclidean_error':
        return a, b, lambda: NORMS['avg_edge_length'](b)
    if name == 'outer_eye_corner_51_euclidean_error':
        x = sub(a, range(17, 68)) if na == 68 else a
        y = sub(b, range(17, 68)) if nb == 68 else b
        return x, y, lambda: two(y, 19, 28)
    x, y = to49(a, na), to49(b, nb)
    if name == 'mean_pupil_49_error':
        return x, y, lambda: pupil(y, 49)
    if name == 'outer_eye_corner_49_euclidean_error':
        return x, y, lambda: two(y, 19, 28)
    return x, y, lambda: NORMS['avg_edge_length'](b)


def mk_face(name):
    @unit(PID, 'face: ' + name, [EF + ':' + name], ['menpo.landmark face_ibug eye index ranges'], budget=200)
    def f():
        m = face_world().load(EF)
        sch = '68' if '68' in name else ('51' if '51' in name else '49')
        oka, okb = ALLOWED[sch]
        if name.startswith('bb_avg_edge_length_49'):
            okb = [68]
        for na in (68, 66, 51, 49):
            for nb in (68, 66, 51, 49):
                a, b = pts('a', na, 2), pts('b', nb, 2)
                fr = Frame(a=a, b=b)
                call = lambda: getattr(m, name)(SPointCloud(a, copy=False), SPointCloud(b, copy=False))
                if na not in oka or nb not in okb:
                    expect_raises('rejects %d/%d points' % (na, nb), ValueError, call)
                    continue
                r = call()
                x, y, nrm = face_spec(name, a, na, b, nb)
                n = {68: 68, 51: 51, 49: 49}[int(T.dim(x.shape[0]))]
                prove('value for %d/%d points' % (na, nb), val(r) == rdiv(euc(x, y, n, 2), nrm()))
                fr.check()
for _n in FACE:
    mk_face(_n)
