from .common import *
import menpofit.error as E
import menpofit.error.base as B
import menpofit.error.human.face as F
from menpo.shape import PointCloud

PID = 'C02'


def rms(a, b):
    return np.sqrt(((a - b) ** 2).sum() / a.size)


def euc(a, b):
    return np.mean([np.sqrt(((x - y) ** 2).sum()) for x, y in zip(a, b)])


def bb(a, t):
    h, w = [a[:, k].max() - a[:, k].min() for k in (0, 1)]
    return {'area': h * w, 'perimeter': 2 * (h + w), 'avg_edge_length': (h + w) / 2, 'diagonal': np.hypot(h, w)}[t]


def forms(g, a, b):
    k = g.int(0, 3)
    return [(a.copy(), b.copy()), (PointCloud(a), PointCloud(b)), (a.copy(), PointCloud(b)),
            (PointCloud(a), b.copy())][k]


def raw(x):
    return x.points if isinstance(x, PointCloud) else x


@case(PID, 'errors against their definition', 60)
def _(g):
    n = g.int(1, 12)
    a, b = g.points(n), g.points(n)
    if g.flag(.15):
        b = a.copy()
    if g.flag(.2):
        b = a.copy()
        b[g.int(0, n - 1), g.int(0, 1)] += 1e-3
    if g.flag(.2):
        a, b = (a * 3).astype(int), (b * 3).astype(int)
    c = g.points()
    x, y = forms(g, a, b)
    ty = g.choice(['area', 'perimeter', 'avg_edge_length', 'diagonal'])
    i, j = g.int(0, n - 1), g.int(0, n - 1)
    for nm, d in (('root_mean_square', rms), ('euclidean', euc)):
        v = getattr(E, nm + '_error')(x, y)
        need_close(v, d(a, b), nm + '_error')
        need((v == 0) == bool((a == b).all()), nm + '_error zero iff identical')
        if n > 2:
            need_close(getattr(E, nm + '_bb_normalised_error')(x, y), d(a, b) / bb(b, 'avg_edge_length'),
                       nm + ' default bb normaliser')
            need_close(getattr(E, nm + '_bb_normalised_error')(x, y, norm_type=ty), d(a, b) / bb(b, ty),
                       nm + ' bb normaliser ' + ty)
        need_close(getattr(E, nm + '_bb_normalised_error')(x, y, norm_shape=PointCloud(c), norm_type=ty),
                   d(a, b) / bb(c, ty), nm + ' norm_shape ' + ty)
        raises(ValueError, lambda: getattr(E, nm + '_bb_normalised_error')(x, y, norm_type='foo'), 'bad norm_type')
        if i != j:
            two = np.sqrt(((b[i] - b[j]) ** 2).sum())
            need_close(getattr(E, nm + '_distance_indexed_normalised_error')(x, y, i, j), d(a, b) / two,
                       nm + ' indexed distance')
            need_close(getattr(E, nm + '_distance_normalised_error')(
                x, y, lambda s, t: np.abs(t).max() + 2 * np.abs(s).max()),
                d(a, b) / (np.abs(b).max() + 2 * np.abs(a).max()), nm + ' distance function')
    for t in ('area', 'perimeter', 'avg_edge_length', 'diagonal'):
        need_close(getattr(E, 'bb_' + t)(a), bb(a, t), 'bb_' + t)
    need_close(E.distance_two_indices(i, j, b), np.sqrt(((b[i] - b[j]) ** 2).sum()), 'distance_two_indices')
    need((raw(x) == a).all() and (raw(y) == b).all(), 'arguments modified')


I68 = list(range(17, 60)) + [61, 62, 63, 65, 66, 67]
I51 = [k for k in range(51) if k not in (43, 47)]


def to49(a):
    return {68: lambda: a[I68], 66: lambda: a[17:], 51: lambda: a[I51], 49: lambda: a}[len(a)]()


def to51(a):
    return a[17:] if len(a) == 68 else a


def dist(p, q):
    return np.sqrt(((p - q) ** 2).sum())


@case(PID, 'human face metrics', 60)
def _(g):
    na, nb = g.choice([68, 66, 51, 49]), g.choice([68, 66, 51, 49])
    A, Bb = g.points(na), g.points(nb)
    a, b = PointCloud(A), PointCloud(Bb)

    def chk(nm, oka, okb, spec):
        f = getattr(E, nm)
        if na in oka and nb in okb:
            need_close(f(a, b), spec(), '%s(%d,%d)' % (nm, na, nb))
        else:
            raises(ValueError, lambda: f(a, b), '%s(%d,%d)' % (nm, na, nb))
        need((a.points == A).all() and (b.points == Bb).all(), nm + ' modified its arguments')
    allp, l68, l51 = [68, 66, 51, 49], [68], [68, 51]
    e49 = lambda: euc(to49(A), to49(Bb))
    chk('mean_pupil_68_error', l68, l68, lambda: euc(A, Bb) / dist(Bb[36:42].mean(0), Bb[42:48].mean(0)))
    chk('mean_pupil_49_error', allp, allp,
        lambda: e49() / dist(to49(Bb)[19:25].mean(0), to49(Bb)[25:31].mean(0)))
    chk('outer_eye_corner_68_euclidean_error', l68, l68, lambda: euc(A, Bb) / dist(Bb[36], Bb[45]))
    chk('outer_eye_corner_51_euclidean_error', l51, l51,
        lambda: euc(to51(A), to51(Bb)) / dist(to51(Bb)[19], to51(Bb)[28]))
    chk('outer_eye_corner_49_euclidean_error', allp, allp, lambda: e49() / dist(to49(Bb)[19], to49(Bb)[28]))
    chk('bb_avg_edge_length_68_euclidean_error', l68, l68, lambda: euc(A, Bb) / bb(Bb, 'avg_edge_length'))
    chk('bb_avg_edge_length_49_euclidean_error', allp, l68, lambda: e49() / bb(Bb, 'avg_edge_length'))


@case(PID, 'face scheme conversions', 10)
def _(g):
    for nm, n, idx in (('68_to_51', 68, list(range(17, 68))), ('68_to_49', 68, I68), ('66_to_49', 66, range(17, 66)),
                       ('51_to_49', 51, I51)):
        A = g.points(n)
        p = PointCloud(A)
        f = getattr(F, '_convert_' + nm, None)
        if f is None:
            raise Undecided('no _convert_' + nm)
        r = f(p)
        need_close(r.points, A[list(idx)], nm)
        need((p.points == A).all(), nm + ' modified its argument')
