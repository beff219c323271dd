"""C17: perturbations are similarity noise on the given shape, in bounds."""
from .common import *
from .c04 import opt  # noqa: F401

PID = 'C17'
FI = 'menpofit.fitter'


class Aff2(object):
    """contract of menpo's two-dimensional affine transforms: x -> A x + b"""
    __vtrusted__ = 'menpo.transform: apply is A x + b, a.compose_after(b) applies b first, a.compose_before(b) a first'

    def __init__(self, A, b):
        self.A, self.b = A, b

    def point(self, x):
        return [self.A[i][0] * x[0] + self.A[i][1] * x[1] + self.b[i] for i in (0, 1)]

    def compose_after(self, o):
        A = [[self.A[i][0] * o.A[0][j] + self.A[i][1] * o.A[1][j] for j in (0, 1)] for i in (0, 1)]
        return Aff2(A, self.point(o.b))

    def compose_before(self, o):
        return o.compose_after(self)

    def apply(self, x):
        if isinstance(x, SShape):
            return x.moved(self)
        e = x.frozen()

        def elem(idx):
            p = self.point([zreal(wrap(e([idx[0], (z3.IntVal(k),)]))) for k in (0, 1)])
            return z3.If(idx[1][0] == 0, p[0], p[1])
        return STensor(x.axes, elem, 'r')


class SShape(SPointCloud):
    """a two-dimensional shape; its bounding box is a shape of four corners"""
    def __init__(self, points, name=None, copy=True):
        SPointCloud.__init__(self, points, copy=False)
        self.name = name

    def moved(self, tr):
        r = SShape(tr.apply(self.points), None)
        return r

    def bounding_box(self):
        lo, hi = self.bounds()
        return SShape(T.stack(VList([VList([lo[0], lo[1]]), VList([hi[0], lo[1]]), VList([hi[0], hi[1]]),
                                     VList([lo[0], hi[1]])])), None)


def key(shape):
    """a shape as a value (equal points give equal values)"""
    tab = ctx().extra.setdefault('shapekeys', [])
    for s, k in tab:
        if s.points.ndim == shape.points.ndim and T.deq(T.dprod(s.points.axes[0]), T.dprod(shape.points.axes[0])):
            if PV.check(ctx().pc + ctx().axioms, T.tensor_eq(s.points, shape.points), timeout=3000)[0] == 'proved':
                return k
    k = len(tab)
    tab.append((SShape(shape.points.copy()), k))
    return k


SIM = []


def similarity(source, target, rotation=True, allow_mirror=False):
    ctx().extra.setdefault('aligned', []).append((source, target, rotation))
    nm = 'sim_%d_%d_%s' % (key(source), key(target), rotation)
    a = [z3.Real('%s.%s' % (nm, q)) for q in ('a', 'b', 'tx', 'ty')]
    r = Aff2([[a[0], -a[1]], [a[1], a[0]]], [a[2], a[3]])
    return r


def about(c, A):
    c = [at(c, 0), at(c, 1)]
    return Aff2(A, [c[i] - A[i][0] * c[0] - A[i][1] * c[1] for i in (0, 1)])


def scale_about_centre(obj, s):
    ctx().extra.setdefault('scales', []).append((obj, s))
    z = z3.RealVal(0)
    return about(obj.centre(), [[val(s), z], [z, val(s)]])


def rotate_about_centre(obj, theta, degrees=True):
    ctx().extra.setdefault('angles', []).append((obj, theta, degrees))
    t = val(theta) if degrees else val(theta) * z3.RealVal(180) / z3.Real('pi')
    c, s = z3.Function('cosd', REAL, REAL)(t), z3.Function('sind', REAL, REAL)(t)
    return about(obj.centre(), [[c, -s], [s, c]])


def translation(t, *a, **k):
    ctx().extra.setdefault('shifts', []).append(t)
    o, z = z3.RealVal(1), z3.RealVal(0)
    return Aff2([[o, z], [z, o]], [at(t, 0), at(t, 1)])


STUBS = {'menpo.transform': {'scale_about_centre': scale_about_centre, 'rotate_ccw_about_centre': rotate_about_centre,
                             'Translation': translation, 'AlignmentSimilarity': similarity,
                             'AlignmentAffine': None, 'Scale': None},
         'menpo.shape': {'PointCloud': SShape}}


def fi():
    return World(stubs=STUBS).load(FI)


def shape(name, n=None):
    n = n or sint(name + '_n', 1)
    return SShape(pts(name, n, 2), name)


def mag(t):
    """the parts of the noise that was built: (scale - 1, degrees, translation)"""
    x = ctx().extra
    if not (len(x.get('scales', [])) == len(x.get('angles', [])) == len(x.get('shifts', [])) == 1):
        raise Unsupported('noise built another way')
    return x['scales'][0], x['angles'][0], x['shifts'][0]


FORMS = {'one value': lambda p: p, 'one-entry list': lambda p: VList([p]), 'three values': None}


def noisy(kind, form, rot):
    m = fi()
    src, tgt = shape('source'), shape('target')
    p = [sreal('p%d' % i) for i in range(3)]
    for q in p:
        ctx().assume(q.t >= 0)
    if form == 'three values':
        arg = VList(p)
    else:
        p = [p[0]] * 3
        arg = FORMS[form](p[0])
    before = list(arg.items()) if isinstance(arg, VList) else None
    fr = Frame(source=src.points, target=tgt.points)
    kind_ = ''.join(list(kind))    # an equal string, not the same object
    tr = m.noisy_alignment_similarity_transform(src, tgt, noise_type=kind_, noise_percentage=arg,
                                                allow_alignment_rotation=rot)
    fr.check()
    if before is not None:
        now = arg.items() if arg.concrete() else []
        prove('noise_percentage list unmodified', len(now) == len(before) and all(a is b for a, b in zip(now, before)))
    (so, s), (ro, r, deg), t = mag(tr)
    prove('angle in degrees', deg is True)
    s1 = val(s) - 1
    r1 = val(r)
    lo, hi = tgt.bounds()
    rng = [at(hi, d) - at(lo, d) for d in (0, 1)]
    ts = [at(t, d) for d in (0, 1)]
    draws = ctx().extra.get('draws', [])
    one = [x for _, x in draws if x.axes == [(1,)]]
    two = [x for _, x in draws if x.axes == [(2,)]]
    want = 'rand' if kind == 'uniform' else 'randn'
    if not (len(one) == 2 and len(two) == 1 and len(draws) == 3 and all(k == want for k, _ in draws)):
        raise Unsupported('draws')
    f = (lambda v: p[0].t / 2 * (2 * v - 1)) if kind == 'uniform' else (lambda v: p[0].t * zreal(0.5 / 3) * v)
    if not provable(s1 == f(at(one[0], 0))):      # whichever was drawn first
        one.reverse()
    draws = [('', one[0]), ('', one[1]), ('', two[0])]
    if kind == 'uniform':
        for x, b, nm in ((s1, p[0].t / 2, 'scale'), (r1, 180 * p[1].t, 'rotation')):
            prove('%s noise within its bound' % nm, z3.And(x <= b, x >= -b))
        for d in (0, 1):
            prove('translation noise within its bound', z3.And(ts[d] <= p[2].t * rng[d], ts[d] >= -p[2].t * rng[d]))
        u = [2 * at(x, 0) - 1 for _, x in draws]
        prove('scale noise covers its range evenly', s1 == p[0].t / 2 * u[0])
        prove('rotation noise covers its range evenly', r1 == 180 * p[1].t * u[1])
        for d in (0, 1):
            prove('translation noise covers its range evenly',
                  ts[d] == p[2].t * rng[d] * (2 * at(draws[2][1], d) - 1))
    else:
        z = [at(x, 0) for _, x in draws]
        prove('scale noise has its standard deviation', s1 == p[0].t * zreal(0.5 / 3) * z[0])
        prove('rotation noise has its standard deviation', r1 == p[1].t * 60 * z[1])
        for d in (0, 1):
            prove('translation noise has its standard deviation', ts[d] == p[2].t * rng[d] / 3 * at(draws[2][1], d))
    # about the target, after the alignment
    c = tgt.centre()
    cd = [at(c, 0), at(c, 1)]
    x = [z3.Real('x0'), z3.Real('x1')]
    A = similarity(src, tgt, rotation=rot)
    y = A.point(x)
    cs, sn = z3.Function('cosd', REAL, REAL)(r1), z3.Function('sind', REAL, REAL)(r1)
    z = [y[0] - cd[0], y[1] - cd[1]]
    e = [cd[0] + val(s) * (cs * z[0] - sn * z[1]) + ts[0], cd[1] + val(s) * (sn * z[0] + cs * z[1]) + ts[1]]
    got = tr.point(x)
    for d in (0, 1):
        prove('the noise moves the aligned point about the centre of the target', got[d] == e[d])
    # zero noise
    zero = z3.And(*[q.t == 0 for q in p])
    prove('zero noise: scale one, no rotation, no translation',
          z3.Implies(zero, z3.And(val(s) == 1, r1 == 0, ts[0] == 0, ts[1] == 0)))
    unrot = z3.Implies(r1 == 0, z3.And(cs == 1, sn == 0))
    for d in (0, 1):
        prove('zero noise: the unperturbed alignment', z3.Implies(z3.And(zero, unrot), got[d] == y[d]))


for _k in ('uniform', 'gaussian'):
    for _f in FORMS:
        for _r in (False, True):
            unit(PID, 'similarity noise %s, %s%s' % (_k, _f, ', rotation' if _r else ''),
                 [FI + ':noisy_alignment_similarity_transform'],
                 ['menpo.transform.AlignmentSimilarity'])(lambda _k=_k, _f=_f, _r=_r: noisy(_k, _f, _r))


@unit(PID, 'unknown noise types are rejected', [FI + ':noisy_alignment_similarity_transform'])
def unknown():
    m = fi()
    expect_raises('ValueError', ValueError, lambda: m.noisy_alignment_similarity_transform(
        shape('source'), shape('target'), noise_type='other'))


class Tr(object):
    def __init__(self, t):
        self.t = t

    def apply(self, x):
        return ('applied', self.t, x)


def wrappers():
    m = fi()
    seen = []

    def nat(source, target, noise_type='uniform', noise_percentage=0.1, allow_alignment_rotation=False):
        seen.append((source, target, noise_type, noise_percentage, allow_alignment_rotation))
        return Tr(len(seen))
    m.noisy_alignment_similarity_transform = nat
    sh, tg = shape('shape'), shape('target')
    k = tok('kind'), tok('pct'), tok('rot')
    out = m.noisy_shape_from_bounding_box(sh, tg, noise_type=k[0], noise_percentage=k[1], allow_alignment_rotation=k[2])
    s = seen.pop()
    prove_eq('the bounding box of the shape is aligned', s[0].points, sh.bounding_box().points)
    prove('with the bounding box', s[1] is tg)
    prove('options passed on', s[2] is k[0] and s[3] is k[1] and s[4] is k[2])
    prove('the shape itself is moved', out[0] == 'applied' and out[1] == 1 and out[2] is sh)
    out = m.noisy_shape_from_shape(sh, tg, noise_type=k[0], noise_percentage=k[1], allow_alignment_rotation=k[2])
    s = seen.pop()
    prove('the reference shape is aligned with the shape', s[0] is sh and s[1] is tg)
    prove('options passed on (shape)', s[2] is k[0] and s[3] is k[1] and s[4] is k[2])
    prove('the reference shape is moved', out[0] == 'applied' and out[2] is sh)
    al = []

    def cls(a, b, **kw):
        al.append((a, b, kw))
        return Tr('align')
    q = tok('q')
    out = m.align_shape_with_bounding_box(sh, tg, alignment_transform_cls=cls, rotation=q)
    prove_eq('alignment of the bounding box of the shape', al[0][0].points, sh.bounding_box().points)
    prove('alignment with the bounding box', al[0][1] is tg)
    prove('alignment options', len(al[0][2]) == 1 and al[0][2]['rotation'] is q)
    prove('aligned shape', out[1] == 'align' and out[2] is sh)


unit(PID, 'shapes from bounding boxes', [FI + ':noisy_shape_from_bounding_box', FI + ':noisy_shape_from_shape',
                                         FI + ':align_shape_with_bounding_box'])(wrappers)


@unit(PID, 'white noise on the target', [FI + ':noisy_target_alignment_transform'])
def white():
    m = fi()
    src, tg = shape('source'), shape('target')
    sd = sreal('noise_std')
    fr = Frame(source=src.points, target=tg.points)
    al = []

    def cls(a, b, **kw):
        al.append((a, b, kw))
        return Tr('noisy')
    q = tok('q')
    tr = m.noisy_target_alignment_transform(src, tg, alignment_transform_cls=cls, noise_std=sd, opt=q)
    fr.check()
    prove('alignment of the source', al[0][0] is src and tr.t == 'noisy' and al[0][2]['opt'] is q)
    (kind, z), = ctx().extra['draws']
    prove('gaussian', kind == 'randn')
    lo, hi = tg.bounds()
    prove_eq('noise relative to the range of the target', al[0][1].points, tg.points + sd * (hi - lo) * z)
