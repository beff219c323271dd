from .common import *
import menpofit.result as R
from menpofit.error import euclidean_bb_normalised_error
from menpo.shape import PointCloud
from menpo.image import Image
from menpo.transform import Affine, Scale, Translation, Similarity
import itertools

PID = 'C04'


def shapes(g, n, k):
    return [PointCloud(g.points(k, 2)) for _ in range(n)]


def costs(g, n):
    return [float(x) for x in g.normal(n)]


def my_error(a, b):
    return float(np.abs(a.points - b.points).max())


def check_history(r, want, gt, tag):
    need(len(r.shapes) == len(want), tag + ': number of shapes', got=len(r.shapes), expected=len(want))
    for i, (a, b) in enumerate(zip(r.shapes, want)):
        need_close(a.points, b, tag + ': shape %d' % i)
    need_close(r.final_shape.points, want[-1], tag + ': final shape is the last one')
    d = r.displacements()
    ref = [np.sqrt(((a - b) ** 2).sum(1)) for a, b in zip(want, want[1:])]
    need(len(d) == len(ref), tag + ': number of displacements')
    for a, b in zip(d, ref):
        need_close(a, b, tag + ': displacements')
    for st, f in (('mean', np.mean), ('median', np.median), ('max', np.max), ('min', np.min)):
        need_close(r.displacements_stats(st), [f(x) for x in ref], tag + ': displacement ' + st)
    raises(ValueError, lambda: r.displacements_stats('nope'), 'unknown statistic')
    if gt is None:
        for f in (r.errors, r.final_error, r.initial_error):
            raises(ValueError, f, 'needs a ground truth')
        return
    need_close(r.errors(), [euclidean_bb_normalised_error(PointCloud(s), gt) for s in want], tag + ': errors')
    need_close(r.errors(my_error), [my_error(PointCloud(s), gt) for s in want], tag + ': errors with own function')
    need_close(r.final_error(my_error), my_error(PointCloud(want[-1]), gt), tag + ': final error')
    if r.initial_shape is not None:
        need_close(r.initial_error(), euclidean_bb_normalised_error(PointCloud(want[0]), gt), tag + ': initial error')
    else:
        raises(ValueError, r.initial_error, 'needs an initial shape')


def check_plain(g, r, img):
    for a, b, c in itertools.product((True, False), repeat=3):
        p = r.to_result(pass_image=a, pass_initial_shape=b, pass_gt_shape=c)
        need(type(p) is R.Result and not p.is_iterative, 'plain result')
        need(p.final_shape is r.final_shape or close(p.final_shape.points, r.final_shape.points), 'final shape kept')
        need((p.initial_shape is None) == (not b or r.initial_shape is None), 'initial shape as selected')
        need((p.gt_shape is None) == (not c or r.gt_shape is None), 'ground truth as selected')
        if p.initial_shape is not None:
            need_close(p.initial_shape.points, r.initial_shape.points, 'initial shape')
        if p.gt_shape is not None:
            need_close(p.gt_shape.points, r.gt_shape.points, 'ground truth')
        need((p.image is None) == (not a or img is None), 'image as selected')
        if p.image is not None:
            need_close(p.image.pixels, img.pixels, 'image')


@case(PID, 'single scale results', 60)
def _(g):
    n, k = g.int(1, 6), g.int(2, 6)
    ss = shapes(g, n, k)
    ini = shapes(g, 1, k)[0] if g.flag(.7) else None
    gt = shapes(g, 1, k)[0] if g.flag(.7) else None
    cs = costs(g, n) if g.flag() else None
    img = Image(g.normal(g.choice([1, 3]), 6, 7)) if g.flag() else None
    ss0 = list(ss)
    r = R.NonParametricIterativeResult(ss, initial_shape=ini, gt_shape=gt, costs=cs, image=img)
    need(len(ss) == n and all(a is b for a, b in zip(ss, ss0)), 'the list of shapes passed in was modified')
    want = ([ini.points] if ini is not None else []) + [s.points for s in ss0]
    check_history(r, want, gt, 'iterative')
    need(r.n_iters == n, 'n_iters', got=r.n_iters, expected=n)
    need(r.costs == cs, 'costs')
    check_plain(g, r, img)
    if img is not None:
        need(r.image is not img and not np.shares_memory(r.image.pixels, img.pixels), 'the image is a copy')
    from menpofit.lk.result import LucasKanadeAlgorithmResult
    from menpofit.aam.result import AAMAlgorithmResult
    from menpofit.aps.result import APSAlgorithmResult
    from menpofit.unified_aam_clm.result import UnifiedAAMCLMAlgorithmResult
    ps = [g.normal(4) for _ in range(n)]
    ap = [g.normal(3) for _ in range(n)] if g.flag(.7) else None
    cl = g.choice([R.ParametricIterativeResult, LucasKanadeAlgorithmResult, AAMAlgorithmResult, APSAlgorithmResult,
                   UnifiedAAMCLMAlgorithmResult])
    kw = dict(initial_shape=ini, gt_shape=gt, costs=cs, image=img)
    if cl in (AAMAlgorithmResult, UnifiedAAMCLMAlgorithmResult):
        r = cl(list(ss0), list(ps), ap, **kw)
        need(r.appearance_parameters is ap, 'appearance parameters')
    elif cl is APSAlgorithmResult:
        c1, c2 = costs(g, n), costs(g, n)
        r = cl(list(ss0), list(ps), appearance_costs=c1, deformation_costs=c2, **kw)
        need(r.appearance_costs == c1 and r.deformation_costs == c2, 'appearance / deformation costs')
    else:
        r = cl(list(ss0), list(ps), **kw)
    check_history(r, want, gt, 'parametric')
    need(r.n_iters == n - 1, 'n_iters of a parametric result', got=r.n_iters, expected=n - 1)
    pp = r.homogeneous_parameters if cl is LucasKanadeAlgorithmResult else r.shape_parameters
    need(len(pp) == n and all(np.array_equal(a, b) for a, b in zip(pp, ps)), 'parameters')
    need_close(r.reconstructed_initial_shape.points, ss0[0].points, 'reconstructed initial shape')
    need(r.costs == cs, 'costs')
    if gt is not None:
        need_close(r.reconstructed_initial_error(), euclidean_bb_normalised_error(ss0[0], gt), 'reconstructed initial error')
        str(r)
    else:
        raises(ValueError, r.reconstructed_initial_error, 'needs a ground truth')


@case(PID, 'multi-scale results', 80)
def _(g):
    from menpofit.lk.result import LucasKanadeAlgorithmResult, LucasKanadeResult
    from menpofit.aam.result import AAMAlgorithmResult, AAMResult
    from menpofit.aps.result import APSAlgorithmResult, APSResult
    from menpofit.unified_aam_clm.result import UnifiedAAMCLMAlgorithmResult, UnifiedAAMCLMResult
    kind = g.choice(['non', 'par', 'lk', 'aam', 'aps', 'uni'])
    S, k = g.int(1, 4), g.int(2, 5)
    wi, wc, we = g.flag(.7), g.flag(.7), g.flag(.8)
    gt = shapes(g, 1, k)[0] if g.flag(.7) else None
    img = Image(g.normal(1, 5, 6)) if g.flag() else None
    rs, aff, sc, want, allc, allp, e1, e2, rec, nit = [], [], [], [], [], [], [], [], [], []
    for s in range(S):
        n = g.int(1, 4)
        ss = shapes(g, n, k)
        ini = shapes(g, 1, k)[0] if wi else None
        cs = costs(g, n) if wc else None
        ps = [g.normal(4) for _ in range(n)]
        a1 = [g.normal(3) for _ in range(n)] if we else None
        a2 = [g.normal(3) for _ in range(n)] if we else None
        kw = dict(initial_shape=ini, costs=cs)
        r = {'non': lambda: R.NonParametricIterativeResult(ss, **kw),
             'par': lambda: R.ParametricIterativeResult(ss, ps, **kw),
             'lk': lambda: LucasKanadeAlgorithmResult(ss, ps, **kw),
             'aam': lambda: AAMAlgorithmResult(ss, ps, a1, **kw),
             'uni': lambda: UnifiedAAMCLMAlgorithmResult(ss, ps, a1, **kw),
             'aps': lambda: APSAlgorithmResult(ss, ps, appearance_costs=a1, deformation_costs=a2, **kw)}[kind]()
        A, Sc = Translation(g.normal(2) * 5), Similarity.init_identity(2)
        A = Affine(np.vstack([np.hstack([g.normal(2, 2) + np.eye(2) * 2, g.normal(2, 1)]), [[0, 0, 1]]]))
        Sc = Scale(g.uniform(.5, 3), n_dims=2)
        f = lambda p: A.apply(Sc.apply(p))
        if s == 0 and wi:
            want.append(f(ini.points))
        rec.append(len(want))
        want += [f(x.points) for x in ss]
        rs.append(r)
        aff.append(A)
        sc.append(Sc)
        allc += cs or []
        allp += ps
        e1 += a1 or []
        e2 += a2 or []
        nit.append(n)
    cls = {'non': R.MultiScaleNonParametricIterativeResult, 'par': R.MultiScaleParametricIterativeResult,
           'lk': LucasKanadeResult, 'aam': AAMResult, 'uni': UnifiedAAMCLMResult, 'aps': APSResult}[kind]
    lens = [(len(r.shapes), None if r.costs is None else len(r.costs)) for r in rs]
    scales = list(np.linspace(.3, 1, S))
    r = cls(rs, scales, aff, sc, image=img, gt_shape=gt)
    need(lens == [(len(x.shapes), None if x.costs is None else len(x.costs)) for x in rs] and len(rs) == S,
         'results of the scales modified')
    check_history(r, want, gt, kind)
    par = kind != 'non'
    need(r.n_iters == sum(nit) - (S if par else 0), 'n_iters', kind=kind, got=r.n_iters, sizes=nit)
    need(list(r.n_iters_per_scale) == [x - par for x in nit], 'n_iters per scale', kind=kind)
    need(r.n_scales == S, 'n_scales')
    need((r.initial_shape is not None) == wi, 'initial shape')
    if wi:
        need_close(r.initial_shape.points, want[0], 'initial shape')
    need(r.costs == (allc if wc else None), 'costs of the scales concatenated')
    check_plain(g, r, img)
    if par:
        pp = r.homogeneous_parameters if kind == 'lk' else r.shape_parameters
        need(len(pp) == len(allp) and all(np.array_equal(a, b) for a, b in zip(pp, allp)), 'parameters of the scales')
        ri = r.reconstructed_initial_shapes
        need(len(ri) == S, 'one reconstruction per scale')
        for a, b in zip(ri, rec):
            need_close(a.points, want[b], 'reconstructed initial shape')
        if gt is not None:
            need_close(r.reconstructed_initial_error(my_error), my_error(PointCloud(want[rec[0]]), gt),
                       'reconstructed initial error')
    if kind in ('aam', 'uni'):
        ap = r.appearance_parameters
        need((ap is None) == (not we), 'appearance parameters')
        if we:
            need(len(ap) == len(e1) and all(a is b for a, b in zip(ap, e1)), 'appearance parameters in order')
    if kind == 'aps':
        for got, e in ((r.appearance_costs, e1), (r.deformation_costs, e2)):
            need((got is None) == (not we), 'costs')
            if we:
                need(len(got) == len(e) and all(a is b for a, b in zip(got, e)), 'costs in order')
    raises(ValueError, lambda: cls(rs, scales + [2.], aff, sc), 'one scale per result')
