"""C11: trained regressors are least-squares optimal, incremental equals batch."""
from .common import *
from ..engine import ring as R

PID = 'C11'
MOD = 'menpofit.math.regression'
DIMS = dict(n=9, n1=6, n2=5, d=4, y=2, m=3)


def load():
    m = World(stubs={'menpo.math': {'pca': R.pca, 'pcacov': R.pcacov}}).load(MOD)
    m.np = R.RNP()
    return m


def eq(name, a, b):
    return R.prove_eq(name, a, b, DIMS)


def data(n='n', tag=''):
    N, d, y = sint(n, 1), sint('d', 1), sint('y', 1)
    return R.fresh('X' + tag, N, d), R.fresh('Y' + tag, N, y)


def aug(x, bias):
    return R.augment(x) if bias else x


def reg(x, alpha):
    r = x.T.dot(x)
    return r if alpha is None else r + R.identity(x._s[1]) * alpha


def alpha_of(a, name='alpha'):
    if a is None:
        return None
    v = sreal(name)
    ctx().assume(v.t > 0)
    return v


def unmodified(name, *ms):
    prove(name, all(m.version() == 0 for m in ms))


def check_predict(r, coef, bias, d):
    """prediction is the affine map learnt, for rows and for a single vector"""
    m = sint('m', 1)
    x = R.fresh('x', m, d)
    eq('prediction of many rows', r.predict(x), aug(x, bias).dot(coef))
    v = R.fresh('v', 1, d, vec=True)
    eq('prediction of one vector', r.predict(v), aug(v, bias).dot(coef))
    unmodified('prediction leaves its argument unmodified', x, v)


for _bias in (True, False):
    for _al in (None, 'a'):
        def _irl(bias=_bias, al=_al):
            m = load()
            X, Y = data()
            a = alpha_of(al)
            r = m.IRLRegression(alpha=a if al else 0, bias=bias)
            r.train(X, Y)
            Xb = aug(X, bias)
            eq('(XᵀX + alpha I) W = XᵀY', reg(Xb, a).dot(r.W), Xb.T.dot(Y))
            unmodified('training data unmodified', X, Y)
            check_predict(r, r.W, bias, X._s[1])
            expect_raises('not incrementable', ValueError, lambda: r.increment(X, Y))
        unit(PID, 'regularised least squares%s%s' % (' with bias' if _bias else '', ' alpha' if _al else ''),
             [MOD + ':IRLRegression.train', MOD + ':IRLRegression.predict', MOD + ':IRLRegression.__init__'],
             ['numpy.linalg.solve/inv', 'X\'X + alpha I is invertible'])(_irl)

        def _irl_inc(bias=_bias, al=_al):
            m = load()
            X1, Y1 = data('n1', '1')
            X2, Y2 = data('n2', '2')
            a = alpha_of(al)
            r = m.IRLRegression(alpha=a if al else 0, bias=bias, incrementable=True)
            r.train(X1, Y1)
            B1, B2 = aug(X1, bias), aug(X2, bias)
            eq('after training V is the inverse', r.V.dot(reg(B1, a)), R.identity(B1._s[1]))
            r.increment(X2, Y2)
            A = reg(B1, a) + B2.T.dot(B2)
            eq('after the increment V is the inverse of the sum', r.V.dot(A), R.identity(B1._s[1]))
            eq('the increment solves the system of all the data', A.dot(r.W), B1.T.dot(Y1) + B2.T.dot(Y2))
            # batch
            b = m.IRLRegression(alpha=a if al else 0, bias=bias, incrementable=True)
            X, Y = R.vcat([X1, X2]), R.vcat([Y1, Y2])
            b.train(X, Y)
            eq('the batch solves the same system', A.dot(b.W), B1.T.dot(Y1) + B2.T.dot(Y2))
            unmodified('training data unmodified', X1, Y1, X2, Y2)
            check_predict(r, r.W, bias, X1._s[1])
        unit(PID, 'increment equals batch%s%s' % (' with bias' if _bias else '', ' alpha' if _al else ''),
             [MOD + ':IRLRegression.train', MOD + ':IRLRegression.increment'],
             ['numpy.linalg.solve/inv', 'X\'X + alpha I is invertible'])(_irl_inc)

    def _step(bias=_bias):
        """any history of increments: from V A = I, A W = b to V' A' = I, A' W' = b'"""
        m = load()
        X, Y = data()
        B = aug(X, bias)
        D = B._s[1]
        G = R.fresh('G', sint('d', 1) + 3, D)
        A0 = G.T.dot(G)                              # an arbitrary positive matrix
        b0 = R.fresh('b', D, Y._s[1])
        for al in (0, alpha_of('a')):
            r = m.IRLRegression(alpha=al, bias=bias, incrementable=True)
            r.V = R.inv(A0)
            r.W = r.V.dot(b0)
            W0, V0 = r.W, r.V
            r.increment(X, Y)
            A = A0 + B.T.dot(B)
            eq('the inverse is maintained', r.V.dot(A), R.identity(D))
            eq('the system is maintained', A.dot(r.W), b0 + B.T.dot(Y))
            unmodified('data unmodified', X, Y, W0, V0)
            check_predict(r, r.W, bias, X._s[1])
    unit(PID, 'increments of any history%s' % (' with bias' if _bias else ''), [MOD + ':IRLRegression.increment'],
         ['numpy.linalg.inv', 'invertible system'])(_step)


for _al in (None, 'a'):
    for _al2 in (None, 'b'):
        def _iirl(al=_al, al2=_al2):
            m = load()
            X, Y = data('n1', '1')
            X2, Y2 = data('n2', '2')
            a, a2 = alpha_of(al), alpha_of(al2, 'alpha2')
            kw = dict(alpha=a if al else 0, alpha2=a2 if al2 else 0)
            r = m.IIRLRegression(**kw)
            r.train(X, Y)

            def direct(A, b):
                """J: Y -> X regression; W the regularised pseudo inverse of J"""
                return R.inv(A).dot(b)

            def indirect(J):
                H = J.dot(J.T)
                if al2:
                    H = H + R.identity(H._s[0]) * a2
                return H, J
            J = direct(reg(Y, a), Y.T.dot(X))
            H, b = indirect(J)
            eq('(JJᵀ + alpha2 I) Wᵀ = J', H.dot(r.W.T), b)
            x = R.fresh('x', sint('m', 1), X._s[1])
            eq('prediction of many rows', r.predict(x), x.dot(r.W))
            v = R.fresh('v', 1, X._s[1], vec=True)
            eq('prediction of one vector', r.predict(v), v.dot(r.W))
            expect_raises('not incrementable', ValueError, lambda: r.increment(X2, Y2))
            r = m.IIRLRegression(incrementable=True, **kw)
            r.train(X, Y)
            eq('incrementable training gives the same', H.dot(r.W.T), b)
            for k in range(2):
                Xk, Yk = (X2, Y2) if k == 0 else data('n', '3')
                A = reg(Y, a) + Y2.T.dot(Y2)
                bb = Y.T.dot(X) + Y2.T.dot(X2)
                if k:
                    A, bb = A + Yk.T.dot(Yk), bb + Yk.T.dot(Xk)
                r.increment(Xk, Yk)
                eq('increment %d: direct system' % (k + 1), A.dot(r.J), bb)
                H, J = indirect(r.J)
                (sa, sb, sx) = ctx().extra['solves'][-1]
                eq('increment %d: predictor' % (k + 1), sa, H)
                eq('increment %d: predictor (right hand side)' % (k + 1), sb, J)
                eq('increment %d: the solution is the predictor' % (k + 1), r.W.T, sx)
            unmodified('data unmodified', X, Y, X2, Y2)
        unit(PID, 'indirect regression%s%s' % (' alpha' if _al else '', ' alpha2' if _al2 else ''),
             [MOD + ':IIRLRegression.train', MOD + ':IIRLRegression.increment', MOD + ':IIRLRegression.predict',
              MOD + ':IIRLRegression.__init__'], ['numpy.linalg.solve/inv', 'invertible systems'], budget=120)(_iirl)


for _bias in (True, False):
    for _var in (False, True):
        def _pcr(bias=_bias, var=_var):
            m = load()
            X, Y = data()
            ctx().assume(sint('n', 1).t >= sint('d', 1).t + 1)
            v = sreal('variance')
            ctx().assume(z3.And(v.t > 0, v.t < 1))
            r = m.PCRRegression(variance=v if var else None, bias=bias)
            r.train(X, Y)
            Xb = aug(X, bias)
            (P, U, S, V), = ctx().extra['svds']
            eq('decomposes the data', P, Xb)
            if var:
                k = R.count('below', R.Vec(S), v)
                E = R.first(S._s[0], k)
                V = E.T.dot(V)
            Xk = Xb.dot(V.T).dot(V)
            eq('normal equations on the retained components', Xk.T.dot(Xk).dot(r.R), Xk.T.dot(Y))
            eq('the solution lies in the span of the retained components', V.T.dot(V).dot(r.R), r.R)
            unmodified('data unmodified', X, Y)
            check_predict(r, r.R, bias, X._s[1])
            expect_raises('increment', NotImplementedError, lambda: r.increment(X, Y))
        unit(PID, 'principal component regression%s%s' % (' with bias' if _bias else '', ' variance' if _var else ''),
             [MOD + ':PCRRegression.train', MOD + ':PCRRegression.predict', MOD + ':PCRRegression.__init__'],
             ['numpy.linalg.svd', 'nonzero singular values'])(_pcr)

        def _opt(bias=_bias, var=_var):
            m = load()
            X, Y = data()
            ctx().assume(sint('n', 1).t >= sint('d', 1).t + 1)
            v = sreal('variance')
            ctx().assume(z3.And(v.t > 0, v.t < 1))
            r = m.OptimalLinearRegression(variance=v if var else None, bias=bias)
            r.train(X, Y)
            Xb = aug(X, bias)
            (P1, U, L), (P2, V, L2) = ctx().extra['pcas']
            eq('components of the features', P1, Xb)
            if var:
                k = R.count('below', R.Vec(L), v)
                E = R.first(L._s[0], k)
                U, L = E.T.dot(U), E.T.dot(L).dot(E)
            Uw = R.RNP().sqrt(R.inv(R.nf(L))).dot(U)
            eq('whitened target correlation', P2, Uw.dot(Xb.T).dot(Y).dot(Y.T).dot(Xb).dot(Uw.T))
            H = V.dot(Uw)
            Z = Xb.dot(H.T)
            eq('solution in the optimal subspace', r.R, H.T.dot(R.pinv(Z)).dot(Y))
            eq('least squares optimal in the subspace', Z.T.dot(Xb).dot(r.R), Z.T.dot(Y))
            unmodified('data unmodified', X, Y)
            check_predict(r, r.R, bias, X._s[1])
            expect_raises('increment', NotImplementedError, lambda: r.increment(X, Y))
        unit(PID, 'optimal linear regression%s%s' % (' with bias' if _bias else '', ' variance' if _var else ''),
             [MOD + ':OptimalLinearRegression.train', MOD + ':OptimalLinearRegression.predict',
              MOD + ':OptimalLinearRegression.__init__'],
             ['menpo.math.pca', 'numpy.linalg.pinv'])(_opt)

    for _wh in (False, True):
        def _opp(bias=_bias, wh=_wh):
            m = load()
            X, Y = data()
            ctx().assume(sint('d', 1).t >= sint('y', 1).t)
            r = m.OPPRegression(bias=bias, whiten=wh)
            r.train(X, Y)
            Xb = aug(X, bias)
            C = Xb
            if wh:
                (P1, U, L), = ctx().extra['pcas']
                eq('components of the features', P1, Xb)
                Uw = R.RNP().sqrt(R.inv(L)).dot(U)
                C = Xb.dot(Uw.T).dot(Uw)
            (P, U, S, V), = ctx().extra['svds']
            eq('RᵀR = I', r.R.T.dot(r.R), R.identity(Y._s[1]))
            eq('RᵀXᵀY symmetric and positive: VᵀSV', r.R.T.dot(C.T).dot(Y), V.T.dot(S).dot(V))
            unmodified('data unmodified', X, Y)
            check_predict(r, r.R, bias, X._s[1])
            expect_raises('increment', NotImplementedError, lambda: r.increment(X, Y))
        unit(PID, 'orthogonal Procrustes%s%s' % (' with bias' if _bias else '', ' whitened' if _wh else ''),
             [MOD + ':OPPRegression.train', MOD + ':OPPRegression.predict', MOD + ':OPPRegression.__init__'],
             ['numpy.linalg.svd', 'menpo.math.pca', 'at least as many features as targets'])(_opp)
