from .common import *
from menpofit.math.regression import (IRLRegression, IIRLRegression, PCRRegression, OptimalLinearRegression,
                                      OPPRegression)

PID = 'C11'


def data(g, nmin=0):
    d, y = g.int(1, 6), g.int(1, 3)
    n = d + 4 + nmin + g.int(0, 12)
    X = g.normal(n, d) + g.choice([0, 3.])
    Y = X.dot(g.normal(d, y)) * g.choice([0, 1.]) + g.normal(n, y) + g.choice([0, -2.])
    return X, Y


def aug(X, b):
    return np.hstack([X, np.ones((len(X), 1))]) if b else X


def same_predictions(g, r, W, bias, X, what, tol=1e-6):
    Z = g.normal(5, X.shape[1])
    Z0 = Z.copy()
    need_close(r.predict(Z), aug(Z, bias).dot(W), what + ': predictions of several samples', tol)
    need_close(np.ravel(r.predict(Z[0])), aug(Z, bias).dot(W)[0], what + ': prediction of one sample', tol)
    need(np.array_equal(Z, Z0), what + ': prediction modified its argument')


def cuts(g, n, first):
    return sorted(set([first] + [g.int(first, n - 1) for _ in range(g.int(0, 3))])) + [n]


@case(PID, 'regularised least squares', 60)
def _(g):
    X, Y = data(g, 4)
    X0, Y0 = X.copy(), Y.copy()
    bias, alpha = g.flag(), g.choice([0, 0.01, 1., 25])
    B = aug(X, bias)
    W = np.linalg.solve(B.T.dot(B) + alpha * np.eye(B.shape[1]), B.T.dot(Y))
    r = IRLRegression(alpha=alpha, bias=bias)
    r.train(X, Y)
    same_predictions(g, r, W, bias, X, 'least squares (alpha %s, bias %s)' % (alpha, bias))
    raises(ValueError, lambda: r.increment(X, Y), 'increment of a model that is not incrementable')
    r = IRLRegression(alpha=alpha, bias=bias, incrementable=True)
    c = cuts(g, len(X), X.shape[1] + 2)
    r.train(X[:c[0]], Y[:c[0]])
    for i, j in zip(c, c[1:]):
        r.increment(X[i:j], Y[i:j])
    same_predictions(g, r, W, bias, X, 'increments at %s of %d (alpha %s, bias %s)' % (c, len(X), alpha, bias), 1e-5)
    need(np.array_equal(X, X0) and np.array_equal(Y, Y0), 'training data modified')


@case(PID, 'indirect least squares', 50)
def _(g):
    d = g.int(2, 5)
    y = g.int(1, d)
    n = d + 6 + g.int(0, 10)
    X, Y = g.normal(n, d), g.normal(n, y)
    X = X + Y.dot(g.normal(y, d))
    X0, Y0 = X.copy(), Y.copy()
    alpha, alpha2 = g.choice([0, 0.1, 3.]), g.choice([0, 0.1, 3.])
    J = np.linalg.solve(Y.T.dot(Y) + alpha * np.eye(y), Y.T.dot(X))
    W = np.linalg.solve(J.dot(J.T) + alpha2 * np.eye(y), J).T
    r = IIRLRegression(alpha=alpha, alpha2=alpha2, bias=g.flag())
    r.train(X, Y)
    same_predictions(g, r, W, False, X, 'indirect least squares (alpha %s alpha2 %s)' % (alpha, alpha2))
    try:
        r = IIRLRegression(alpha=alpha, alpha2=alpha2, incrementable=True)
    except TypeError:
        r = IIRLRegression(alpha=alpha, alpha2=alpha2)
        r.incrementable = True
    c = cuts(g, n, y + 2)
    r.train(X[:c[0]], Y[:c[0]])
    for i, j in zip(c, c[1:]):
        r.increment(X[i:j], Y[i:j])
    same_predictions(g, r, W, False, X, 'indirect increments at %s of %d' % (c, n), 1e-5)
    need(np.array_equal(X, X0) and np.array_equal(Y, Y0), 'training data modified')


@case(PID, 'principal components', 50)
def _(g):
    X, Y = data(g)
    X0, Y0 = X.copy(), Y.copy()
    bias, var = g.flag(), g.choice([None, .5, .8, .95])
    B = aug(X, bias)
    U, s, V = np.linalg.svd(B, full_matrices=False)
    k = int(np.sum(np.cumsum(s) / np.sum(s) < var)) if var else len(s)
    W = V[:k].T.dot(np.diag(1. / s[:k])).dot(U[:, :k].T).dot(Y)
    r = PCRRegression(variance=var, bias=bias)
    r.train(X, Y)
    same_predictions(g, r, W, bias, X, 'principal components (variance %s, bias %s, %d kept)' % (var, bias, k))
    need(np.array_equal(X, X0) and np.array_equal(Y, Y0), 'training data modified')


@case(PID, 'optimal subspace', 50)
def _(g):
    X, Y = data(g)
    X0, Y0 = X.copy(), Y.copy()
    bias = g.flag()
    B = aug(X, bias)
    var = g.choice([None, None, .7, .9, .99])
    if var is not None:
        l = np.sort(np.linalg.eigvalsh(B.T.dot(B)))[::-1]
        if np.sum(np.cumsum(l) / np.sum(l) < var) == 0:
            var = None
    r = OptimalLinearRegression(variance=var, bias=bias)
    r.train(X, Y)
    W = r.predict(np.eye(X.shape[1])) - r.predict(np.zeros((1, X.shape[1])))
    w0 = r.predict(np.zeros((1, X.shape[1])))
    full = np.vstack([W, w0]) if bias else W
    same_predictions(g, r, full, bias, X, 'optimal subspace')
    # reference
    w, v = np.linalg.eigh(B.T.dot(B) / len(B))
    o = np.argsort(w)[::-1]
    w, v = w[o], v[:, o].T
    k = len(w)
    if var is not None:
        k = int(np.sum(np.cumsum(w) / np.sum(w) < var))
    U = np.diag(w[:k] ** -.5).dot(v[:k])
    A = U.dot(B.T).dot(Y).dot(Y.T).dot(B).dot(U.T)
    w2, v2 = np.linalg.eigh(A.dot(A.T))
    o = np.argsort(w2)[::-1][:min(np.linalg.matrix_rank(A), k)]
    H = v2[:, o].T.dot(U)
    ref = H.T.dot(np.linalg.pinv(B.dot(H.T)).dot(Y))
    need_close(B.dot(full), B.dot(ref), 'optimal subspace predictor (variance %s bias %s)' % (var, bias), 1e-4)
    need(np.array_equal(X, X0) and np.array_equal(Y, Y0), 'training data modified')


@case(PID, 'orthogonal Procrustes', 50)
def _(g):
    d = g.int(2, 6)
    y = g.int(1, d)
    X, Y = g.normal(d + 6, d), g.normal(d + 6, y)
    X0, Y0 = X.copy(), Y.copy()
    bias = g.flag()
    B = aug(X, bias)
    r = OPPRegression(bias=bias)
    r.train(X, Y)
    U, s, V = np.linalg.svd(B.T.dot(Y), full_matrices=False)
    same_predictions(g, r, U.dot(V), bias, X, 'orthogonal Procrustes')
    r = OPPRegression(bias=bias, whiten=True)
    r.train(X, Y)
    w, v = np.linalg.eigh(B.T.dot(B) / len(B))
    C = B.dot(v).dot(np.diag(1. / w)).dot(v.T)
    U, s, V = np.linalg.svd(C.T.dot(Y), full_matrices=False)
    same_predictions(g, r, U.dot(V), bias, X, 'orthogonal Procrustes (whitened)')
    need(np.array_equal(X, X0) and np.array_equal(Y, Y0), 'training data modified')
