"""Contracts of what the fitting algorithms are given: transforms, results."""
from .common import *
from ..engine import ring, bridge


class TransformState(object):
    """a parametric shape: parameters p (4 similarity + k others) and the points they generate.

    Setting parameters gives new points, the function x(p) of the parameters alone (C09)."""
    __vtrusted__ = 'the transform of an algorithm: target generated by the parameters, as_vector reads them back (C09)'

    def __init__(self, n, np_, on_update=None, name='s'):
        self.n, self.np_, self.name = n, np_, name
        self.p = fresh(name + '.p0', axes_of(np_))
        self.x = fresh(name + '.x0', axes_of(n, 2))
        self.hook = on_update
        self.count = 0

    @property
    def n_parameters(self):
        return self.np_

    @property
    def n_dims(self):
        return 2

    @property
    def target(self):
        return SPointCloud(self.x, copy=True)

    def as_vector(self):
        r = self.p.copy()
        r.name = None
        return r

    def set_target(self, t):
        self.p = fresh(ctx().fresh(self.name + '.p'), axes_of(self.np_))
        self.x = fresh(ctx().fresh(self.name + '.x'), axes_of(self.n, 2))

    def _from_vector_inplace(self, v):
        if self.hook is not None:
            self.hook(self, v)
        self.p = fresh(ctx().fresh(self.name + '.p'), axes_of(self.np_))
        self.x = fresh(ctx().fresh(self.name + '.x'), axes_of(self.n, 2))


class Result(object):
    def __init__(self, *a, **k):
        self.args, self.kw = a, k
