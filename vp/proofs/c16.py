"""C16: every scale of a trained model uses its own components."""
from .common import *

PID = 'C16'


# ------------------------------------------------------------ handing over items
@unit(PID, 'batches', ['base.py batch'])
def batches(f=None):
    f = f or World().load('menpofit.base').batch
    L, n = sint('n_items', 0), sint('batch_size', 1)
    X = z3.Function('item', INT, V)
    out = as_vlist(f(slist('items', L, lambda i: Opq(X(i))), n))
    k, t, o = out.zlen(), z3.Int('t'), z3.Int('o')
    c = ctx()
    prove('enough batches for every item', k * n.t >= L.t)
    c.assume(z3.And(t >= 0, t < k))
    ch = as_vlist(out.at(t))
    left = L.t - n.t * t
    prove('a batch holds what is left, at most the asked size', ch.zlen() == z3.If(n.t < left, n.t, left))
    c.assume(z3.And(o >= 0, o < ch.zlen()))
    prove('item o of batch t is the next item', enc(ch.at(o)) == X(n.t * t + o))


class Progress(object):
    """contract of menpo.visualize.print_progress: yields the items of the iterable in order"""
    __vtrusted__ = 'menpo.visualize.print_progress: yields the items of the iterable, each once, in order'

    def __call__(self, iterable, prefix='', n_items=None, offset=0, **k):
        for x in k:
            if x not in ('show_bar', 'show_count', 'show_eta', 'end_with_newline', 'min_seconds'):
                raise TypeError(x)
        return iterable


TR = [Progress.__vtrusted__]


@unit(PID, 'progress', ['visualize/textutils.py print_progress'], TR)
def progress():
    w = World(stubs={'menpo.visualize': {'print_progress': Progress()}})
    f = w.load('menpofit.visualize.textutils').print_progress
    L = sint('n_items', 0)
    X = z3.Function('item', INT, V)
    verbose = sbool('verbose')
    kw = {}
    if ctx().branch(z3.Bool('settings')):
        kw = dict(prefix='a', n_items=L, offset=sint('offset', 0), show_bar=sbool('sb'), show_count=sbool('sc'),
                  show_eta=sbool('se'), end_with_newline=sbool('nl'))
    out = as_vlist(f(slist('items', L, lambda i: Opq(X(i))), verbose=verbose, **kw))
    i = z3.Int('i')
    prove('as many items', out.zlen() == L.t)
    ctx().assume(z3.And(i >= 0, i < L.t))
    prove('the items in order', enc(out.at(i)) == X(i))


# ------------------------------------------------------------ reconstructions
MA = z3.Function('AppearanceModel', INT, V)
SM = z3.Function('ShapeModel', INT, V)
INST = z3.Function('instance', V, V, BOOL, V)     # of a model, with weights, in standard deviations or not
PIX = z3.Function('pixels', V, V)


class Model(object):
    """a PCA model: its instances are a function of the model and the weights"""
    __vatomic__ = True
    __vtrusted__ = 'menpo PCAModel.instance: a function of the model and of the weights given'

    def __init__(self, t):
        self.t = t

    def __vsubst__(self, pairs):
        return Model(z3.substitute(self.t, *pairs))

    def __enc__(self):
        return self.t

    def instance(self, weights, normalized_weights=False):
        return Inst(INST(self.t, wenc(weights), zbool(normalized_weights)))


def wenc(w):
    if isinstance(w, VList):
        return app('weights', *w.items()).t if w.concrete() else enc(w)
    return enc(w)


class Inst(Opq):
    pixels = property(lambda s: Opq(PIX(s.t)))


def bases():
    B = ['aam', 'unified_aam_clm']
    return [('aam', 'AAM', False), ('aam', 'PatchAAM', True), ('unified_aam_clm', 'UnifiedAAMCLM', False)]


def anchors(mod, cls):
    return '%s/base.py %s' % (mod, cls)


def models(n, f=None):
    return slist('models', n, lambda i: Model((f or MA)(i)))


PKG = {'aam': ['AAM', 'MaskedAAM', 'LinearAAM', 'LinearMaskedAAM', 'PatchAAM'],
       'atm': ['ATM', 'MaskedATM', 'LinearATM', 'LinearMaskedATM', 'PatchATM'],
       'clm': ['CLM'], 'unified_aam_clm': ['UnifiedAAMCLM'], 'aps': ['GenerativeAPS']}


def world(mod, **stubs):
    """the module of a model; the other modules of menpofit through their contracts"""
    st = {'menpo.feature': {'ndfeature': lambda f: f, 'no_op': Feat(NOOP)},
          'menpo.visualize': {'print_progress': Progress(), 'print_dynamic': lambda *a, **k: None}}
    for k in ('checks', 'builder', 'modelinstance', 'transform', 'visualize', 'fitter', 'result', 'error'):
        st['menpofit.' + k] = {}
    for k in ('algorithm', 'algorithm.lk', 'fitter', 'expert', 'expert.ensemble', 'algorithm.gd', 'algorithm.gn', 'result'):
        st['menpofit.%s.%s' % (mod, k)] = {}
    for k in ('aam.algorithm.lk', 'clm.expert.ensemble', 'clm'):
        if mod != k:
            st['menpofit.' + k] = {}
    for k, v in stubs.items():
        k = k.replace('__', '.')
        st.setdefault(k, {}).update(v)
    w = World(stubs=st)
    return w.load('menpofit.%s.base' % mod)


NOOP = z3.Const('no_op', V)
FEAT = z3.Function('features', V, V, V)


class VOBJ(object):
    """an object known by one term"""
    __vatomic__ = True

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        return wrap(self.t == enc(o))

    def __ne__(self, o):
        return wrap(self.t != enc(o))

    __hash__ = object.__hash__

    def __visobj__(self, o):
        return self.t == o.t

    def __enc__(self):
        return self.t

    def __vsubst__(self, pairs):
        return type(self)(z3.substitute(self.t, *pairs))

    def __vite__(self, c, b):
        return type(self)(z3.If(c, self.t, b.t))


class Feat(VOBJ):
    """a holistic feature function"""


def reconstructions(mod, cls, patch):
    m = world(mod)
    C = getattr(m, cls)
    K = sint('n_run', 1)              # scales run
    n = sint('n_scales', 1)
    c = ctx()
    c.assume(K.t <= n.t)
    it = z3.Function('iterations', INT, INT)
    i = z3.Int('i')
    c.assume(z3.ForAll([i], it(i) >= 0))
    P = z3.Function('parameters', INT, INT, V)      # of the iterate o of scale j
    block = lambda j: VList(segs=[Seg(z3.simplify(it(j) + 1), lambda o: Opq(P(j, o)))])
    from ..engine.seq import Cat
    cat = Cat(K.t, block)
    self = object.__new__(C)
    self.appearance_models = models(n)
    out = as_vlist(self.appearance_reconstructions(VList(segs=[cat]), slist('its', K, lambda j: SInt(it(j)))))
    prove('one reconstruction per iterate', out.zlen() == cat.n)
    j, o = z3.Int('j'), z3.Int('o')
    c.assume(z3.And(j >= 0, j < K.t, o >= 0, o <= it(j)))
    r = out.at(z3.simplify(cat.off(j) + o))
    e = INST(MA(j), P(j, o), z3.BoolVal(False))
    prove('iterate o of scale j is reconstructed by the model of scale j', enc(r) == (PIX(e) if patch else e))


for _m, _c, _p in bases():
    def _u(_m=_m, _c=_c, _p=_p):
        reconstructions(_m, _c, _p)
    unit(PID, 'reconstructions of ' + _c, ['%s/base.py %s.appearance_reconstructions' % (_m, _c)],
         [Model.__vtrusted__], budget=60)(_u)


from . import c16train      # noqa: the units on training
