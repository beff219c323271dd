"""Mechanical extraction: the functions under verification are the functions of
/repo, parsed from the working tree on every run.  The only rewriting done:
  * list displays and single-generator list comprehensions / generator
    expressions build verifier lists (same elements, same order; generator
    expressions are evaluated eagerly),
  * a generator function whose yields are statements returns the list of what
    it yields (consumed in full, in order),
  * `for` and `while` statements get an induction head and tail,
  * `is` / `is not` / `not` go through a function (identity of symbolic values),
  * imports resolve to extracted menpofit modules or to contracts (stubs).
Dropped: docstrings (no effect), the laziness of generators,
floating point rounding, dtypes other than real / integer / boolean.
"""
import ast
import importlib.util
import itertools
import os
import sys
import types
from .core import Unsupported
from . import shim
from .loops import ForLoop, WhileLoop

REPO = os.environ.get('VP_REPO', '/repo')


def assigned(nodes):
    out = []

    class Vis(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in out:
                out.append(n.id)

        def visit_FunctionDef(self, n):
            if n.name not in out:
                out.append(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            for g in n.generators:
                self.visit(g.iter)
        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

        def visit_ExceptHandler(self, n):
            if n.name and n.name not in out:
                out.append(n.name)
            self.generic_visit(n)

        def visit_Import(self, n):
            for a in n.names:
                nm = (a.asname or a.name).split('.')[0]
                if nm not in out:
                    out.append(nm)
        visit_ImportFrom = visit_Import
    v = Vis()
    for n in nodes:
        v.visit(n)
    return out


def _call(f, *args):
    return ast.Call(ast.Name(f, ast.Load()), list(args), [])


YL = 'yielded_'


class Yields(ast.NodeTransformer):
    """yield statements append to a list; return ends it"""

    def __init__(self, fn):
        self.ok = not fn.decorator_list
        stmts = set()
        for q in ast.walk(fn):
            if isinstance(q, (ast.FunctionDef, ast.Lambda, ast.Try)) and q is not fn:
                self.ok = False
            if isinstance(q, ast.Expr) and isinstance(q.value, (ast.Yield, ast.YieldFrom)):
                stmts.add(id(q.value))
            if isinstance(q, ast.Return) and q.value is not None:
                self.ok = False
        self.ok = self.ok and all(id(q) in stmts for q in ast.walk(fn) if isinstance(q, (ast.Yield, ast.YieldFrom)))

    def visit_Expr(self, n):
        v = n.value
        if isinstance(v, (ast.Yield, ast.YieldFrom)):
            m = 'append' if isinstance(v, ast.Yield) else 'extend'
            return ast.Expr(ast.Call(ast.Attribute(ast.Name(YL, ast.Load()), m, ast.Load()),
                                     [v.value or ast.Constant(None)], []))
        return n

    def visit_Return(self, n):
        return ast.Return(ast.Name(YL, ast.Load()))


class Rewrite(ast.NodeTransformer):
    def __init__(self, fname):
        self.fname = fname
        self.n = 0
        self.fn = ['<module>']
        self.cnt = [0]
        self.infn = [False]
        self.isgen = [False]
        self.loads = []

    def _fresh(self, p):
        self.n += 1
        return '__vp_%s%d__' % (p, self.n)

    def visit_FunctionDef(self, n):
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.args = self.visit(n.args)
        self.fn.append(n.name)
        self.cnt.append(0)
        self.infn.append(True)
        gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(n))
        if gen:
            # a generator produces the list of what it yields
            y = Yields(n)
            if y.ok:
                n.body = [ast.Assign([ast.Name(YL, ast.Store())], ast.List([], ast.Load()))] + \
                    [y.visit(q) for q in n.body] + [ast.Return(ast.Name(YL, ast.Load()))]
                gen = False
        self.isgen.append(gen)
        self.loads.append(loads(n))
        # docstring
        if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) \
                and isinstance(n.body[0].value.value, str):
            n.body = n.body[1:] or [ast.Pass()]
        n.body = self._body(n.body)
        self.fn.pop()
        self.cnt.pop()
        self.infn.pop()
        self.isgen.pop()
        self.loads.pop()
        return n

    def _body(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    def visit_List(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            return ast.Call(ast.Name('__v_list__', ast.Load()), n.elts, [])
        return n

    def _comp(self, n):
        self.generic_visit(n)
        if len(n.generators) != 1 or n.generators[0].is_async:
            return n
        g = n.generators[0]

        def lam(e):
            inner = ast.ListComp(e, [ast.comprehension(g.target, ast.Tuple([ast.Name('__vt', ast.Load())], ast.Load()),
                                                       [], 0)])
            return ast.Lambda(ast.arguments([], [ast.arg('__vt')], None, [], [], None, []),
                              ast.Subscript(inner, ast.Constant(0), ast.Load()))
        return _call('__v_comp__', g.iter, lam(n.elt), *[lam(c) for c in g.ifs])

    def visit_ListComp(self, n):
        return self._comp(n)

    def visit_GeneratorExp(self, n):
        return self._comp(n)

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot)):
            return _call('__v_is__' if isinstance(n.ops[0], ast.Is) else '__v_isnot__', n.left, n.comparators[0])
        return n

    def _kept(self, n, names):
        """names whose value may be read in a later iteration or after the loop"""
        inside = loads(n)
        out = {x for x, k in self.loads[-1].items() if k > inside.get(x, 0)} if self.loads else set(names)
        return [x for x in names if x in out or x in carried(n)]

    def visit_For(self, n):
        names = [x for x in assigned([n.target] + n.body)]
        kept = self._kept(n, names)
        key = '%s:%s:for%d' % (self.fname, self.fn[-1], self.cnt[-1])
        self.cnt[-1] += 1
        n.iter = self.visit(n.iter)
        n.target = self.visit(n.target)
        n.body = self._body(n.body)
        n.orelse = self._body(n.orelse)
        if not self.infn[-1] or self.isgen[-1] or n.orelse:
            return n
        L = self._fresh('L')
        pre = ast.Assign([ast.Name(L, ast.Store())],
                         _call('__v_for__', n.iter, ast.Constant(key),
                               ast.Tuple([ast.Constant(x) for x in names], ast.Load()),
                               ast.Tuple([ast.Constant(x) for x in kept], ast.Load())))
        head = ast.If(ast.Attribute(ast.Name(L, ast.Load()), 'sym', ast.Load()),
                      [_heads(L, names)], [])
        loop = ast.For(n.target, ast.Name(L, ast.Load()),
                       n.body + [ast.If(ast.Attribute(ast.Name(L, ast.Load()), 'sym', ast.Load()),
                                        [_meth(L, 'tail')], [])], [])
        return [pre, head, loop]

    def visit_While(self, n):
        names = assigned(n.body)
        key = '%s:%s:while%d' % (self.fname, self.fn[-1], self.cnt[-1])
        self.cnt[-1] += 1
        n.test = self.visit(n.test)
        n.body = self._body(n.body)
        if not self.infn[-1] or self.isgen[-1] or n.orelse:
            return n
        W = self._fresh('W')
        pre = ast.Assign([ast.Name(W, ast.Store())],
                         _call('__v_while__', ast.Constant(key),
                               ast.Tuple([ast.Constant(x) for x in names], ast.Load())))
        brk = ast.If(_call('__v_not__', n.test), [ast.Break()], [])
        loop = ast.While(ast.Call(ast.Attribute(ast.Name(W, ast.Load()), 'go', ast.Load()), [], []),
                         [brk] + n.body + [_meth(W, 'tail')], [])
        return [pre, _heads(W, names), loop]


def loads(n):
    out = {}
    for q in ast.walk(n):
        if isinstance(q, ast.Name) and isinstance(q.ctx, ast.Load):
            out[q.id] = out.get(q.id, 0) + 1
        elif isinstance(q, ast.AugAssign) and isinstance(q.target, ast.Name):
            out[q.target.id] = out.get(q.target.id, 0) + 1
    return out


def carried(loop):
    """names the body of a loop may read before it assigned them in the same iteration"""
    out = set()

    def read(e, D):
        if e is not None:
            out.update(x for x in loads(e) if x not in D)

    def store(t, D):
        if isinstance(t, ast.Name):
            D.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for q in t.elts:
                store(q, D)
        elif isinstance(t, ast.Starred):
            store(t.value, D)
        else:
            read(t, D)

    def block(stmts, D):
        for q in stmts:
            if isinstance(q, ast.Assign):
                read(q.value, D)
                for t in q.targets:
                    store(t, D)
            elif isinstance(q, ast.AugAssign):
                read(q, D)
                store(q.target, D)
            elif isinstance(q, ast.If):
                read(q.test, D)
                A, B = set(D), set(D)
                block(q.body, A)
                block(q.orelse, B)
                D.update(A & B)
            elif isinstance(q, ast.For):
                read(q.iter, D)
                A = set(D)
                store(q.target, A)
                block(q.body, A)
                block(q.orelse, set(D))
            elif isinstance(q, (ast.Expr, ast.Return, ast.Raise, ast.Assert, ast.Pass, ast.Continue, ast.Break)):
                read(q, D)
            else:
                read(q, D)      # anything else: whatever it mentions

    D = set()
    store(loop.target, D)
    block(loop.body, D)
    return out


def _meth(o, m):
    return ast.Expr(ast.Call(ast.Attribute(ast.Name(o, ast.Load()), m, ast.Load()), [_call('__v_locals__')], []))


def _heads(o, names):
    call = ast.Call(ast.Attribute(ast.Name(o, ast.Load()), 'head', ast.Load()), [_call('__v_locals__')], [])
    if not names:
        return ast.Expr(call)
    return ast.Assign([ast.Tuple([ast.Name(x, ast.Store()) for x in names], ast.Store())], call)


class Missing(type):
    def __call__(cls, *a, **k):
        if cls.__dict__.get('_missing_'):
            raise Unsupported('no contract for %s' % cls.__name__)
        return type.__call__(cls, *a, **k)

    def __getattr__(cls, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise Unsupported('no contract for %s.%s' % (cls.__name__, k))


def missing(name):
    return Missing(str(name), (object,), {'_missing_': True})


class Stub(types.ModuleType):
    def __init__(self, name, **kw):
        types.ModuleType.__init__(self, name)
        self.__dict__.update(kw)
        self.__path__ = []

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        m = missing('%s.%s' % (self.__name__, k))
        setattr(self, k, m)
        return m


PASS = {'functools', 'itertools', 'collections', 'collections.abc', 'abc', 'warnings', '__future__', 'copy',
        'numbers', 'types', 'operator', 'os', 'os.path', 'sys', 'time', 'pathlib', 'string', 're', 'random'}

_CODE = {}


class World(object):
    """a fresh set of extracted modules over the given contracts.
    stubs: module name -> dict of names (contracts); replace: {module: {name: obj}}
    installed in an extracted module after loading (a callee's contract)."""

    def __init__(self, stubs=None, replace=None, deps=()):
        self.mods = {}
        self.deps = set(deps)
        self.bare = set()
        self.np = shim.NpShim()
        self.stubs = {}
        for k, v in (stubs or {}).items():
            self.stubs[k] = Stub(k, **v)
        if 'itertools' not in self.stubs:
            self.stubs['itertools'] = Stub('itertools', **dict({k: v for k, v in vars(itertools).items() if k[:2] != '__'},
                                                               islice=shim.v_islice))
        self.replace = replace or {}
        self.functions = set()

    def stub(self, name):
        if name not in self.stubs:
            self.stubs[name] = Stub(name)
        return self.stubs[name]

    def path(self, name):
        if name in self.deps:
            # a dependency verified along: its installed source, extracted in the same way
            p = os.path.join(os.path.dirname(importlib.util.find_spec(name.split('.')[0]).origin), *name.split('.')[1:])
            return (os.path.join(p, '__init__.py'), True) if os.path.isdir(p) else (p + '.py', False)
        p = os.path.join(REPO, *name.split('.'))
        if os.path.isdir(p):
            return os.path.join(p, '__init__.py'), True
        return p + '.py', False

    def load(self, name, bare=False):
        if name in self.mods and not (name in self.bare and not bare):
            return self.mods[name]
        parent = name.rpartition('.')[0] if name not in self.deps else None
        if parent and parent not in self.mods:
            before = dict(self.mods)
            try:
                self.load(parent)
            except Unsupported:
                # the package imports something without a contract: take the module alone
                self.mods = before
                self.load(parent, bare=True)
            if name in self.mods:
                return self.mods[name]
        path, ispkg = self.path(name)
        if not os.path.exists(path):
            raise ImportError(name)
        m = self.mods.get(name) or types.ModuleType(name)
        self.bare.discard(name)
        m.__file__ = path
        m.__package__ = name if ispkg else name.rpartition('.')[0]
        if ispkg:
            m.__path__ = [os.path.dirname(path)]
        self.mods[name] = m
        b = dict(shim.BUILTINS)
        b['__import__'] = self._import
        b['__v_for__'] = ForLoop
        b['__v_while__'] = WhileLoop
        b['__v_locals__'] = _locals
        m.__dict__['__builtins__'] = b
        if name == 'menpofit':
            return m
        if bare:
            self.bare.add(name)
            return m
        if name not in _CODE:
            src = open(path).read()
            tree = ast.parse(src, path)
            tree = Rewrite(name).visit(tree)
            ast.fix_missing_locations(tree)
            _CODE[name] = compile(tree, path, 'exec')
        exec(_CODE[name], m.__dict__)
        for k, v in self.replace.get(name, {}).items():
            m.__dict__[k] = v
        if parent:
            setattr(self.mods[parent], name.rpartition('.')[2], m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__package__']
            for _ in range(level - 1):
                pkg = pkg.rpartition('.')[0]
            name = pkg + ('.' + name if name else '')
        top = name.split('.')[0]
        if name in self.deps and name not in self.stubs:
            return self.load(name)
        if top == 'menpofit':
            if name in self.stubs:
                return self._from(self.stubs[name], name, fromlist)
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f):
                        sub = name + '.' + f
                        if sub in self.stubs:
                            setattr(m, f, self.stubs[sub])
                        else:
                            p, _ = self.path(sub)
                            if os.path.exists(p):
                                setattr(m, f, self.load(sub))
                            elif name == 'menpofit':
                                raise ImportError(f)
                return m
            return self.load(top)
        if top == 'numpy':
            if name == 'numpy':
                return self.np
            return self.stub(name) if fromlist else self.np
        if name == 'itertools':
            return self.stubs[name]
        if name in PASS or top in PASS:
            return __import__(name, globals, locals, fromlist, 0)
        if name == 'math':
            import math
            return Stub('math', **dict({k: v for k, v in vars(math).items()}, ceil=shim.v_ceil,
                                       sqrt=shim.np_sqrt, floor=lambda x: shim.v_int(self.np.floor(x))))
        if name not in self.stubs and importlib.util.find_spec(top) is None:
            raise ImportError(name)
        s = self.stub(name)
        if fromlist:
            return s
        # import a.b.c -> a, with attributes
        t = self.stub(top)
        cur, full = t, top
        for part in name.split('.')[1:]:
            full += '.' + part
            nx = self.stub(full)
            setattr(cur, part, nx)
            cur = nx
        return t

    def _from(self, s, name, fromlist):
        if fromlist:
            return s
        return self.load(name.split('.')[0])


def _locals():
    return dict(sys._getframe(1).f_locals)
