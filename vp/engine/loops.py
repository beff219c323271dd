"""Loops over symbolic ranges and while loops: proof by induction.

At the head of a loop every location (local variable, attribute reachable from
the locals, list, array box, tensor) the body changes is replaced by an
arbitrary value constrained by the loop invariant; the body is verified once
and must re-establish the invariant; the code after the loop continues from an
arbitrary state satisfying invariant and exit condition.  Invariants are
conjunctions of candidate templates, filtered Houdini style:
  affine     integer location  = v0 + c * t           (t: iterations done)
  bound      affine location  <= max(bound, v0)
  listlen    list = initial elements ++ c * t elements, append only
  byindex    the element appended in iteration j is a function of j alone
  lockstep   L[i] = T(M[i]) for two lists grown in step
  last       location = T(last element of M)
  acc        real location = v0 + sum of the increments
  iacc       integer location = v0 + sum of the increments
  rows       tensor rows e0 .. e0+t-1 written, function of the index
None of them mentions a program name, so renaming or reordering keeps them.
"""
from .core import (z3, V, INT, REAL, BOOL, ctx, Unsupported, PathEnd, Restart, SInt, SReal, SBool, SBase,
                   wrap, zint, zreal, zbool, _isnum)
from . import core
from .seq import VList, VTuple, Seg, Cat, isum, VRange, as_vlist, tidy, ite as vite
from .opq import Opq, enc
from . import prove as PV
import numpy as _np


def deft(v):
    """the name given to a computed value by a contract, if any"""
    d = v.__dict__.get('_deft') if type(v).__name__ in ('Mat', 'STensor', 'Jac') else None
    return v if d is None or d[0] != v.version() else d[1]


def _eqv(a, b, c):
    try:
        g = equal_values(a, deft(b))
    except (Unsupported, AttributeError, TypeError):
        return False
    return PV.check(c.pc + c.axioms, g, timeout=3000)[0] == 'proved'


def closed_value(v, loop, d=0):
    """v mentions nothing that belongs to one iteration except its number"""
    from .tensor import STensor
    if d > 4 or isinstance(v, Poison):
        return False
    if isinstance(v, (SBase, Opq)):
        return loop._closed(v.t)
    if isinstance(v, z3.ExprRef):
        return loop._closed(v)
    if isinstance(v, STensor):
        ph = [tuple(z3.Int('clo_%d_%d' % (k, q)) for q in range(len(a))) for k, a in enumerate(v.axes)]
        return all(loop._closed(f) for a in v.axes for f in a if z3.is_expr(f)) and loop._closed(zreal(wrap(v.at(ph)))
            if v.kind != 'b' else v.at(ph))
    if v is None or isinstance(v, (int, float, str, bool, _np.generic, type)):
        return not (isinstance(v, float) and (v != v))
    if isinstance(v, VList):
        if v.concrete():
            return all(closed_value(x, loop, d + 1) for x in v.items())
        if not loop._closed(v.zlen(), True):
            return False
        i = z3.Int('clo_e%d' % d)
        return all(all(closed_value(x, loop, d + 1) for x in q) if isinstance(q, list) else
                   (not isinstance(q, Cat) and closed_value(q.f(i), loop, d + 1)) for q in v.segs)
    if isinstance(v, (tuple, list)):
        return all(closed_value(x, loop, d + 1) for x in v)
    if isinstance(v, dict):
        return all(closed_value(x, loop, d + 1) for x in v.values())
    if hasattr(v, '__enc__') and hasattr(v, '__vsubst__'):
        try:
            return loop._closed(enc(v), True)
        except Unsupported:
            return False
    if getattr(type(v), '__vatomic__', False) or isinstance(v, VList) or callable(v):
        return False
    if hasattr(v, '__veq__') and hasattr(v, '__dict__'):
        return all(closed_value(x, loop, d + 1) for k, x in v.__dict__.items() if k not in getattr(v, '__vframe__', ()))
    return False


class Poison(object):
    def __getattr__(self, k):
        raise Unsupported('use of a value undefined after a symbolic loop')

    def _bad(self, *a, **k):
        raise Unsupported('use of a value undefined after a symbolic loop')
    for _n in ('add radd sub rsub mul rmul truediv rtruediv lt le gt ge eq ne bool len iter getitem setitem call '
               'neg abs index int iadd').split():
        locals()['__%s__' % _n] = _bad
    __hash__ = object.__hash__


def subst(v, pairs):
    """substitute z3 constants inside a value structure"""
    if not pairs:
        return v
    if isinstance(v, SBase):
        return wrap(z3.substitute(v.t, *pairs))
    if isinstance(v, Opq):
        return Opq(z3.substitute(v.t, *pairs))
    if isinstance(v, tuple):
        return tuple(subst(x, pairs) for x in v)
    if isinstance(v, list):
        return [subst(x, pairs) for x in v]
    if isinstance(v, VList):
        segs = []
        for s in v.segs:
            if isinstance(s, list):
                segs.append([subst(x, pairs) for x in s])
            else:
                segs.append(Seg(z3.substitute(s.n, *pairs), (lambda i, s=s: subst_at(s.f, i, pairs))))
        r = type(v)(segs=segs)
        return r
    if hasattr(v, '__vsubst__'):
        return v.__vsubst__(pairs)
    if v is None or isinstance(v, (int, float, str, bool, _np.generic, _np.ndarray, type)):
        return v
    if isinstance(v, dict):
        return {k: subst(x, pairs) for k, x in v.items()}
    if callable(v) and not hasattr(v, '__dict__'):
        return v
    if hasattr(v, '__dict__') and not isinstance(v, type):
        if not any(_mentions(x, pairs, 0) for x in v.__dict__.values()):
            return v
        import copy
        r = object.__new__(type(v))
        r.__dict__.update({k: subst(x, pairs) for k, x in v.__dict__.items()})
        return r
    return v


def _mentions(v, pairs, d):
    if d > 4:
        return True
    from .sums import contains
    ids = {a.get_id() for a, _ in pairs}
    if isinstance(v, SBase):
        return contains(v.t, ids)
    if isinstance(v, Opq):
        return contains(v.t, ids)
    if isinstance(v, (tuple, list)):
        return any(_mentions(x, pairs, d + 1) for x in v)
    if isinstance(v, (VList,)) or hasattr(v, '__vsubst__'):
        return True
    if hasattr(v, '__dict__') and not isinstance(v, type) and not callable(v):
        return any(_mentions(x, pairs, d + 1) for x in v.__dict__.values())
    return False


def subst_at(f, i, pairs):
    # evaluate at a placeholder first so that i itself is not substituted
    ph = z3.Int('ph!%d' % i.get_id())
    v = f(ph)
    v = subst(v, pairs)
    return subst(v, [(ph, i)])


# ------------------------------------------------------------ entities
def walk(roots, depth=5):
    """map access path -> (value, owner, key) of everything reachable"""
    out = {}
    seen = set()

    def rec(path, v, owner, key, d):
        out[path] = (v, owner, key)
        if isinstance(v, (SBase, Opq, VList, Poison, z3.AstRef)) or v is None or isinstance(v, (str, int, float, type)):
            return
        if id(v) in seen or d <= 0:
            return
        if getattr(v, '__vatomic__', False) or getattr(v, '__vleaf__', False) or type(v).__name__ in ('STensor', 'CTensor'):
            return
        seen.add(id(v))
        if isinstance(v, dict):
            for k in list(v):
                rec('%s[%r]' % (path, k), v[k], v, k, d - 1)
        elif isinstance(v, (tuple, list)):
            for j, x in enumerate(v):
                rec('%s[%d]' % (path, j), x, None, None, d - 1)
        elif hasattr(v, '__dict__') and not callable(v) or hasattr(v, '__vstate__'):
            for k in sorted(vars(v)):
                rec('%s.%s' % (path, k), vars(v)[k], v, k, d - 1)
    for n in sorted(roots):
        if n.startswith('__'):
            continue
        rec(n, roots[n], None, n, depth)
    return out


def snap(v):
    """immutable snapshot of the abstract value"""
    from .tensor import STensor
    if isinstance(v, Opq):
        return ('opq', v.t)
    if isinstance(v, SBase):
        return ('num', v.t)
    if _isnum(v):
        return ('const', v)
    if isinstance(v, VList):
        return ('list', tuple(tuple(s) if isinstance(s, list) else s for s in v.segs), v)
    if isinstance(v, STensor) or hasattr(type(v), '__vparts__') or type(v).__name__ == 'Mat':
        return ('tens', v.version(), v)
    if isinstance(v, z3.ExprRef):
        return ('opq', v)
    return ('id', v)


def changed(a, b):
    if a[0] != b[0]:
        if {a[0], b[0]} == {'num', 'const'}:
            return True
        return True
    if a[0] in ('opq', 'num'):
        return not a[1].eq(b[1])
    if a[0] == 'const':
        return not (type(a[1]) == type(b[1]) and (a[1] == b[1]))
    if a[0] == 'list':
        return not _same_segs(a[1], b[1])
    if a[0] == 'tens':
        return not (a[1] == b[1] and a[2] is b[2])
    return a[1] is not b[1]


def _same_segs(x, y):
    if len(x) != len(y):
        return False
    for p, q in zip(x, y):
        if isinstance(p, tuple) != isinstance(q, tuple):
            return False
        if isinstance(p, tuple):
            if len(p) != len(q) or any(changed(snap(u), snap(w)) for u, w in zip(p, q)):
                return False
        elif p is not q:
            return False
    return True


def _flat_items(segs):
    return [x for s in segs for x in (s if isinstance(s, tuple) else [s])]


class Loop(object):
    def __init__(self, loc, seq=None, names=()):
        c = ctx()
        self.c = c
        self.names = names
        n = c.counter.get('loop@' + loc, 0)
        c.counter['loop@' + loc] = n + 1
        self.key = '%s#%d' % (loc, n)
        self.seq = seq
        self.T = z3.Int('t@' + self.key)
        self.n = seq.zlen() if seq is not None else None
        self.phase = None
        self.outer = list(c.open)

    # ---- head: returns new values for the assigned names
    def head(self, loc):
        c = self.c
        roots = {k: v for k, v in loc.items() if not k.startswith('__')}
        roots.update(self.c.heaps)
        sig = tuple(sorted((k, type(v).__name__) for k, v in roots.items() if v is None or isinstance(v, VList)))
        kn = self.know = c.knowledge.setdefault((self.key, sig), {'pass': 1, 'dropped': set()})
        self.ent = walk(roots)
        self.snap0 = {p: snap(v[0]) for p, v in self.ent.items()}
        self.sets = {p: len(v[0]._sets) for p, v in self.ent.items() if isinstance(v[0], VList)}
        self.snap_parts = {p: [t.copy() for t in _parts(v[0])] for p, v in self.ent.items()
                           if _parts(v[0]) is not None}
        self.roots = roots
        newvals = dict(roots)
        if kn['pass'] == 1:
            self.phase = 'probe'
            if self.seq is not None:
                c.assume(self.T >= 0)
            return tuple(newvals.get(x, POISON) for x in self.names)
        self.phase = 'prove'
        c.assume(self.T >= 0)
        if self.n is not None:
            c.assume(self.T <= self.n)
        T = self.T
        self.blocks = {}
        self.lists = {}
        self.late_in = []
        self.cands = []          # (id, check(tail getter) -> formula or None)
        cur = {}                 # path -> havocked value
        lists = {}
        for p in sorted(kn['changed']):
            if p not in self.ent:
                continue
            v, owner, key = self.ent[p]
            kind = kn['changed'][p]
            cur[p] = self._havoc(p, v, kind, lists)
        self._relations(cur, lists)
        # install
        for p, nv in cur.items():
            v, owner, key = self.ent[p]
            if kn['changed'][p].get('inplace'):
                if isinstance(v, Opq):
                    v._set(nv.t)
                elif isinstance(v, VList):
                    v.segs = nv.segs
                elif hasattr(v, '_assign_from'):
                    v._assign_from(nv)
                continue
            if owner is None:
                if '.' in p or '[' in p:
                    raise Unsupported('cannot havoc ' + p)
                newvals[key] = nv
            elif isinstance(owner, dict):
                owner[key] = nv
            else:
                object.__setattr__(owner, key, nv)
        self.cur = cur
        self._late_names(newvals)
        return tuple(newvals.get(x, POISON) for x in self.names)

    # ---- a location that is a function of the number of the iteration that set it last
    def _late_names(self, newvals):
        kn, T = self.know, self.T
        if self.n is None:
            return
        todo = [(x, v) for x, v in sorted(kn.get('late', {}).items())
                if x not in newvals and ('late', x) not in kn['dropped']]
        if not todo or self.c.branch(T == 0):
            return
        for x, v in todo:
            newvals[x] = subst(v, [(T, z3.simplify(T - 1))])
            self.late_in.append(x)

    def _closed_enc(self, v):
        if isinstance(v, Poison):
            return None
        if isinstance(v, (Opq, SBase)) or (hasattr(v, '__enc__') and hasattr(v, '__vsubst__')):
            try:
                e = enc(v)
            except Unsupported:
                return None
            return e if self._closed(e) and ('@' + self.key) not in e.sexpr().replace(self.T.sexpr(), '') else None
        return None

    def _try_template(self, p, v):
        """is v a new candidate for the value of p as a function of the iteration"""
        e = self._closed_enc(v)
        if e is None:
            return False
        tried = self.know.setdefault('tried', {}).setdefault(p, [])
        k = z3.simplify(e).sexpr()
        if k in tried or len(tried) >= 5:
            return False
        tried.append(k)
        return True

    def _relearn(self, cid, post):
        kind, p = cid
        kd = self.know['changed'].get(p)
        try:
            v = self._last_of(post(p)) if kind == 'byindex' else post(p)
        except Unsupported:
            return False
        if kd is None or v is None or isinstance(v, (SInt, int)):
            return False
        if not isinstance(v, Opq):
            return self._relearn_value(cid, kd, v)
        if not self._try_template(p, v):
            return False
        kd['tmpl'] = v if kind == 'byindex' else Opq(v.t)
        return True

    def _relearn_set(self, cid, post):
        p, tried = cid[1], self.know.setdefault('tried_value', {})
        L = post(p)
        if tried.get(cid, 0) >= 3 or not L._sets:
            return False
        k, x = L._sets[-1]
        if not self.c.must(k == self.T) or not closed_value(x, self):
            return False
        tried[cid] = tried.get(cid, 0) + 1
        self.know['changed'][p]['tmpl'] = x
        return True

    def _relearn_block(self, cid, post):
        p, tried = cid[1], self.know.setdefault('tried_value', {})
        if tried.get(cid, 0) >= 3:
            return False
        try:
            d = _added(self.snap_head[p][1], post(p))
        except Unsupported:
            return False
        if not closed_value(d, self):
            return False
        tried[cid] = tried.get(cid, 0) + 1
        self.know['changed'][p]['delta'] = d
        return True

    def _relearn_value(self, cid, kd, v):
        v = deft(v)
        tried = self.know.setdefault('tried_value', {})
        if tried.get(cid, 0) >= 4 or not closed_value(v, self):
            return False
        tried[cid] = tried.get(cid, 0) + 1
        kd['tmpl' if cid[0] == 'byindex' else 'val'] = v.copy() if hasattr(v, 'fresh_like') else v
        return True

    def _try_late(self, x, v):
        if not isinstance(v, VList):
            return self._try_template(x, v)
        tried = self.know.setdefault('tried_late', {})
        if tried.get(x, 0) >= 4 or not closed_value(v, self):
            return False
        tried[x] = tried.get(x, 0) + 1
        return True

    def _learn_late(self, loc):
        if self.n is None:
            return False
        kn, new = self.know, False
        for x in self.kept:
            if x in self.roots or x.startswith('__') or ('late', x) in kn['dropped'] or x not in loc:
                continue
            v = loc[x]
            old = kn.setdefault('late', {}).get(x)
            if old is None:
                if self._try_late(x, v):
                    kn['late'][x] = v
                    new = True
                continue
            if self.phase != 'prove':
                continue
            try:
                ok = PV.check(self.c.pc + self.c.axioms, equal_values(v, old), timeout=4000)[0] == 'proved'
            except (Unsupported, AttributeError, TypeError):
                ok = False
            if not ok:
                if self._try_late(x, v):
                    kn['late'][x] = v
                else:
                    kn['dropped'].add(('late', x))
                new = True
        return new

    def _fresh(self, p, sort):
        return z3.Const('%s@%s' % (p, self.key), sort)

    def _byval(self, p, v, kind):
        """the value is a function of the number of iterations done (while loops)"""
        kn, T, tm = self.know, self.T, kind['val']
        cid = ('byval', p)
        if cid in kn['dropped']:
            return None
        base = _eqv(subst(tm, [(T, z3.IntVal(-1))]), v, self.c)
        nv = subst(tm, [(T, z3.simplify(T - 1))])
        cnt = getattr(type(v), '__vcount__', None)
        if cnt is not None and type(nv) is type(v):
            nv = v.at_count(getattr(nv, cnt))       # of the objects of this run
        if not base and self.c.branch(T == 0):
            nv = v
        self.cands.append((cid, lambda post, tm=tm: equal_values(deft(post(p)), tm)))
        return nv

    def _havoc(self, p, v, kind, lists):
        kn, T = self.know, self.T
        from .tensor import STensor
        if kind.get('val') is not None:
            nv = self._byval(p, v, kind)
            if nv is not None:
                return nv
        if kind['kind'] == 'lset':
            # element j written in iteration j, a function of j alone
            cid = ('lset', p)
            if cid in kn['dropped']:
                raise Unsupported('elements of list %s written irregularly in a loop' % p)
            old = VList(segs=list(v.segs))

            def after(t, tm=kind['tmpl'], old=old):
                return [Seg(old.zlen(), lambda i: vite(i < t, subst(tm, [(T, i)]), old.at(i)))]
            nl = VList.__new__(type(v))
            nl.uid = -2
            nl.segs = after(T)
            nxt = VList(segs=after(z3.simplify(T + 1)))
            self.cands.append((cid, lambda post, nxt=nxt: equal_values(post(p), nxt)))
            return nl
        if kind['kind'] == 'list':
            segs = list(v.segs)
            d = kind['delta']
            cid = ('listlen', p)
            if cid in kn['dropped'] or d is None:
                raise Unsupported('list %s changed irregularly in a loop' % p)
            if isinstance(d, VList):
                bcid = ('block', p)
                if bcid in kn['dropped'] or self.n is None:
                    raise Unsupported('list %s extended irregularly in a loop' % p)
                nl = VList.__new__(type(v))
                nl.uid = -2
                cat = Cat(T, lambda j, d=d: subst(d, [(T, j)]))
                nl.segs = [s for s in segs if not (isinstance(s, list) and not s)] + [cat]
                self.blocks[p] = cat
                self.cands.append((bcid, lambda post, p=p, d=d, nl=nl:
                                   equal_values(_added(nl.segs, post(p)), d)))
                return nl
            if d == 0:
                return VList(segs=segs)
            F = z3.Function('F:%s@%s' % (p, self.key), INT,
                            {'opq': V, 'int': INT}.get(kind['elem'], REAL))
            info = dict(p=p, F=F, delta=d, elem=kind['elem'], tmpl=kind.get('tmpl'), first=kind.get('first'),
                        base=v.zlen(), fn=None)
            lists[p] = info
            seg = Seg(z3.simplify(d * T), None)
            info['seg'] = seg
            nl = VList.__new__(VList)
            nl.uid = -2
            nl.segs = [s for s in segs if not (isinstance(s, list) and not s)] + [seg]
            info['list'] = nl
            info['prefix'] = segs
            return nl
        if kind['kind'] == 'int':
            cid = ('affine', p)
            c_ = kind.get('delta')
            if c_ is not None and cid not in kn['dropped']:
                val = wrap(zint(v) + c_ * T)
                self.cands.append((cid, lambda post, val=val, c_=c_: zint(post(p)) == zint(val) + c_))
                if isinstance(c_, int) and c_ == 1:
                    for q, (w, ow, ke) in sorted(self.ent.items()):
                        if isinstance(w, SInt) and q not in kn['changed'] and q.count('.') + p.count('.') < 2:
                            cid2 = ('bound', p, q)
                            if cid2 in kn['dropped']:
                                continue
                            m = z3.If(w.t >= zint(v), w.t, zint(v))
                            self.c.assume(zint(val) <= m)
                            self.cands.append((cid2, lambda post, m=m: zint(post(p)) <= m))
                return val
            inc, cid = kind.get('inc'), ('iacc', p)
            if inc is not None and self.n is not None and cid not in kn['dropped']:
                # a location increased by an amount that depends on the iteration
                val = wrap(zint(v) + isum(T, lambda j, inc=inc: z3.substitute(inc, (T, j))))
                nxt = wrap(zint(v) + isum(z3.simplify(T + 1), lambda j, inc=inc: z3.substitute(inc, (T, j))))
                self.c.assume(zint(nxt) == zint(val) + inc)
                self.cands.append((cid, lambda post, nxt=nxt: zint(post(p)) == zint(nxt)))
                return val
            r = SInt(self._fresh(p, INT))
            self.c.assume(z3.Implies(T == 0, r.t == zint(v)))
            return r
        if kind['kind'] == 'real':
            cid = ('acc', p)
            inc = kind.get('inc')
            if inc is not None and self.n is not None and cid not in kn['dropped'] and _isnum_finite(v):
                from .sums import mk_sum
                val = SReal(z3.simplify(zreal(v) + mk_sum(T, lambda j: z3.substitute(inc, (T, j)))))
                self.cands.append((cid, lambda post, val=val, inc=inc: zreal(post(p)) == val.t + inc))
                return val
            return SReal(self._fresh(p, REAL))
        if kind['kind'] == 'bool':
            r = SBool(self._fresh(p, BOOL))
            self.c.assume(z3.Implies(T == 0, r.t == zbool(v)))
            return r
        if kind['kind'] == 'opq':
            r = Opq(self._fresh(p, V))
            tm, cid = kind.get('tmpl'), ('byloc', p)
            if tm is not None and self.n is not None and cid not in kn['dropped'] and self._closed_enc(tm) is not None:
                n = self.n
                self.c.assume(z3.And(z3.Implies(T == 0, r.t == enc(v)), z3.Implies(z3.And(T > 0, T < n),
                              r.t == z3.substitute(tm.t, (T, z3.simplify(T - 1))))))
                self.cands.append((cid, lambda post, tm=tm.t, n=n: z3.Implies(T + 1 < n, enc(post(p)) == tm)))
            return r
        if kind['kind'] == 'tens':
            return self._havoc_tensor(p, v, kind)
        if kind['kind'] == 'tacc':
            cid = ('tacc', p)
            if cid in kn['dropped'] or self.n is None:
                self.c.loose = True
                return v.fresh_like('%s@%s' % (p, self.key)) if hasattr(v, 'fresh_like') else POISON
            parts = [_accumulated(_part(v, k, len(kind['inc'])), t, T, self.T)
                     for k, t in enumerate(kind['inc'])]
            nv = kind['like'].__vbuild__(parts) if hasattr(kind['like'], '__vbuild__') else parts[0]
            if _isnum(v) or isinstance(v, SBase):
                self.nonempty = True
            incs = kind['inc']

            def goal(post, p=p, parts=parts, incs=incs):
                from .tensor import tensor_eq, as_tensor
                w = post(p)
                return z3.And(*[tensor_eq(a, as_tensor(b + t)) for a, b, t in zip(_parts(w), parts, incs)])
            self.cands.append((cid, goal))
            return nv
        return POISON

    def _havoc_tensor(self, p, v, kind):
        kn, T = self.know, self.T
        cid = ('rows', p)
        w = kind.get('rows')
        if w is None or cid in kn['dropped']:
            if v is None or not hasattr(v, 'fresh_like'):
                return POISON
            self.c.loose = True
            return v.fresh_like('%s@%s' % (p, self.key))
        if len(kind['axis']) > len(v.axes[0]) == 1 and v.base is None:
            v._refactor(0, kind['axis'])
        nv = v.with_rows(w, T)
        if getattr(self, 'rowinfo', None) is None:
            self.rowinfo = {}
        self.rowinfo[p] = (v if kind.get('inplace') else nv, w, list(v._log), v._v, v.axes[0])
        return nv

    def _row_blocks(self):
        """after the loop: rows written one by one make one write of their common prefix"""
        for p, (t, w, log, before, ax) in (getattr(self, 'rowinfo', None) or {}).items():
            prefix, e0, rowf = w
            k = len(prefix)
            t._log = []
            if len(ax) == k + 1 and prefix and t.base is None and self.c.must(z3.And(e0 == 0, self.n == (
                    ax[k] if z3.is_expr(ax[k]) else z3.IntVal(ax[k])))):
                t._log = log if t is self.ent[p][0] else []
                t.log_row(prefix, lambda more, rest, f=rowf: f(more[0], more[1:], rest),
                          before if t is self.ent[p][0] else t._v)

    def _relations(self, cur, lists):
        """lockstep / last / byindex candidates"""
        kn, T = self.know, self.T
        # sources: opaque lists with a first element
        names = sorted(lists)
        prim = {}
        for p in names:
            info = lists[p]
            done = False
            # byindex: appended value is a function of the index alone
            if info['tmpl'] is not None and info['delta'] == 1 and ('byindex', p) not in kn['dropped'] \
                    and (self.n is not None or closed_value(info['tmpl'], self)):
                tm = info['tmpl']
                info['fn'] = lambda j, tm=tm: subst(tm, [(T, j)])
                self.cands.append((('byindex', p), lambda post, p=p, tm=tm: self._elem_goal(post, p, 0, tm)))
                done = True
            if not done and self.n is not None and kn.get('rec', {}).get(p) is not None and info['delta'] == 1 \
                    and ('rec', p) not in kn['dropped']:
                base, inc = kn['rec'][p]
                info['fn'] = lambda j, base=base, inc=inc: wrap(base + isum(j, lambda i: z3.simplify(
                    z3.substitute(inc, (T, z3.simplify(i + 1))))))
                self.cands.append((('rec', p), lambda post, p=p, base=base, inc=inc, info=info: z3.If(
                    T == 0, self._elem_goal(post, p, 0, wrap(base)),
                    equal_values(self._last_of(post(p)), wrap(zint(info['fn'](z3.simplify(T - 1))) + inc)))))
                done = True
            if not done and info['elem'] in ('opq', 'real') and info['first'] is not None and info['delta'] == 1:
                for q in names:
                    if q == p or q not in prim or ('lockstep', p, q) in kn['dropped']:
                        continue
                    qi = lists[q]
                    if qi['first'] is None or qi['elem'] != 'opq' or qi['delta'] != 1:
                        continue
                    t0, s0 = _term(info['first']), _term(qi['first'])
                    if t0 is None or s0 is None or not _contains(t0, s0):
                        continue
                    # in step: same position
                    if not z3.simplify(info['base'] - qi['base']).eq(z3.IntVal(0)):
                        continue
                    tm = lambda x, t0=t0, s0=s0: z3.substitute(t0, (s0, x))
                    info['fn'] = lambda j, tm=tm, qi=qi, info=info: _val(tm(_term(qi['fn'](j))), info['elem'])
                    self.cands.append((('lockstep', p, q), lambda post, p=p, q=q, tm=tm:
                                       self._lock_goal(post, p, q, tm)))
                    done = True
                    break
            if not done:
                prim[p] = info
                if info['elem'] == 'other':
                    info['fn'] = lambda j: POISON
                else:
                    if self.n is not None:
                        self.c.loose = True     # nothing is known of the elements
                    info['fn'] = lambda j, info=info: _val(info['F'](j), info['elem'])
        self.lists = lists
        for p in names:
            lists[p]['seg'].f = lists[p]['fn']
        # last: location = T(last element of M)
        for p, nv in sorted(cur.items()):
            if not isinstance(nv, (Opq, SReal)) or isinstance(nv, VList):
                continue
            v0 = self.ent[p][0]
            t0 = _term(v0)
            if t0 is None or not z3.is_expr(t0):
                continue
            for q in names:
                qi = lists[q]
                if q not in prim or qi['elem'] != 'opq' or qi['delta'] != 1 or qi['first'] is None:
                    continue
                if ('last', p, q) in kn['dropped']:
                    continue
                last0 = self._last_of(self.ent[q][0])
                s0 = _term(last0) if last0 is not None else None
                if s0 is None or not _contains(t0, s0):
                    continue
                L = qi['list']
                lastv = self._symlast(qi)
                tm = lambda x, t0=t0, s0=s0: z3.substitute(t0, (s0, x))
                self.c.assume(_term(nv) == tm(_term(lastv)))
                self.cands.append((('last', p, q), lambda post, p=p, q=q, tm=tm:
                                   _term(post(p)) == tm(_term(self._last_of(post(q))))))
                break

    def _last_of(self, L):
        if not isinstance(L, VList) or not L.segs:
            return None
        s = L.segs[-1]
        if isinstance(s, list):
            return s[-1] if s else None
        return None

    def _symlast(self, qi):
        """last element of the havocked list: initial last if t == 0 else F(t-1)"""
        pre = [s for s in qi['prefix'] if not (isinstance(s, list) and not s)]
        if not pre or not isinstance(pre[-1], list):
            raise Unsupported('last of list')
        a = _term(pre[-1][-1])
        b = _term(qi['fn'](z3.simplify(self.T - 1)))
        return Opq(z3.If(self.T == 0, a, b))

    def _elem_goal(self, post, p, k, tm):
        L = post(p)
        x = self._last_of(L)
        if x is None:
            return z3.BoolVal(False)
        return equal_values(deft(x), tm)

    def _lock_goal(self, post, p, q, tm):
        a, b = self._last_of(post(p)), self._last_of(post(q))
        if a is None or b is None:
            return z3.BoolVal(False)
        return _term(a) == tm(_term(b))

    # ---- tail
    def tail(self, loc):
        kn = self.know
        roots = {k: v for k, v in loc.items() if not k.startswith('__')}
        roots.update(self.c.heaps)
        ent1 = walk(roots)
        if self.phase == 'probe':
            ch = {}
            for p, s0 in self.snap0.items():
                if p not in ent1:
                    continue
                v0, v1 = self.ent[p][0], ent1[p][0]
                s1 = snap(v1)
                if not changed(s0, s1):
                    continue
                if not ('.' in p or '[' in p) and p not in self.names and not (v0 is v1):
                    continue
                ch[p] = self._kind(p, v0, s0, v1, s1)
            # drop entities nested under a rebound ancestor that is poisoned
            kn['changed'] = ch
            self._learn_late(loc)
            kn['pass'] = 2
            raise Restart()
        dirty = False

        def post(p):
            if p not in ent1:
                raise Unsupported('location %s vanished' % p)
            return ent1[p][0]
        # every change must be of a havocked location
        base = self.snap_head
        for p, s0 in base.items():
            if p not in ent1 or p in kn['changed']:
                continue
            v1 = ent1[p][0]
            if not ('.' in p or '[' in p) and p not in self.names and v1 is not self.headvals[p]:
                continue
            s1 = snap(v1)
            if changed(s0, s1):
                kn['changed'][p] = self._kind(p, self.ent[p][0] if p in self.ent else self.headvals[p],
                                              s0, v1, s1)
                dirty = True
        if dirty:
            raise Restart()
        # list shape
        for p, kd in kn['changed'].items():
            if kd['kind'] != 'list' or p not in self.cur or (
                    kd.get('val') is not None and ('byval', p) not in kn['dropped']):
                continue
            L = post(p)
            pre = self.snap_head[p][1]
            now = snap(L)[1]
            if isinstance(kd['delta'], VList):
                if _append_delta(pre, now) is None:
                    kn['dropped'].add(('listlen', p))
                    raise Restart()
                continue
            self._learn_rec(p, L)
            if kd['delta'] != _append_delta(pre, now):
                d = _append_delta(pre, now)
                if kd.get('redo'):
                    kn['dropped'].add(('listlen', p))
                else:
                    kd['redo'] = True
                    kd['delta'] = d
                raise Restart()
        for p, kd in kn['changed'].items():
            if kd['kind'] == 'tens' and p in self.cur:
                self._tail_tensor(p, kd, post(p))
        if self._learn_late(loc):
            raise Restart()
        failed, weak = [], False
        for cid, goal in self.cands:
            try:
                g = goal(post)
            except (Unsupported, AttributeError, TypeError):
                g = z3.BoolVal(False)
            st = PV.check(self.c.pc + self.c.axioms, g, timeout=4000)
            if st[0] != 'proved':
                dirty = True
                if core.TRACE:
                    print('candidate', cid, st[0], str(z3.simplify(g))[:600])
                failed.append(cid)
                weak = weak or st[0] == 'unknown'
        # a better guess for one location may be what another was waiting for
        learnt = []
        for kinds in (('byval', 'byloc'), ('lset',), ('byindex',), ('block',)):
            for cid in failed:
                if cid[0] in kinds:
                    f = {'block': self._relearn_block, 'lset': self._relearn_set}.get(cid[0], self._relearn)
                    if f(cid, post):
                        learnt.append(cid)
            if learnt:
                raise Restart()
        if failed and weak:
            self.c.knowledge['weak'] = True
        kn['dropped'].update(failed)
        for cid in failed:
            # not a sum of contributions: perhaps written row by row
            if cid[0] == 'tacc' and hasattr(self.headvals.get(cid[1]), 'row_write'):
                kn['changed'][cid[1]] = dict(kind='tens', inplace=kn['changed'][cid[1]].get('inplace'))
        if dirty:
            raise Restart()
        self._note_guard()
        raise PathEnd()

    def _learn_rec(self, p, L):
        """value appended = previous value + increment(index)"""
        kn, info = self.know, self.lists.get(p)
        if info is None or info['elem'] != 'int' or info['delta'] != 1 or p in kn.get('rec', {}) \
                or ('byindex', p) not in kn['dropped'] or info['tmpl'] is None:
            return
        x = self._last_of(L)
        if not isinstance(x, (SInt, int)):
            return
        prev = info['F'](z3.simplify(self.T - 1))
        inc = z3.simplify(zint(x) - prev)
        from .sums import contains
        if contains(inc, {prev.get_id()}) or 'F:%s@%s' % (p, self.key) in inc.sexpr():
            return
        base = z3.simplify(z3.substitute(zint(info['tmpl']), (self.T, z3.IntVal(0))))
        kn.setdefault('rec', {})[p] = (base, inc)
        raise Restart()

    # ---- guards: what must hold of an iteration that completes (an iteration may
    # raise or return instead); the disjunction over all completing paths is an
    # invariant of the elements already passed
    def _note_guard(self):
        if getattr(self, 'mark', None) is None:
            return
        cs = [g for g in self.c.pc[self.mark:] if self._closed(g)]
        g = z3.simplify(z3.And(*cs)) if cs else z3.BoolVal(True)
        gs = self.know.setdefault('guards', {}).setdefault(self.where, [])
        if self.n is None and _has_sort(g, REAL):
            # what past values were compared with is of no use, and slow
            if any(not z3.is_true(h) for h in gs):
                self.c.knowledge['again'] = 'must'
            gs[:] = [z3.BoolVal(True)]
            return
        if not any(h.eq(g) for h in gs):
            # paths explored assumed fewer guards; if they assumed none, they only lack an hypothesis
            kw = self.c.knowledge
            kw['again'] = 'must' if gs or kw.get('again') == 'must' else 'may'
            gs.append(g)

    def _closed(self, g, outer=True):
        """no values that change within the loop (outer: counters of enclosing loops are allowed)"""
        todo, seen = [g], set()
        while todo:
            e = todo.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if z3.is_quantifier(e):
                return False
            if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and not e.eq(self.T):
                nm = e.decl().name()
                if ('!' in nm or '@' in nm) and not (outer and any(e.eq(t) for t in self.outer)):
                    return False
            todo.extend(e.children())
        return True

    def assume_guards(self):
        gs = self.know.get('guards', {}).get(self.where) or []
        if not gs or any(z3.is_true(g) for g in gs):
            return
        d = z3.Or(*gs) if len(gs) > 1 else gs[0]
        sv = z3.Solver()
        sv.set('timeout', 2000)
        sv.add(z3.Not(d))
        if sv.check() == z3.unsat:
            return
        j = z3.Int('gd@' + self.key)
        self.c.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < (self.T if self.n is None else self.n)), z3.substitute(d, (self.T, j)))))

    def _tail_tensor(self, p, kd, v1):
        kn = self.know
        if ('rows', p) in kn['dropped']:
            return
        info = getattr(self, 'rowinfo', {}).get(p) if getattr(self, 'rowinfo', None) else None
        w = None
        if v1 is self.headvals[p] and hasattr(v1, 'row_write'):
            w = v1.row_write(self.snap_head[p][1], self.T)
        if w is not None and info is not None and v1.same_row(info[1], w, self.T, self.c):
            return
        if w is None and info is None:
            return      # nothing was assumed
        tried = kn.setdefault('tried_rows', {})
        if tried.get(p, 0) >= 6:
            kn['dropped'].add(('rows', p))
        elif w is None:
            # not these rows; others may be seen once the rest is known better
            tried[p] = tried.get(p, 0) + 1
            kd.pop('rows')
        else:
            # learn the row write from the log
            tried[p] = tried.get(p, 0) + 1
            kd['rows'], kd['axis'] = w, v1.axes[0]
        raise Restart()

    def _kind(self, p, v0, s0, v1, s1):
        k = self._kind0(p, v0, s0, v1, s1)
        rebound = k['kind'] == 'list' and not k['inplace'] and self.n is not None
        if (self.n is None and k['kind'] not in ('list', 'int', 'bool')) or k['kind'] == 'other' or rebound:
            w = deft(v1)
            cnt = getattr(type(w), '__vcount__', None)
            if cnt is not None and type(v0) is type(w) and self.n is not None:
                d = z3.simplify(zint(getattr(w, cnt)) - zint(getattr(v0, cnt)))
                if z3.is_int_value(d):
                    w = w.at_count(z3.simplify(z3.substitute(zint(getattr(v0, cnt)), (self.T, z3.IntVal(0))) + d * (self.T + 1)))
            if self.n is not None and self.c.must(self.T == 0):
                w = subst(w, [(self.T, z3.IntVal(0))])      # set in the first iteration only
            if closed_value(w, self):
                k['val'] = w.copy() if hasattr(w, 'fresh_like') else w
        return k

    def _kind0(self, p, v0, s0, v1, s1):
        from .tensor import STensor
        inpl = (v0 is v1)
        if isinstance(v0, VList) and isinstance(v1, VList):
            d = _append_delta(s0[1], s1[1])
            it0 = _flat_items(s0[1])
            last = None
            seg = v1.segs[-1] if v1.segs else None
            if isinstance(seg, list) and seg:
                last = seg[-1]
            elem = 'opq' if isinstance(last, Opq) else ('real' if isinstance(last, SReal) else (
                'int' if isinstance(last, (SInt, int)) and not isinstance(last, bool) else 'other'))
            first = None
            if it0 and not isinstance(it0[-1], Seg):
                first = it0[-1]
            if d is None and inpl and self.n is not None and len(v1._sets) == self.sets.get(p, 0) + 1:
                k, x = v1._sets[-1]
                if self.c.must(k == self.T) and closed_value(x, self):
                    return dict(kind='lset', inplace=True, tmpl=x)
            return dict(kind='list', delta=d, elem=elem, inplace=inpl, first=first,
                        tmpl=deft(last) if d == 1 else None)
        ps = _parts(v1)
        if ps is not None and self.seq is not None and not (inpl and getattr(v1, '_log', None)):
            q0 = [_part(v0, k, len(ps)) for k in range(len(ps))]
            if all(q is not None for q in q0) and (_isnum_finite(v0) or isinstance(v0, SBase) or (
                    self.snap_parts.get(p) is not None)):
                from .tensor import as_tensor
                try:
                    q0 = q0 if _parts(v0) is None else self.snap_parts[p]
                    inc = [as_tensor(b - a) for a, b in zip(q0, ps)]
                    if not any(_contains(f, self.T) for t in inc for a in t.axes for f in a if z3.is_expr(f)):
                        return dict(kind='tacc', inc=[t.copy() for t in inc], like=v1, inplace=inpl)
                except (Unsupported, ValueError):
                    pass
        if isinstance(v0, STensor) and isinstance(v1, STensor):
            return dict(kind='tens', inplace=inpl)
        if isinstance(v0, (bool, SBool)) and isinstance(v1, (bool, SBool)):
            return dict(kind='bool')
        if isinstance(v0, (int, SInt, _np.integer)) and isinstance(v1, (int, SInt, _np.integer)) \
                and not isinstance(v0, bool):
            d = zint(v1) - zint(v0)
            if self.c.exits:
                d = z3.substitute(d, *self.c.exits)
            d = z3.simplify(d, som=True)
            if z3.is_int_value(d):
                return dict(kind='int', delta=d.as_long())
            if self._closed(d) and _contains(d, self.T):
                return dict(kind='int', delta=None, inc=d)
            return dict(kind='int', delta=d if self._closed(d) else None)
        if isinstance(v0, (int, float, SReal, SInt)) and isinstance(v1, (int, float, SReal, SInt)):
            inc = None
            if _isnum_finite(v0) and self.seq is not None:
                inc = z3.simplify(zreal(v1) - zreal(v0), som=True)
            return dict(kind='real', inc=inc)
        if isinstance(v0, (float, SReal, int, SInt)) and isinstance(v1, Opq):
            return dict(kind='opq')
        if isinstance(v0, Opq):
            return dict(kind='opq', inplace=inpl, tmpl=Opq(v1.t) if isinstance(v1, Opq) else None)
        return dict(kind='other')

    # ---- iteration protocol
    def start(self, loc):
        vals = self.head(loc)
        cur = dict(self.roots)
        for n, v in zip(self.names, vals):
            if v is not POISON or n in cur:
                cur[n] = v
        self.headvals = {p: e[0] for p, e in walk(cur).items()}
        self.snap_head = {p: snap(v) for p, v in self.headvals.items()}
        return vals


def _parts(v):
    from .tensor import STensor
    if isinstance(v, STensor):
        return [v]
    if hasattr(type(v), '__vparts__'):
        return v.__vparts__()
    return None


def _part(v, k, n):
    """k-th real part of an accumulator (a plain number is its own first part)"""
    ps = _parts(v)
    if ps is not None:
        return ps[k] if len(ps) == n else None
    if isinstance(v, SBase) or _isnum_finite(v):
        return v if k == 0 else 0
    return None


def _accumulated(v0, inc, T, t):
    """v0 + sum over j < t of inc(j), elementwise"""
    from .tensor import STensor, as_tensor, at_placeholders
    from .sums import mk_sum
    e = inc.frozen()

    def elem(idx):
        return mk_sum(t, lambda j: zreal(wrap(at_placeholders(e, idx, [(T, j)]))))
    s = STensor(inc.axes, elem, 'r')
    return as_tensor(as_tensor(v0) + s) if not (_isnum(v0) and v0 == 0) else s


def _isnum_finite(v):
    if isinstance(v, (float, _np.floating)) and (v != v or v in (float('inf'), float('-inf'))):
        return False
    return isinstance(v, (int, float, SReal, SInt, _np.number))


def _append_delta(pre, now):
    """number of elements appended (or the list of them), if `now` extends `pre`"""
    a, b = _flat_items(pre), _flat_items(now)
    if len(b) < len(a):
        return None
    for x, y in zip(a, b):
        if isinstance(x, Seg) or isinstance(y, Seg):
            if x is not y:
                return None
        elif changed(snap(x), snap(y)) and x is not y:
            return None
    for y in b[len(a):]:
        if isinstance(y, Seg):
            segs = []
            for z in b[len(a):]:
                if isinstance(z, Seg):
                    segs.append(z)
                elif segs and isinstance(segs[-1], list):
                    segs[-1].append(z)
                else:
                    segs.append([z])
            return VList(segs=segs)
    return len(b) - len(a)


def _added(pre, L):
    d = _append_delta(tuple(tuple(s) if isinstance(s, list) else s for s in pre), snap(L)[1])
    if d is None or (isinstance(d, int) and d):
        raise Unsupported('block')
    return d if isinstance(d, VList) else VList()


def _term(v):
    if isinstance(v, Opq):
        return v.t
    if isinstance(v, SReal):
        return v.t
    if isinstance(v, SInt):
        return z3.ToReal(v.t)
    if isinstance(v, (int, float)) and not isinstance(v, bool):
        try:
            return zreal(v)
        except Unsupported:
            return None
    if v is None:
        return None
    if hasattr(v, '__enc__'):
        return enc(v)
    return None


def _val(t, elem):
    return Opq(t) if elem == 'opq' else wrap(t)


def _contains(t, s):
    from .sums import contains
    if z3.is_rational_value(s) or z3.is_int_value(s):
        return False
    return contains(t, {s.get_id()})


def _has_sort(e, sort):
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_expr(x) and not z3.is_quantifier(x) and x.sort() == sort:
            return True
        todo.extend(x.children())
    return False


def equal_values(a, b):
    """formula expressing equality of two abstract values"""
    if a is b:
        return z3.BoolVal(True)
    if (isinstance(a, SBase) or _isnum(a)) and (isinstance(b, SBase) or _isnum(b)):
        if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
            return zbool(a) == zbool(b)
        return zreal(a) == zreal(b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return z3.BoolVal(False)
        return z3.And(*[equal_values(x, y) for x, y in zip(a, b)]) if a else z3.BoolVal(True)
    if isinstance(a, VList) or isinstance(b, VList):
        a, b = as_vlist(a), as_vlist(b)
        la, lb = a.zlen(), b.zlen()
        if a.concrete() and b.concrete():
            ia, ib = a.items(), b.items()
            if len(ia) != len(ib):
                return z3.BoolVal(False)
            return z3.And(*[equal_values(x, y) for x, y in zip(ia, ib)]) if ia else z3.BoolVal(True)
        i = z3.Int(ctx().fresh('eqi'))
        c = ctx()
        if _has_cat(a) and _has_cat(b):
            return _cat_eq(a, b)
        g = la == lb
        # element equality at a fresh index, under its range
        n0 = len(c.pc)
        c.solver.push()
        c.pc.append(z3.And(i >= 0, i < la, i < lb))
        c.solver.add(c.pc[-1])
        try:
            e = z3.BoolVal(True) if c.solver.check() == z3.unsat else equal_values(a.at(i), b.at(i))
        finally:
            c.solver.pop()
            extra = c.pc[n0 + 1:]
            del c.pc[n0:]
        return z3.And(g, z3.Implies(z3.And(i >= 0, i < la, *extra), e))
    from .tensor import STensor
    if isinstance(a, STensor) or isinstance(b, STensor):
        from .tensor import tensor_eq
        return tensor_eq(a, b)
    if type(a) is type(b) and hasattr(a, '__veq__'):
        return a.__veq__(b)
    try:
        return enc(a) == enc(b)
    except Unsupported:
        return z3.BoolVal(a is b)


def _has_cat(a):
    return any(isinstance(s, Cat) for s in a.segs)


def _under(cond, f):
    """f() evaluated under a condition -> formula cond => f()"""
    c = ctx()
    n0 = len(c.pc)
    c.solver.push()
    c.pc.append(cond)
    c.solver.add(cond)
    try:
        e = f()
    finally:
        c.solver.pop()
        extra = c.pc[n0 + 1:]
        del c.pc[n0:]
    return z3.Implies(z3.And(cond, *extra), e)


def _cat_eq(a, b):
    """block by block (sufficient for equality)"""
    sa = [s for s in a.segs if not (isinstance(s, list) and not s)]
    sb = [s for s in b.segs if not (isinstance(s, list) and not s)]
    if len(sa) != len(sb):
        raise Unsupported('concatenations of different structure')
    gs = []
    for x, y in zip(sa, sb):
        if isinstance(x, Cat) and isinstance(y, Cat):
            i = z3.Int(ctx().fresh('eqb'))
            gs += [x.k == y.k, _under(z3.And(i >= 0, i < x.k), lambda: equal_values(x.block(i), y.block(i)))]
        elif isinstance(x, Cat) or isinstance(y, Cat):
            raise Unsupported('concatenations of different structure')
        else:
            gs.append(equal_values(VList(segs=[x]), VList(segs=[y])))
    return z3.And(*gs)


POISON = Poison()


class ForLoop(object):
    """object produced by the rewriting of a for statement"""

    def __init__(self, it, loc, names, kept=None):
        self.kept = names if kept is None else kept
        self.sym = False
        self.it = it
        if isinstance(it, VRange):
            it = it.seg()
        if isinstance(it, VList) and not it.concrete():
            self.sym = True
            self.loop = Loop(loc, it, names)
            self.seq = it
        elif isinstance(it, VList):
            self.it = it.items()
        elif hasattr(it, '__vseq__'):
            q = it.__vseq__()
            if q.concrete():
                self.it = q.items()
            else:
                self.sym = True
                self.loop = Loop(loc, q, names)
                self.seq = q

    def head(self, loc):
        self.loop.kept = self.kept
        return self.loop.start(loc)

    def __iter__(self):
        if not self.sym:
            return iter(self.it)
        return self._gen()

    def _gen(self):
        lp = self.loop
        c = lp.c
        lp.where = tuple(c.decisions[:c.pos])
        if c.branch(z3.And(lp.T < lp.n, lp.n > 0)):
            lp.mark = len(c.pc)
            c.open.append(lp.T)
            yield self.seq.at(lp.T)
            raise Unsupported('continue inside a symbolic for loop')
        if lp.phase == 'prove':
            c.assume(lp.T == lp.n)
            c.exits.append((lp.T, lp.n))
            if getattr(lp, 'nonempty', False) and not c.must(lp.n >= 1):
                raise Unsupported('an array accumulated from a number over a possibly empty sequence')
            for info in lp.lists.values():
                info['seg'].n = z3.simplify(info['delta'] * lp.n)
            for cat in lp.blocks.values():
                cat.setk(lp.n)
            lp._row_blocks()
            lp.assume_guards()
        else:
            c.assume(lp.n <= 0)

    def tail(self, loc):
        self.loop.tail(loc)


class WhileLoop(object):
    def __init__(self, loc, names):
        self.loop = Loop(loc, None, names)
        self.count = 0
        self.concrete_iters = 0

    def head(self, loc):
        return self.loop.start(loc)

    def go(self):
        self.count += 1
        if self.count > 1:
            raise Unsupported('continue inside a while loop')
        lp = self.loop
        if lp.phase == 'prove':
            # the iterations before this one were completed
            lp.where = tuple(lp.c.decisions[:lp.c.pos])
            lp.assume_guards()
            lp.mark = len(lp.c.pc)
        return True

    def tail(self, loc):
        self.loop.tail(loc)
