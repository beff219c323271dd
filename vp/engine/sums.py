"""Finite sums (and other reductions) over symbolic ranges.

A sum is normalised: the body is expanded to a polynomial, factors free of the
bound variable are pulled out, nested sums are merged, independent groups are
split, Kronecker deltas are eliminated.  What remains is an application of an
uninterpreted function named by the skeleton of the body, applied to the free
parameters: equality of sums becomes congruence, plus (prove.py) extensionality
lemmas that the solver discharges pointwise.
"""
import itertools
import hashlib
from .core import z3, INT, REAL, BOOL, V, ctx, Unsupported, _inv, rdiv

EXPAND = 12
REG = {}          # decl name -> dict(op, body, betas, pis, nranges)
_cnt = [0]


def fresh_bound():
    _cnt[0] += 1
    return z3.Int('b!%d' % _cnt[0])


def _contains_cache():
    return {}


def contains(e, vs, cache=None):
    """does e contain any constant of vs (a set of ast ids)?"""
    if cache is None:
        cache = {}
    i = e.get_id()
    if i in cache:
        return cache[i]
    if i in vs:
        r = True
    else:
        r = any(contains(c, vs, cache) for c in e.children())
    cache[i] = r
    return r


def is_sum(e):
    return z3.is_app(e) and e.decl().name() in REG


def _factors(t):
    """multiplicative factors of a monomial -> (coef expr list)"""
    if z3.is_app_of(t, z3.Z3_OP_MUL):
        out = []
        for c in t.children():
            out.extend(_factors(c))
        return out
    if z3.is_app_of(t, z3.Z3_OP_UMINUS):
        return [z3.RealVal(-1)] + _factors(t.arg(0))
    if z3.is_app_of(t, z3.Z3_OP_POWER) and z3.is_rational_value(t.arg(1)) \
            and t.arg(1).as_fraction().denominator == 1 and 1 <= t.arg(1).as_fraction() <= 8:
        return _factors(t.arg(0)) * int(t.arg(1).as_fraction())
    return [t]


def _addends(t):
    if z3.is_app_of(t, z3.Z3_OP_ADD):
        out = []
        for c in t.children():
            out.extend(_addends(c))
        return out
    if z3.is_app_of(t, z3.Z3_OP_SUB):
        ch = t.children()
        out = _addends(ch[0])
        for c in ch[1:]:
            out.extend([-x for x in _addends(c)])
        return out
    return [t]


def expand(t):
    return z3.simplify(t, som=True, blast_distinct=False, mul_to_power=False, hoist_ite=False)


def prod(fs):
    r = None
    for f in fs:
        r = f if r is None else r * f
    return z3.RealVal(1) if r is None else r


def lift_ite(fs, vs):
    """find If factor whose branches are (x,0)/(0,x): [cond]*x ; return list of (conds, factors)"""
    return fs


def mk_sum(n, bodyf, depth=0):
    """sum over 0 <= b < n of bodyf(b)   (n: python int or z3 Int term)"""
    if not z3.is_expr(n):
        n = int(n)
    else:
        n = z3.simplify(n)
        if z3.is_int_value(n):
            n = n.as_long()
    if isinstance(n, int):
        if n > 400:
            raise Unsupported('large concrete sum')
        if n <= EXPAND or True:
            tot = z3.RealVal(0)
            for i in range(max(n, 0)):
                tot = tot + bodyf(z3.IntVal(i))
            return z3.simplify(tot)
    b = fresh_bound()
    return sum_over([(b, n)], bodyf(b))


def sum_over(binders, body, depth=0):
    if depth > 40:
        raise Unsupported('sum normalisation too deep')
    body = expand(body)
    tot = []
    for t in _addends(body):
        tot.append(_sum_mono(binders, t, depth))
    if not tot:
        return z3.RealVal(0)
    r = tot[0]
    for x in tot[1:]:
        r = r + x
    return z3.simplify(r)


def _range_assumed(binders, goal):
    c = ctx()
    s = c.solver
    s.push()
    for (b, n) in binders:
        s.add(b >= 0, b < n)
    s.add(z3.Not(goal))
    r = s.check()
    s.pop()
    return r == z3.unsat


def _sum_mono(binders, t, depth):
    fs = _factors(t)
    # merge nested sums that depend on a binder
    binders = list(binders)
    vs = {b.get_id() for b, _ in binders}
    out, inner = [], []
    work = list(fs)
    while work:
        f = work.pop(0)
        if not contains(f, vs):
            out.append(f)
            continue
        if is_sum(f) and REG[f.decl().name()]['op'] == 'sum':
            nb, body = open_sum(f)
            binders.extend(nb)
            vs |= {b.get_id() for b, _ in nb}
            work.extend(_factors(body))
            continue
        inner.append(f)
    # If-factors: resolve, eliminate deltas, split piecewise ranges
    for i, f in enumerate(inner):
        if z3.is_app_of(f, z3.Z3_OP_ITE):
            c, x, y = f.children()
            rest = inner[:i] + inner[i + 1:]
            if _range_assumed(binders, c):
                return prod(out) * sum_over(binders, prod(rest + [x]), depth + 1)
            if _range_assumed(binders, z3.Not(c)):
                return prod(out) * sum_over(binders, prod(rest + [y]), depth + 1)
            zx, zy = _iszero(x), _iszero(y)
            if not (zx or zy):
                a = sum_over(binders, prod(rest + [z3.If(c, x, z3.RealVal(0))]), depth + 1)
                b2 = sum_over(binders, prod(rest + [z3.If(c, z3.RealVal(0), y)]), depth + 1)
                return prod(out) * (a + b2)
            cond = c if zy else z3.Not(c)
            val = x if zy else y
            got = _delta(binders, cond, rest + [val], depth)
            if got is not None:
                return prod(out) * got
            if not (z3.is_rational_value(val) and val.as_fraction() == 1):
                # separate the indicator from the value
                ind = z3.If(cond, z3.RealVal(1), z3.RealVal(0))
                newinner = rest + _factors(expand(val)) + [ind] if len(_addends(expand(val))) == 1 else None
                if newinner is None:
                    return prod(out) * sum_over(binders, prod(rest) * _dist(val, ind), depth + 1)
                inner2 = newinner
                return prod(out) * _sum_mono(binders, prod(inner2), depth + 1) if not _same(inner, inner2) \
                    else prod(out) * _finish(binders, inner)
            got = _split(binders, cond, rest, depth)
            if got is not None:
                return prod(out) * got
    return prod(out) * _finish(binders, inner)


def _same(a, b):
    return len(a) == len(b) and sorted(x.get_id() for x in a) == sorted(x.get_id() for x in b)


def _dist(val, ind):
    r = None
    for a in _addends(expand(val)):
        x = a * ind
        r = x if r is None else r + x
    return r


def _iszero(x):
    return z3.is_rational_value(x) and x.as_fraction() == 0


def _solve_for(b, eq):
    """eq is l == r over Int; solve for b with unit coefficient"""
    l, r = eq.arg(0), eq.arg(1)
    if l.sort() != INT:
        return None
    d = z3.simplify(l - r, som=True)
    co, rest = 0, []
    for a in _addends(d):
        if a.get_id() == b.get_id():
            co += 1
        elif z3.is_app_of(a, z3.Z3_OP_MUL) and a.num_args() == 2 and a.arg(1).get_id() == b.get_id() \
                and z3.is_int_value(a.arg(0)):
            co += a.arg(0).as_long()
        else:
            if contains(a, {b.get_id()}):
                return None
            rest.append(a)
    if co not in (1, -1):
        return None
    e = z3.IntVal(0)
    for a in rest:
        e = e + a
    return z3.simplify(-e if co == 1 else e)


def _delta(binders, cond, factors, depth):
    conj = list(cond.children()) if z3.is_and(cond) else [cond]
    for ci, c in enumerate(conj):
        if z3.is_eq(c) and c.arg(0).sort() == INT:
            for bi, (b, n) in enumerate(binders):
                if not contains(c, {b.get_id()}):
                    continue
                e = _solve_for(b, c)
                if e is None:
                    continue
                others = binders[:bi] + binders[bi + 1:]
                # ranges of the other binders must not depend on b
                if any(contains(m, {b.get_id()}) for _, m in others if z3.is_expr(m)):
                    continue
                restc = conj[:ci] + conj[ci + 1:]
                ok = z3.And(e >= 0, e < n)
                sub = [z3.substitute(f, (b, e)) for f in factors]
                g = [z3.substitute(x, (b, e)) for x in restc]
                if not _range_assumed(others, ok):
                    g.append(ok)
                body = prod(sub)
                if g:
                    body = z3.If(z3.simplify(z3.And(*g)) if len(g) > 1 else g[0], body, z3.RealVal(0))
                if not others:
                    return z3.simplify(body)
                return sum_over(others, body, depth + 1)
    return None


def _split(binders, cond, rest, depth):
    """sum over b<n of [b < c]*...  with 0<=c<=n  -> sum over b<c ;  [b>=c] -> shifted"""
    conj = list(cond.children()) if z3.is_and(cond) else [cond]
    for ci, c in enumerate(conj):
        neg = False
        a = c
        if z3.is_not(a):
            neg, a = True, a.arg(0)
        if not (z3.is_le(a) or z3.is_ge(a) or z3.is_lt(a) or z3.is_gt(a)):
            continue
        if a.arg(0).sort() != INT:
            continue
        for bi, (b, n) in enumerate(binders):
            if not contains(a, {b.get_id()}):
                continue
            others = binders[:bi] + binders[bi + 1:]
            if any(contains(m, {b.get_id()}) for _, m in others if z3.is_expr(m)):
                continue
            e = _solve_for(b, a.arg(0) == a.arg(1))
            if e is None or contains(e, {x.get_id() for x, _ in binders}):
                continue
            # is the region { b < th } or { b >= th } ?
            for th in (e, e + 1):
                th = z3.simplify(th)
                low = _range_assumed(binders, c == (b < th))
                high = (not low) and _range_assumed(binders, c == (b >= th))
                if not (low or high):
                    continue
                if not _range_assumed(others, z3.And(th >= 0, th <= n)):
                    continue
                restc = conj[:ci] + conj[ci + 1:]
                body = prod(rest)
                if restc:
                    body = z3.If(z3.And(*restc) if len(restc) > 1 else restc[0], body, z3.RealVal(0))
                if low:
                    return sum_over(binders[:bi] + [(b, th)] + binders[bi + 1:], body, depth + 1)
                nb = fresh_bound()
                body = z3.substitute(body, (b, nb + th))
                return sum_over(binders[:bi] + [(nb, z3.simplify(n - th))] + binders[bi + 1:], body, depth + 1)
    if z3.is_and(cond) or z3.is_or(cond) or (z3.is_not(cond) and (z3.is_and(cond.arg(0)) or z3.is_or(cond.arg(0)))):
        # a combination of comparisons that amounts to one
        for bi, (b, n) in enumerate(binders):
            if not contains(cond, {b.get_id()}):
                continue
            for a in _comparisons(cond, []):
                if not contains(a, {b.get_id()}):
                    continue
                e = _solve_for(b, a.arg(0) == a.arg(1))
                if e is None or contains(e, {x.get_id() for x, _ in binders}):
                    continue
                for th in (e, e + 1):
                    th = z3.simplify(th)
                    for one in (b < th, b >= th):
                        if _range_assumed(binders, cond == one):
                            return _split(binders, one, rest, depth)
    return None


def _comparisons(c, out):
    if z3.is_and(c) or z3.is_or(c) or z3.is_not(c):
        for x in c.children():
            _comparisons(x, out)
    elif (z3.is_le(c) or z3.is_ge(c) or z3.is_lt(c) or z3.is_gt(c)) and c.arg(0).sort() == INT:
        out.append(c)
    return out


def _finish(binders, inner):
    # split connected components
    used = [b for b in binders]
    ids = {b.get_id(): k for k, (b, n) in enumerate(used)}
    comp = list(range(len(used)))

    def find(x):
        while comp[x] != x:
            x = comp[x]
        return x

    def binders_in(e):
        return [k for i, k in ids.items() if contains(e, {i})]

    fb = []
    for f in inner:
        bs = binders_in(f)
        fb.append(bs)
        for x in bs[1:]:
            comp[find(x)] = find(bs[0])
    for k, (b, n) in enumerate(used):
        if z3.is_expr(n):
            for x in binders_in(n):
                comp[find(x)] = find(k)
    groups = {}
    for k in range(len(used)):
        groups.setdefault(find(k), ([], []))[0].append(k)
    for f, bs in zip(inner, fb):
        groups[find(bs[0])][1].append(f)
    res = z3.RealVal(1)
    for ks, fs in groups.values():
        bs = [used[k] for k in ks]
        if not fs:
            for b, n in bs:
                res = res * (z3.ToReal(n) if z3.is_expr(n) else z3.RealVal(n))
            continue
        # expand small concrete binders
        conc = [(b, n) for b, n in bs if not z3.is_expr(n) or z3.is_int_value(n)]
        if conc:
            b, n = conc[0]
            n = n.as_long() if z3.is_expr(n) else n
            others = [x for x in bs if x[0].get_id() != b.get_id()]
            tot = z3.RealVal(0)
            body = prod(fs)
            for i in range(n):
                bi = z3.simplify(z3.substitute(body, (b, z3.IntVal(i))))
                tot = tot + (sum_over(others, bi) if others else bi)
            res = res * tot
            continue
        res = res * close('sum', bs, fs)
    return res


def _blank(e, ids, memo):
    """string of e with bound variables blanked"""
    i = e.get_id()
    if i in memo:
        return memo[i]
    if i in ids:
        r = '@'
    elif z3.is_app(e) and e.num_args():
        r = '(' + e.decl().name() + ' ' + ' '.join(_blank(c, ids, memo) for c in e.children()) + ')'
    else:
        r = e.sexpr()
    memo[i] = r
    return r


def _skel(e, names, pis, cache):
    """skeleton string; maximal binder-free subterms become parameters"""
    i = e.get_id()
    if i in names:
        return names[i]
    if not contains(e, set(names), cache):
        if z3.is_int_value(e) or z3.is_rational_value(e) or z3.is_true(e) or z3.is_false(e):
            return e.sexpr()
        pis.append(e)
        return '?%s' % e.sort().name()
    if not z3.is_app(e):
        raise Unsupported('sum over a bound term')
    return '(' + e.decl().name() + ' ' + ' '.join(_skel(c, names, pis, cache) for c in e.children()) + ')'


def _orders(binders, fs):
    """orders of the binders worth comparing: sorted by how they occur, ties permuted"""
    if len(binders) == 1:
        return [(0,)]
    ids = {b.get_id(): '@' for b, _ in binders}

    free = {}

    def mark(e, names, memo):
        i = e.get_id()
        if i not in memo:
            if i in names:
                memo[i] = names[i]
            elif not contains(e, set(ids), free) and not z3.is_int_value(e) and not z3.is_rational_value(e):
                memo[i] = '?' + e.sort().name()
            elif z3.is_app(e) and e.num_args():
                memo[i] = '(' + e.decl().name() + ' ' + ' '.join(mark(c, names, memo) for c in e.children()) + ')'
            else:
                memo[i] = e.sexpr()
        return memo[i]
    cls = {b.get_id(): '@' for b, _ in binders}
    for _ in range(3):
        new = {}
        for b, n in binders:
            nm = dict(cls)
            nm[b.get_id()] = '#'
            memo = {}
            occ = sorted(mark(f, nm, memo) for f in fs if contains(f, {b.get_id()}))
            new[b.get_id()] = hashlib.sha1(repr((occ, cls[b.get_id()])).encode()).hexdigest()[:8]
        if len(set(new.values())) == len(set(cls.values())) and len(set(cls.values())) > 1:
            cls = new
            break
        cls = new
    groups = {}
    for k, (b, _) in enumerate(binders):
        groups.setdefault(cls[b.get_id()], []).append(k)
    parts = [list(itertools.permutations(groups[g])) for g in sorted(groups)]
    tot = 1
    for p in parts:
        tot *= len(p)
    if tot > 800:
        parts = [p[:1] for p in parts]
    return [sum(c, ()) for c in itertools.product(*parts)]


def close(op, binders, factors, fixed=False):
    """build the canonical application (fixed: the order of the binders is kept)"""
    ids = {b.get_id() for b, _ in binders}
    memo = {}
    fs = sorted(factors, key=lambda f: _blank(f, ids, memo))
    best = None
    perms = [tuple(range(len(binders)))] if fixed else _orders(binders, fs)
    keys = [_blank(f, ids, memo) for f in fs]
    for perm in perms:
        names = {binders[k][0].get_id(): 'B%d' % j for j, k in enumerate(perm)}
        cache = {}
        items = []
        for f, key in zip(fs, keys):
            pis = []
            s = _skel(f, names, pis, cache)
            items.append((key, s, [p.sexpr() for p in pis], f))
        items.sort(key=lambda x: (x[0], x[1], x[2]))
        rngs = [binders[k][1].sexpr() if z3.is_expr(binders[k][1]) else str(binders[k][1]) for k in perm]
        cand = ([x[1] for x in items], rngs, [x[2] for x in items])
        if best is None or cand < best[0]:
            best = (cand, perm, [x[3] for x in items])
    _, perm, order = best
    bs = [binders[k] for k in perm]
    names = {b.get_id(): 'B%d' % j for j, (b, n) in enumerate(bs)}
    cache = {}
    pis = []
    skels = [_skel(f, names, pis, cache) for f in order]
    rng = [n if z3.is_expr(n) else z3.IntVal(n) for _, n in bs]
    key = op + '|' + '*'.join(skels) + '|' + str(len(bs))
    name = '%s#%s' % (op, hashlib.sha1(key.encode()).hexdigest()[:12])
    args = pis + rng
    if name not in REG:
        betas = [z3.Int('B%d@%s' % (j, name)) for j in range(len(bs))]
        pvars = [z3.Const('P%d@%s' % (j, name), p.sort()) for j, p in enumerate(pis)]
        body = prod(order)
        # replace parameters by placeholders occurrence-wise: rebuild
        it = iter(range(len(pis)))
        bmap = {b.get_id(): betas[j] for j, (b, n) in enumerate(bs)}

        def rebuild(e):
            i = e.get_id()
            if i in bmap:
                return bmap[i]
            if not contains(e, set(bmap), cache2):
                if z3.is_int_value(e) or z3.is_rational_value(e) or z3.is_true(e) or z3.is_false(e):
                    return e
                return pvars[next(it)]
            ch = [rebuild(c) for c in e.children()]
            return e.decl()(*ch)
        cache2 = {}
        body = prod([rebuild(f) for f in order])
        REG[name] = dict(op=op, body=body, betas=betas, pis=pvars, nr=len(bs), key=key,
                         decl=z3.Function(name, *([a.sort() for a in args] + [REAL])))
    return REG[name]['decl'](*args)


def open_sum(app):
    """sum application -> ([(binder, range)], body) with fresh binders"""
    info = REG[app.decl().name()]
    args = app.children()
    k = len(info['pis'])
    bs = [fresh_bound() for _ in info['betas']]
    sub = list(zip(info['pis'], args[:k])) + list(zip(info['betas'], bs))
    body = z3.substitute(info['body'], *sub) if sub else info['body']
    return list(zip(bs, args[k:])), body


def mk_red(op, n, bodyf):
    """other reductions (max, min, median, any, all ...) over a symbolic range: canonical UF"""
    b = fresh_bound()
    body = expand(bodyf(b)) if not isinstance(n, (list, tuple)) else None
    if body.sort() == BOOL:
        body = z3.If(body, z3.RealVal(1), z3.RealVal(0))
    if not contains(body, {b.get_id()}):
        body = body + z3.RealVal(0) * z3.ToReal(b)
        body = z3.Function('konst', INT, REAL, REAL)(b, z3.simplify(body))
    return close(op, [(b, n if z3.is_expr(n) else z3.IntVal(n))], [body])


def _free_ite(e, ids, cache, seen):
    """an If inside e whose condition has no bound variable"""
    if e.get_id() in seen:
        return None
    seen.add(e.get_id())
    if z3.is_app_of(e, z3.Z3_OP_ITE) and not contains(e.arg(0), ids, cache):
        return e.arg(0)
    for c in e.children():
        r = _free_ite(c, ids, cache, seen)
        if r is not None:
            return r
    return None


def mk_sealed(op, ns, bodyf):
    """a sum kept as one opaque application (equal bodies still give equal values);
    case distinctions that do not depend on the summation are hoisted out"""
    bs = [fresh_bound() for _ in ns]
    ids = {b.get_id() for b in bs}

    def go(body):
        c = _free_ite(body, ids, {}, set())
        if c is not None:
            yes = go(z3.simplify(z3.substitute(body, (c, z3.BoolVal(True)))))
            no = go(z3.simplify(z3.substitute(body, (c, z3.BoolVal(False)))))
            return z3.If(c, yes, no)
        ads = _addends(expand(body))
        tot = None
        for t in ads:
            fs = _factors(t)
            out = [f for f in fs if not contains(f, ids)]
            ins = [f for f in fs if contains(f, ids)]
            x = prod(out) * (close(op, [(b, n if z3.is_expr(n) else z3.IntVal(n)) for b, n in zip(bs, ns)], ins, True)
                             if ins else prod([z3.ToReal(n) for n in ns]))
            tot = x if tot is None else tot + x
        return z3.simplify(tot)
    return go(bodyf(*bs))


def mk_red_multi(op, ns, bodyf):
    bs = [fresh_bound() for _ in ns]
    body = expand(bodyf(bs))
    if not contains(body, {b.get_id() for b in bs}):
        body = z3.Function('konst', INT, REAL, REAL)(bs[0], z3.simplify(body))
    return close(op, [(b, n if z3.is_expr(n) else z3.IntVal(n)) for b, n in zip(bs, ns)], [body])


def sum_apps(e, acc=None, seen=None):
    if acc is None:
        acc, seen = [], set()
    i = e.get_id()
    if i in seen:
        return acc
    seen.add(i)
    if z3.is_quantifier(e):
        return acc
    for c in e.children():
        sum_apps(c, acc, seen)
    if is_sum(e):
        acc.append(e)
    return acc
