"""Discharging obligations: z3 with instantiated axioms and extensionality lemmas,
cvc5 as second back end on what z3 leaves unknown."""
import time
import itertools
from . import core
from .core import z3, ctx, INT, REAL, BOOL, V, _inv, _sqrt, Unsupported, SBool, zreal, zint, zbool, wrap
from . import sums

TIMEOUT = 8000
# a lemma about sums was given up for lack of time: what remains is no refutation
UNSURE = [False]


def apps_of(e, pred, acc, seen):
    i = e.get_id()
    if i in seen:
        return
    seen.add(i)
    if z3.is_quantifier(e):
        return
    for c in e.children():
        apps_of(c, pred, acc, seen)
    if z3.is_app(e) and pred(e):
        acc.append(e)


def axioms(exprs):
    """ground instances of the axioms of recip, sqrt, exp, log, max/min"""
    ax, seen = [], set()
    apps = []
    for e in exprs:
        apps_of(e, lambda a: a.num_args() >= 1 and a.decl().kind() == z3.Z3_OP_UNINTERPRETED, apps, seen)
    sq = []
    for a in apps:
        n = a.decl().name()
        if n == 'recip':
            x = a.arg(0)
            ax += [z3.Implies(x != 0, a * x == 1), z3.Implies(x > 0, a > 0), z3.Implies(x < 0, a < 0)]
        elif n == 'sqrt':
            x = a.arg(0)
            ax += [a >= 0, z3.Implies(x >= 0, a * a == x), z3.Implies(x > 0, a > 0)]
            sq.append(a)
        elif n == 'exp' or n.startswith('pos_'):
            ax += [a > 0]
    for a in apps:
        if sums.is_sum(a) and sums.REG[a.decl().name()]['op'] in ('max', 'min') and apps is not None:
            ax += bound_instances(a, apps)
    return ax


def bound_instances(a, apps, limit=12):
    """max/min: instances of the bound at the elements that occur"""
    op = sums.REG[a.decl().name()]['op']
    bs, body = sums.open_sum(a)
    ids = {b.get_id(): k for k, (b, _) in enumerate(bs)}
    pats = []
    apps_of(body, lambda t: t.num_args() >= 1 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and
            all(_occurs(t, b) for b, _ in bs), pats, set())
    pat = pats[0] if pats else None
    out, done = [], set()
    z0 = [(b, z3.IntVal(0)) for b, _ in bs]
    i0 = z3.substitute(body, *z0)
    out.append(z3.Implies(z3.And(*[z3.substitute(r, *z0) > 0 for _, r in bs]), a <= i0 if op == 'min' else a >= i0))
    for t in apps:
        if pat is None or not t.decl().eq(pat.decl()) or len(out) >= limit:
            continue
        m = {}
        if not _match(pat, t, ids, m) or len(m) != len(bs):
            continue
        vals = [m[k] for k in range(len(bs))]
        key = tuple(v.get_id() for v in vals)
        if key in done or any(b.get_id() in {v.get_id() for v in vals} for b, _ in bs):
            continue
        done.add(key)
        sub = list(zip([b for b, _ in bs], vals))
        inst = z3.substitute(body, *sub)
        rng = [z3.And(v >= 0, v < z3.substitute(r, *sub)) for v, (_, r) in zip(vals, bs)]
        out.append(z3.Implies(z3.And(*rng), a <= inst if op == 'min' else a >= inst))
    return out


def _occurs(t, b):
    return sums.contains(t, {b.get_id()})


def _match(p, t, ids, m):
    if p.get_id() in ids:
        k = ids[p.get_id()]
        if k in m:
            return m[k].eq(t)
        m[k] = t
        return True
    if p.eq(t):
        return True
    if not sums.contains(p, set(ids)):
        return True          # equal up to the path condition: the instance is sound whatever it is
    return z3.is_app(p) and z3.is_app(t) and p.decl().eq(t.decl()) and p.num_args() == t.num_args() and \
        all(_match(x, y, ids, m) for x, y in zip(p.children(), t.children()))


def sum_lemmas(pc, exprs, budget=40, want=('eq', 'sign')):
    """extensionality / sign lemmas for the reductions occurring in exprs"""
    apps = []
    seen = set()
    for e in exprs:
        sums.sum_apps(e, apps, seen)
    lem = []
    s = z3.Solver()
    s.set('timeout', 1500)
    for c in pc:
        s.add(c)
    n = 0
    UNSURE[0] = UNSURE[0] or len(apps) > 30

    def pointwise(binders, goals):
        s.push()
        for b, r in binders:
            s.add(b >= 0, b < r)
        for x in axioms(goals):
            s.add(x)
        s.add(z3.Not(z3.And(*goals) if len(goals) > 1 else goals[0]))
        r = s.check()
        s.pop()
        UNSURE[0] = UNSURE[0] or r == z3.unknown
        return r == z3.unsat
    # innermost first (apps are in post-order)
    opened = []
    for a in apps[:30]:
        op = sums.REG[a.decl().name()]['op']
        bs, body = sums.open_sum(a)
        opened.append((a, op, bs, body))
        if op == 'sum' and 'sign' in want:
            if pointwise(bs, [body >= 0]):
                lem.append(a >= 0)
                if pointwise(bs, [body <= 1]):
                    sz = z3.RealVal(1)
                    for _, r in bs:
                        sz = sz * z3.ToReal(r)
                    lem.append(a <= sz)
            s.add(*lem[-2:]) if lem else None
        elif op in ('max', 'min') and 'sign' in want:
            if pointwise(bs, [body >= 0]):
                lem.append(z3.Implies(z3.And(*[r > 0 for _, r in bs]), a >= 0))
    for i in range(len(opened)):
        for j in range(i):
            a, op, bs, body = opened[i]
            a2, op2, bs2, body2 = opened[j]
            if op != op2 or len(bs) != len(bs2) or a.eq(a2):
                continue
            n += 1
            if n > budget:
                UNSURE[0] = True
                return lem
            for perm in (itertools.permutations(range(len(bs))) if len(bs) <= 3 else [tuple(range(len(bs)))]):
                bp = [bs2[k] for k in perm]
                if s.check(z3.Or(*[r != r2 for (_, r), (_, r2) in zip(bs, bp)])) != z3.unsat:
                    continue
                body2s = z3.substitute(body2, *[(b2, b) for (b, _), (b2, _) in zip(bs, bp)])
                if pointwise(bs, [body == body2s]):
                    lem.append(a == a2)
                    s.add(a == a2)
                    break
                elif 'mono' in want and op == 'sum':
                    if pointwise(bs, [body <= body2s]):
                        lem.append(a <= a2)
                        break
                    elif pointwise(bs, [body >= body2s]):
                        lem.append(a >= a2)
                        break
    return lem


def check(pc, goal, want=('eq', 'sign'), timeout=None):
    """-> (status, backend, secs, detail)"""
    timeout = timeout or TIMEOUT
    t0 = time.time()
    goal = z3.simplify(goal)
    if z3.is_true(goal):
        return 'proved', 'z3-simplify', time.time() - t0, ''
    if z3.is_and(goal) and goal.num_args() <= 60:
        worst = ('proved', 'z3', 0.0, '')
        rank = {'proved': 0, 'unknown': 1, 'failed': 2}
        for g in goal.children():
            r = check(pc, g, want, timeout)
            if rank[r[0]] > rank[worst[0]]:
                worst = r
        return worst[0], worst[1], time.time() - t0, worst[3]
    s = z3.Solver()
    s.set('timeout', timeout)
    for c in pc:
        s.add(c)
    neg = z3.Not(goal)
    s.add(neg)
    exprs = list(pc) + [goal]
    UNSURE[0] = False
    r = s.check()
    if r == z3.unsat:
        return 'proved', 'z3', time.time() - t0, ''
    ax = axioms(exprs)
    for a in ax:
        s.add(a)
    if ax:
        r = s.check()
        if r == z3.unsat:
            return 'proved', 'z3', time.time() - t0, ''
    lem = sum_lemmas(list(pc) + ax, [goal] + list(pc), want=want)
    if lem:
        for l in lem:
            s.add(l)
        for a in axioms(lem):
            s.add(a)
        r = s.check()
        if r == z3.unsat:
            return 'proved', 'z3', time.time() - t0, ''
    # polynomial identity (z3 som normal form) for equalities
    if z3.is_eq(goal) and goal.arg(0).sort() == REAL:
        d = z3.simplify(goal.arg(0) - goal.arg(1), som=True, mul_to_power=False)
        if z3.is_rational_value(d) and d.as_fraction() == 0:
            return 'proved', 'z3-som', time.time() - t0, ''
    if r == z3.unknown:
        rr = cvc5_check(s)
        if rr == 'unsat':
            return 'proved', 'cvc5', time.time() - t0, ''
        if rr == 'sat':
            return 'failed', 'cvc5', time.time() - t0, 'cvc5: sat; goal %s' % short(goal)
        return 'unknown', 'z3', time.time() - t0, 'unknown: %s' % short(goal)
    if UNSURE[0]:
        return 'unknown', 'z3', time.time() - t0, 'lemmas incomplete: %s' % short(goal)
    m = s.model()
    det = 'counter-model for %s :: %s' % (short(goal), short_model(m))
    return 'failed', 'z3', time.time() - t0, det


def short(e, n=600):
    t = e.sexpr().replace('\n', ' ')
    t = ' '.join(t.split())
    return t[:n]


def short_model(m, n=600):
    try:
        t = ', '.join('%s=%s' % (d.name(), m[d]) for d in m.decls() if d.arity() == 0)
    except Exception:
        t = '?'
    return t[:n]


def cvc5_check(solver, tlimit=8000):
    try:
        import cvc5
        smt = '(set-logic ALL)\n' + solver.to_smt2()
        slv = cvc5.Solver()
        slv.setOption('tlimit-per', str(tlimit))
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, smt, 'q')
        sm = p.getSymbolManager()
        res = 'unknown'
        while True:
            cmd = p.nextCommand()
            if cmd.isNull():
                break
            o = cmd.invoke(slv, sm)
            o = str(o).strip()
            if o in ('sat', 'unsat', 'unknown'):
                res = o
        return res
    except Exception:
        return 'unknown'


def prove(name, goal, want=('eq', 'sign')):
    """record an obligation under the current path condition"""
    c = ctx()
    if isinstance(goal, (bool, core._np.bool_)):
        goal = z3.BoolVal(bool(goal))
    elif isinstance(goal, SBool):
        goal = goal.t
    elif not z3.is_expr(goal):
        raise Unsupported('goal is not a formula: %r' % (goal,))
    st, be, secs, det = check(c.pc + c.axioms, goal, want)
    c.obls.append((name, st, be, secs, det))
    return st == 'proved'


def provable(goal, timeout=3000):
    c = ctx()
    if isinstance(goal, bool):
        return goal
    g = goal.t if isinstance(goal, SBool) else goal
    return check(c.pc + c.axioms, g, want=('eq',), timeout=timeout)[0] == 'proved'


def fail(name, detail):
    ctx().obls.append((name, 'failed', 'structural', 0.0, detail))


def cover(name):
    """vacuity check: the path condition must be satisfiable"""
    c = ctx()
    t0 = time.time()
    r = c.solver.check()
    if r == z3.sat:
        c.obls.append((name, 'proved', 'z3-cover', time.time() - t0, ''))
    elif r == z3.unknown:
        c.obls.append((name, 'unknown', 'z3-cover', time.time() - t0, 'cover unknown'))
    else:
        c.obls.append((name, 'failed', 'z3-cover', time.time() - t0, 'vacuous path'))


def member_lemmas(app, idx, pc):
    """for a sum of pointwise non-negative terms: body(idx) <= sum, and the body of
    inner sums likewise; idx: candidate indices for the binders, in any order"""
    import itertools
    out = []
    if sums.REG[app.decl().name()]['op'] != 'sum':
        return out
    bs, body = sums.open_sum(app)
    s = z3.Solver()
    s.set('timeout', 2000)
    for c in pc:
        s.add(c)
    for b, r in bs:
        s.add(b >= 0, b < r)
    for x in axioms([body]):
        s.add(x)
    for l in sum_lemmas(list(pc) + [z3.And(b >= 0, b < r) for b, r in bs], [body]):
        s.add(l)
    s.add(z3.Not(body >= 0))
    if s.check() != z3.unsat:
        return out
    for perm in itertools.permutations(idx, len(bs)):
        sub = list(zip([b for b, _ in bs], perm))
        inst = z3.substitute(body, *sub)
        rngs = [z3.And(p >= 0, p < z3.substitute(r, *sub)) for (_, r), p in zip(bs, perm)]
        out.append(z3.Implies(z3.And(*rngs), z3.And(inst <= app, inst >= 0)))
        for a in sums.sum_apps(inst):
            out += member_lemmas(a, idx, list(pc) + rngs)
    return out


def combo(expr):
    """linear combination of sums over one common range -> (binders, body) or None"""
    expr = sums.expand(expr)
    parts = []
    bind = None
    for t in sums._addends(expr):
        fs = sums._factors(t)
        ap = [f for f in fs if sums.is_sum(f) and sums.REG[f.decl().name()]['op'] == 'sum']
        if len(ap) != 1:
            return None
        co = sums.prod([f for f in fs if f.get_id() != ap[0].get_id()])
        bs, body = sums.open_sum(ap[0])
        parts.append((co, bs, body))
        if bind is None:
            bind = bs
        elif len(bs) != len(bind):
            return None
    if not parts:
        return None
    tot = z3.RealVal(0)
    import itertools
    for co, bs, body in parts:
        ok = None
        for perm in itertools.permutations(range(len(bs))):
            if all(z3.simplify(bs[k][1] == bind[j][1]).eq(z3.BoolVal(True)) or bs[k][1].eq(bind[j][1])
                   for j, k in enumerate(perm)):
                ok = perm
                break
        if ok is None:
            return None
        tot = tot + co * z3.substitute(body, *[(bs[k][0], bind[j][0]) for j, k in enumerate(ok)])
    return bind, tot


def combo_members(expr, idx, pc, depth=0):
    """sum lemma for expr = sum of pointwise non-negative terms: expr >= each term;
    recursively for the square roots inside the terms"""
    import itertools
    out = []
    if depth > 3:
        return out
    roots = [expr]
    acc = []
    apps_of(expr, lambda a: a.decl().name() == 'sqrt', acc, set())
    roots += [a.arg(0) for a in acc]
    for e in roots:
        e0 = e
        facs = sums._factors(sums.expand(e)) if len(sums._addends(sums.expand(e))) == 1 else [e]
        cands = [e] + [f for f in facs]
        # strip binder free positive factors: c * (sum combination)
        ex = sums.expand(e)
        ads = [sums._factors(t) for t in sums._addends(ex)]
        common = [f for f in ads[0] if all(any(g.get_id() == f.get_id() for g in a) for a in ads)
                  and not sums.is_sum(f) and not z3.is_rational_value(f)]
        if common:
            red = None
            for a in ads:
                a = list(a)
                for c in common:
                    k = [i for i, g in enumerate(a) if g.get_id() == c.get_id()][0]
                    a.pop(k)
                red = sums.prod(a) if red is None else red + sums.prod(a)
            out.append(e0 == sums.prod(common) * red)
            cands = [red]
        for x in cands:
            cb = combo(x)
            if cb is None:
                continue
            bs, body = cb
            s = z3.Solver()
            s.set('timeout', 3000)
            for c in pc:
                s.add(c)
            for b, r in bs:
                s.add(b >= 0, b < r)
            for l in axioms([body]):
                s.add(l)
            s.add(z3.Not(body >= 0))
            if s.check() != z3.unsat:
                continue
            out.append(x >= 0)
            for perm in itertools.permutations(idx, len(bs)):
                sub = list(zip([b for b, _ in bs], perm))
                inst = z3.substitute(body, *sub)
                rngs = [z3.And(p >= 0, p < z3.substitute(r, *sub)) for (_, r), p in zip(bs, perm)]
                out.append(z3.Implies(z3.And(*rngs), z3.And(inst <= x, inst >= 0)))
                out += combo_members(inst, idx, list(pc) + rngs, depth + 1)
    return out
