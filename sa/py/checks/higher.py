"""C07, C08: Taylor coefficients of the higher order sweeps and their adjoints."""
import ctx as CX, model, calc
import terms as T
from terms import num, const_of, toP, ZERO, ONE, atom, add, mul, sub, neg, atom_of, isP
from load import AnalysisBroken
from report import Report
from equal import equal, show_region, same, gates, expand, settle, distinct, assume_cond
from checks.tape import std_params, REFUSED
from checks.derivs import runs_of, NONSMOOTH, pushes_of

# interpreter, degree, directions, keep
FORWARD = [('hos_forward', 3, 1, 0), ('hos_forward', 3, 1, 4), ('hov_forward', 2, 2, 0), ('hov_wk_forward', 2, 2, 3)]

def leaf(a): return a[0] in ('ad', 'tc0', 'tt')

# interpreter, degree, directions of the Taylor coefficients, weights
# the longest sequences of records (inverse functions with their derivative) at degree 2, the others at degree 3
LONG = 5
REVERSE = [('hos_ti_reverse', 3, 1, 1), ('hos_ti_reverse', 2, 1, 1), ('hos_ov_reverse', 2, 2, 2), ('hov_ti_reverse', 2, 1, 2)]

def series(F, l_of, deg, d, base=None):
    """Taylor coefficients 1..deg of F along x(t) = ad + sum l_of(., d, i) t^(i+1);
    base: number of the entry that l_of(., d, 0) is"""
    if base is None: base = d * deg
    out = []
    cur = F
    fact = 1
    for n in range(1, deg + 1):
        g = calc.grad(cur, leaf)
        acc = ZERO
        for a, p in g.items():
            if a[0] == 'ad': acc = add(acc, mul(p, l_of(a[1], d, 0)))
            else:
                i = int(const_of(a[2])) - base
                if i + 1 < deg: acc = add(acc, mul(mul(p, num(i + 2)), l_of(a[1], d, i + 1)))
                elif i + 1 >= deg and n < deg: raise AssertionError
        cur = acc
        fact *= n
        out.append(mul(num(T.Fraction(1, fact)), cur))
    return out

def tc(deg):
    return lambda l, d, i: atom(('tc0', l, num(d * deg + i)))

def eps_of(x, sign):
    """reverse sweeps treat a base below a tiny tolerance as zero: leave that strip out"""
    fx = T.fn('fabs', x)
    def f(c):
        if c[0] != 'lt': return None
        k = sum((v for m, v in c[1][1] if m == ()), T.Fraction(0))
        if not 0 < abs(k) < T.Fraction(1, 10 ** 10): return None
        rest = sub(c[1], num(k))
        for y, s in ((fx, 1), (x, sign)):
            if s and k > 0 and rest == mul(num(-s), y): return T.TRUE
            if s and k < 0 and rest == mul(num(s), y): return T.FALSE
            if s and k > 0 and rest == mul(num(s), y): return T.FALSE
            if s and k < 0 and rest == mul(num(-s), y): return T.TRUE
        return None
    return (f,) + ((T.c_lt0(mul(num(-sign), x)),) if sign else ())

def signs_of(ops, final, ns):
    """the polynomials that decide between the branches of non-smooth operations"""
    if not any(n in ('abs_val', 'min_op') for n in ns): return [((), '')]
    g = set()
    for v in final.values(): gates(toP(expand(v)), g)
    g = sorted((p for p in g if isP(p)), key=T.key)
    if not g or len(g) > 2: return [((), '')]
    out = [((), '')]
    for p in g:
        q = T.unP(p) if not isP(p) else p
        out = [(c + (T.c_lt0(mul(num(-s), q)), T.c_not(T.c_eq0(q))), w + ' %s %s 0' % (T.show(q), '>' if s > 0 else '<')) for c, w in out for s in (1, -1)]
    return out

def variants(ops, final, ns, deg, signs=False):
    """pow is analysed apart for a non-zero base and, at a zero base, per exponent;
    signs: apart for every branch of the non-smooth operations and sign of the base"""
    if 'pow_op' not in ns:
        if not signs: return [(ops, final, (), '', None)]
        out = []
        for c, w in signs_of(ops, final, ns):
            fs = (distinct,) + tuple(f for x in c for f in assume_cond(x))
            out.append((ops, {l: settle(toP(v), fs) for l, v in final.items()} if c else final, c, w, None))
        return out
    k = ns.index('pow_op')
    o = ops[k]
    x = atom(('ad', o.locs[0]))
    e = atom_of(o.vals[0])
    if e is None: return [(ops, final, (), '', None)]
    z = T.c_eq0(x)
    out = [(ops, final, (T.c_not(z),) + eps_of(x, s), ' base %s 0' % w, None) for s, w in (((1, '>'), (-1, '<')) if signs else ((0, '!='),))]
    for n in [num(i) for i in range(1, deg + 2)] + [num(T.Fraction(2 * i + 1, 2)) for i in range(deg)]:
        o2 = model.mkop(o.code, o.locs, [n], o.nvals)
        o2.pre, o2.where, o2.reserve, o2.taypos = o.pre, o.where, o.reserve, o.taypos
        f2 = {l: T.subst(v, {e: n}) for l, v in final.items()}
        lim = None if const_of(n).denominator == 1 else int(const_of(n))
        out.append((ops[:k] + [o2] + ops[k + 1:], f2, (z,), ' base == 0 exponent %s' % T.show(n), lim))
    return out

def coefficients(rep, S, R, variant, cond, key, cname, ns, deg, dirs, keep, c):
    """compare one replay with the expansion of what was recorded"""
    ops, final, given, what, lim = variant
    L = tc(deg)
    line = S.tu.loc(S.labels[ops[-1].code][1])
    b = model.bound_run(S, R, ops, given=given)
    if b.err:
        if b.err.startswith('unsupported'): rep.skip(key, b.err)
        else: rep.count('sections that end in an error')
        return
    rep.count('replayed records')
    cond = tuple(cond) + tuple(given)
    smooth = not any(n in NONSMOOTH for n in ns)
    got = {k[1:]: v for k, v in b.final.items() if k[0] == 'tc0'}
    for l in sorted({k[0] for k in got} | set(final), key=T.key):
        F = final.get(l, atom(('ad', l)))
        try: want = [series(F, L, deg, d) for d in range(dirs)]
        except calc.NoDerivative as ex: rep.skip(key, 'no derivative rule for %s' % ex); continue
        for d in range(dirs):
            for i in range(deg):
                if lim is not None and i + 1 > lim: continue
                have = got.get((l, num(d * deg + i)), L(l, d, i))
                w = want[d][i]
                r = equal(have, w, cond, ok=('tc0',), ties=smooth, regular=True)
                if r is None:
                    rep.skip(key, 'coefficient %d of %s not modelled: %s / %s' % (i + 1, T.show(l), T.show(have)[:150], T.show(w)[:150])); continue
                rep.check(r is True, key, lambda: '%s: after replaying what %s recorded%s, Taylor coefficient %d of location %s (direction %d) is %s; the Taylor expansion gives %s (%s)' % (
                    line, cname, what, i + 1, T.show(l), d, T.show(r[1])[:250], T.show(r[2])[:250], show_region(r[0])),
                    '%s%s: coefficient %d of %s = %s' % (key, what, i + 1, T.show(l), T.show(w)[:100]))
    if keep < 2: return
    push = pushes_of(ops, c)
    if push is None: return
    if b.pushes is None: rep.skip(key, 'number of saved values not constant'); return
    w = 1 + (keep - 1) * dirs
    ok = len(b.pushes) == w * len(push)
    rep.check(ok, key + ':kept', lambda: '%s: replaying what %s recorded saves %d numbers, %d operands are overwritten with %d coefficients each' % (line, cname, len(b.pushes), len(push), w))
    if not ok: return
    for i, x in enumerate(push):
        a = atom_of(toP(x))
        if a is None or a[0] != 'ad': continue
        exp = [toP(x)] + [L(a[1], d, j) for d in range(dirs) for j in range(keep - 1)]
        for j, e in enumerate(exp):
            h = b.pushes[w * i + j]
            r = None if h is None else equal(h, e, cond, ok=('tc0',))
            if r is None: rep.skip(key, 'saved number not modelled'); continue
            rep.check(r is True, key + ':kept', lambda: '%s: replaying what %s recorded saves %s where coefficient %d of location %s before the operation belongs' % (
                line, cname, T.show(r[1])[:150], j, T.show(a[1])))

def c07():
    rep = Report('C07', 'value numbering of recorders and higher order forward sections with constant degree; truncated Taylor expansion of the recorded value numbers; normal forms compared region by region')
    cx = CX.Ctx(sorted({n for n, *_ in FORWARD}))
    runs = runs_of(cx, rep)
    rep.rule('coefficient', 'coefficient i of every location after the section is the i-th Taylor coefficient of the recorded value function along the coefficients before the section, in every direction')
    rep.rule('kept', 'with Taylor coefficients kept, the value and the requested coefficients of every location the operation overwrites are saved in the order the recording saves values')
    for name, deg, dirs, keep in FORWARD:
        S = cx.sweep(name, **dict(std_params(name), gdegree=deg, p=dirs, keep=keep))
        R = model.Roles(S, cx.codes)
        if R.val is None or not R.tab: raise AnalysisBroken('%s: value and coefficient arrays not found' % name)
        rep.count('interpreter instances')
        for ops, final, cond, cname, fname, c in runs:
            ns = [cx.names[o.code] for o in ops]
            if any(n in REFUSED.get(name, ()) or o.code not in S.labels for o, n in zip(ops, ns)): continue
            if any(n in ('assign_ind', 'ref_assign_ind', 'subscript_ref') for n in ns): continue
            key = '%s:%s:%s' % (name, fname, '+'.join(ns))
            for v in variants(ops, final, ns, deg):
                coefficients(rep, S, R, v, cond, key, cname, ns, deg, dirs, keep, c)
    rep.floor(1500)
    return rep.finish()

def header_cases(name, locs, weights):
    """which adjoint rows are marked zero: per location and weight"""
    every = [(l, w) for l in locs for w in range(weights)]
    yield ' all adjoints set', set()
    yield ' all adjoints zero', set(every)
    if weights > 1 and name.startswith('hov_'):       # weights are independent of each other
        yield ' first weight zero', {x for x in every if x[1] == 0}
        yield ' last weight zero', {x for x in every if x[1] == weights - 1}
    if len(locs) > 1:
        yield ' only the last result set', {x for x in every if x[0] != locs[-1]}
        yield ' only the first result set', {x for x in every if x[0] != locs[0]}

def adjoint_series(rep, S, R, variant, cond, key, cname, ns, name, k, dirs, weights, push, codes_aux):
    ops, final, given, what, lim = variant
    line = S.tu.loc(S.labels[ops[-1].code][1])
    smooth = not any(n in NONSMOOTH for n in ns)
    k1 = k + 1
    zero_base = {}
    if what.startswith(' base =='):
        x = ops[ns.index('pow_op')].locs[0]
        zero_base = {('ad', x): ZERO}
    TL = lambda l, d, i: atom(('tt', l, num(d * k + i + 1)))     # i-th higher coefficient
    def ser(F, d): return [F] + series(F, TL, k - 1, d, base=d * k + 1)
    try:
        after = {l: [ser(F, d) for d in range(dirs)] for l, F in final.items()}
        saved = []
        for x in push:
            q = [ser(toP(x), d) for d in range(dirs)]
            saved += [q[0][0]] + [q[d][i] for d in range(dirs) for i in range(1, k)]
        jac = {}
        for l, F in final.items():
            for a, g in calc.grad(F, lambda a: a[0] == 'ad').items():
                jac[(l, a[1])] = [ser(g, d) for d in range(dirs)]
    except calc.NoDerivative as ex:
        rep.skip(key, 'no derivative rule for %s' % ex); return
    if zero_base:
        z = lambda t: T.subst(t, zero_base)
        saved = [z(t) for t in saved]
        after = {l: [[z(t) for t in row] for row in rows] for l, rows in after.items()}
        jac = {l: [[z(t) for t in row] for row in rows] for l, rows in jac.items()}
        given = ()
    locs = sorted([l for l in final if l not in codes_aux], key=T.key)
    for hn, zero in header_cases(name, locs, weights):
        pre = {(R.trow(a[1]), num(d * k)): v for a, v in zero_base.items() for d in range(dirs)}
        for l, rows in after.items():
            for d in range(dirs):
                for i in range(k): pre[(R.trow(l), num(d * k + i))] = rows[d][i]
        g = list(given)
        for l in final:
            for w in range(weights):
                if (l, w) in zero or l in codes_aux:
                    for j in range(k1): pre[(R.arow(l), num(w * k1 + j))] = ZERO
                else:
                    h = atom(('tc0', l, num(w * k1)))
                    g += [T.c_not(T.c_eq0(h)), T.c_lt0(neg(h))]
        def A(l, w, i):
            if (l, w) in zero or l in codes_aux: return ZERO
            return atom(('tc0', l, num(w * k1 + 1 + i)))
        b = model.bound_run(S, R, ops, pre=pre, ty=list(reversed(saved)), given=g)
        if b.err:
            if b.err.startswith('unsupported'): rep.skip(key, b.err)
            else: rep.count('sections that end in an error')
            return
        rep.count('replayed records')
        cnd = tuple(cond) + tuple(g)
        npop = equal(b.pops, num(len(saved)), cnd)
        if npop is None: rep.skip(key, 'number of values taken not modelled'); return
        if not rep.check(npop is True, key + ':pops', lambda: '%s: reversing what %s recorded takes %s saved numbers, %d were saved' % (line, cname, T.show(b.pops), len(saved))): return
        st = model.stale(b.st)
        if not rep.check(not st, key + ':pointer', lambda: '%s: reversing what %s recorded%s,%s, writes through %s, left behind by an earlier operation' % (line, cname, what, hn, ', '.join(st))): return
        got = {}
        blur = set()
        for c, v in b.final.items():
            if c[0] != 'tc0': continue
            got[c[1:]] = v
            if len(c) > 2 and const_of(toP(c[2])) is None: blur.add(c[1])
        js = sorted({c[0] for c in got} | set(final) | {j for l, j in jac}, key=T.key)
        for j in js:
            for w in range(weights):
                d = w if dirs == weights else 0
                for i in range(k):
                    if lim is not None and i + 1 >= lim: continue
                    if j in blur: rep.skip(key, 'adjoint index not constant'); continue
                    want = A(j, w, i) if j not in final else ZERO
                    for l in final:
                        e = jac.get((l, j))
                        if e is None: continue
                        for m in range(i + 1): want = add(want, mul(e[d][m], A(l, w, i - m)))
                    have = got.get((j, num(w * k1 + 1 + i)), A(j, w, i))
                    r = equal(have, want, cnd, ok=('tc0', 'tt'), ties=smooth, regular=True)
                    if r is None:
                        rep.skip(key, 'adjoint coefficient %d of %s not modelled: %s / %s' % (i, T.show(j), T.show(have)[:150], T.show(want)[:150])); continue
                    rep.check(r is True, key, lambda: '%s: reversing what %s recorded%s,%s, leaves adjoint coefficient %d of location %s (weight %d) at %s; the transposed chain rule gives %s (%s)' % (
                        line, cname, what, hn, i, T.show(j), w, T.show(r[1])[:250], T.show(r[2])[:250], show_region(r[0])),
                        '%s%s%s: A(%s)[%d] = %s' % (key, what, hn, T.show(j), i, T.show(want)[:100]))
        # locations that received something are marked; the headers of operands may be zero
        heads = {}
        for q in js:
            for w in range(weights):
                a = ('tc0', q, num(w * k1))
                heads[a] = ONE if q in final and not ((q, w) in zero or q in codes_aux) else ZERO
        for (l, j), e in sorted(jac.items(), key=lambda x: T.key(x[0])):
            for w in range(weights):
                if (l, w) in zero or l in codes_aux: continue
                h = toP(got.get((j, num(w * k1)), atom(('tc0', j, num(w * k1)))))
                h = T.subst(h, heads)
                d = w if dirs == weights else 0
                r = True
                for i in range(k):
                    con = ZERO
                    for m in range(i + 1): con = add(con, mul(e[d][m], A(l, w, i - m)))
                    r = equal(T.ite(T.c_eq0(h), con, ZERO), ZERO, cnd, ok=('tc0', 'tt'), ties=smooth, regular=True)
                    if r is not True: break
                if r is None: rep.skip(key, 'mark of %s not modelled: %s' % (T.show(j), T.show(h)[:150])); continue
                rep.check(r is True, key + ':mark', lambda: '%s: reversing what %s recorded%s,%s, can leave location %s marked as having no adjoint (mark %s) although it receives one (%s)' % (
                    line, cname, what, hn, T.show(j), T.show(h)[:150], show_region(r[0])))
        for l in sorted(final, key=T.key):
            for d in range(dirs):
                for i in range(k):
                    cell = (R.trow(l), num(d * k + i))
                    have = b.st.mem.get(cell, atom(('killed', cell)))
                    want = zero_base.get(('ad', l), atom(('ad', l))) if i == 0 else TL(l, d, i - 1)
                    r = equal(have, want, cnd, ok=('tc0', 'tt'))
                    if r is None: rep.skip(key, 'restored coefficient of %s not modelled: %s' % (T.show(l), T.show(have)[:150])); continue
                    rep.check(r is True, key + ':restore', lambda: '%s: reversing what %s recorded,%s, leaves Taylor coefficient %d of location %s (direction %d) at %s instead of its value before the operation (%s)' % (
                        line, cname, hn, i, T.show(l), d, T.show(r[1])[:200], show_region(r[0])))

def c08():
    rep = Report('C08', 'value numbering of recorders and higher order reverse sections with constant degree; truncated products of adjoint rows with the Taylor expansion of the symbolic derivative; normal forms compared region by region')
    cx = CX.Ctx([n for n, *_ in REVERSE])
    runs = runs_of(cx, rep)
    rep.rule('adjoint', 'adjoint coefficient i of location j becomes its old one (zero if the operation overwrites j) plus, for every result l, the i-th coefficient of the product of the adjoint row of l with the Taylor expansion of dF_l/dx_j')
    rep.rule('mark', 'a location that receives a contribution is marked as having an adjoint')
    rep.rule('restored', 'every saved Taylor coefficient of the operation is taken back exactly once and its location gets it')
    for name, deg, dirs, weights in REVERSE:
        k = deg + 1
        S = cx.sweep(name, **dict(std_params(name), degre=deg, nrows=weights, p=weights))
        R = model.HigherRoles(S, cx.codes, k, dirs)
        rep.count('interpreter instances')
        for ops, final, cond, cname, fname, c in runs:
            ns = [cx.names[o.code] for o in ops]
            if any(n in REFUSED.get(name, ()) or o.code not in S.labels for o, n in zip(ops, ns)): continue
            if any(n in ('assign_ind', 'ref_assign_ind', 'assign_dep', 'subscript_ref') for n in ns): continue
            if (name, deg) == ('hos_ti_reverse', 3) and len(ops) >= LONG: continue
            if (name, deg) == ('hos_ti_reverse', 2) and len(ops) < LONG: continue
            push = pushes_of(ops, c)
            if push is None: continue
            key = '%s:%s:%s' % (name, fname, '+'.join(ns))
            aux = {o.locs[1] for o in ops if cx.names[o.code] in ('sin_op', 'cos_op')}
            for v in variants(ops, final, ns, deg, True):
                adjoint_series(rep, S, R, v, cond, key, cname, ns, name, k, dirs, weights, push, aux)
    rep.floor(1500)
    return rep.finish()

CHECKS = {'C07': c07, 'C08': c08}
