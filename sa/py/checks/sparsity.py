"""C10: bit pattern propagation."""
import ctx as CX, model, calc
import terms as T
from terms import num, const_of, toP, ZERO, ONE, atom, add, atom_of, isP
from load import AnalysisBroken
from report import Report
from equal import regions, show_region
from checks.tape import std_params, REFUSED
from checks.derivs import runs_of, is_leaf, reverse_run, NONSMOOTH

PATTERN = ['int_forward_tight', 'int_forward_safe', 'int_reverse_tight', 'int_reverse_safe']
WORDS = 2
INPUT = ('assign_ind', 'ref_assign_ind', 'assign_dep', 'subscript_ref')

def bits(t, R):
    """set of (location, word) a pattern is the union of; None when it is something else"""
    t = toP(t)
    if t == ZERO: return frozenset()
    a = atom_of(t)
    if a is None: return None
    if a[0] == 'tc0' and len(a) == 3: return frozenset([(a[1], a[2])])
    if a[0] == 'ld':
        k = R.canon(a[1], a[2])
        if k is not None and k[0] == 'tc0' and len(k) == 3: return frozenset([(k[1], k[2])])
    if a[0] == 'or':
        r = frozenset()
        for x in a[1]:
            s = bits(x, R)
            if s is None: return None
            r |= s
        return r
    return None

def rows(a):
    """rows of the pattern array are not null"""
    if a[0] == 'eq' and isinstance(a[1], tuple) and a[1] and a[1][0] == 'pp' and ('null',) in a[1] and 'myalloc' in str(a[1]) and "'ite'" not in str(a[1]): return T.FALSE
    return None

def leaves(t, conds):
    """locations a value is made of, with or without those only a condition looks at"""
    out = set()
    def go(t):
        for m, c in toP(t)[1]:
            for a, e in m:
                if is_leaf(a): out.add(a[1])
                elif a[0] == 'ite':
                    if conds: go_any(a[1])
                    go(a[2]); go(a[3])
                elif a[0] in ('fn', 'inv'):
                    for x in a[1:]:
                        if isP(x): go(x)
                else: go_any(a)
    def go_any(a):
        for x in T.atoms(a):
            if is_leaf(x): out.add(x[1])
    go(t)
    return out

def c10():
    rep = Report('C10', 'value numbering of the bit-pattern sections; the locations whose bits reach a pattern compared with the support of the symbolic derivative of the recorded value numbers')
    cx = CX.Ctx(PATTERN)
    runs = runs_of(cx, rep)
    rep.rule('covers', 'the pattern of a result contains the pattern of every operand its derivative depends on (tight: at the point considered; safe: at any point)')
    rep.rule('exact', 'the pattern of a result contains no pattern of a location that is not an operand')
    rep.rule('words', 'every word of the pattern is treated alike')
    for name in PATTERN:
        rev = 'reverse' in name
        tight = name.endswith('tight')
        S = cx.sweep(name, **dict(std_params(name), p=WORDS, nrows=WORDS))
        R = model.Roles(S, cx.codes)
        if not R.tab or R.tab[0][0] != 'row': raise AnalysisBroken('%s: pattern array not found' % name)
        rep.count('interpreters')
        for ops, final, cond, cname, fname, c in runs:
            ns = [cx.names[o.code] for o in ops]
            if any(n in REFUSED.get(name, ()) or o.code not in S.labels for o, n in zip(ops, ns)): continue
            if any(n in INPUT for n in ns): continue
            key = '%s:%s:%s' % (name, fname, '+'.join(ns))
            line = S.tu.loc(S.labels[ops[-1].code][1])
            if rev:
                b = reverse_run(S, R, ops, final, c.push if c is not None else []) if tight else model.bound_run(S, R, ops)
            else: b = model.bound_run(S, R, ops)
            if b.err:
                if b.err.startswith('unsupported'): rep.skip(key, b.err)
                else: rep.count('sections that end in an error')
                continue
            rep.count('replayed records')
            ties = not any(n in NONSMOOTH for n in ns)
            aux = {o.locs[1] for o in ops if cx.names[o.code] in ('sin_op', 'cos_op')}
            got = {}
            for k, v in b.final.items():
                if k[0] == 'tc0':
                    if len(k) == 3 and const_of(k[2]) in range(WORDS): got[k[1:]] = v
                    else: rep.skip(key, 'word index %s' % T.show(k[2]))
            grads = {}
            try:
                for l, F in final.items(): grads[l] = {a[1]: p for a, p in calc.grad(F, is_leaf).items()}
            except calc.NoDerivative as ex:
                rep.skip(key, 'no derivative rule for %s' % ex); continue
            struct = {l: leaves(F, not tight) for l, F in final.items()}
            js = {k[0] for k in got} | set(final) | {j for g in grads.values() for j in g}
            for j in sorted(js, key=T.key):
                if rev: flow = [(l, g[j]) for l, g in grads.items() if j in g]
                else: flow = sorted(grads.get(j, {}).items(), key=lambda x: T.key(x[0]))
                for w in range(WORDS):
                    have = got.get((j, num(w)), atom(('tc0', j, num(w))))
                    ts = [have] + [p for l, p in flow]
                    reg = regions(ts, tuple(cond if isinstance(cond, (tuple, list)) and not (cond and isinstance(cond[0], str)) else (cond,)) + (rows,), ties)
                    if reg is None: rep.skip(key, 'too many regions'); continue
                    always = {j} if (j not in final) else set()
                    if c is not None and 'alias' in cname: allow = None      # a cancelled operand leaves no trace in the value
                    else: allow = set(always) | ({l for l in final if j in struct[l]} if rev else struct.get(j, set())) | (aux if rev else set())
                    needs = []; haves = []
                    bad = False
                    for r, v in reg:
                        h = bits(v[0], R)
                        if h is None: bad = True; break
                        need = set(always) | {l for (l, p), q in zip(flow, v[1:]) if q != ZERO}
                        haves.append((r, h)); needs.append(need)
                    if bad: rep.skip(key, 'pattern of %s not modelled: %s' % (T.show(j), T.show(v[0])[:450])); continue
                    if not tight:
                        u = set().union(*needs) if needs else set()
                        needs = [u] * len(haves)
                    for (r, h), need in zip(haves, needs):
                        if rev: need = need - aux | (need & {j})
                        full = {(l, num(w)) for l in need}
                        miss = full - h
                        over = {x for x in h if x[1] != num(w) or (allow is not None and x[0] not in allow)}
                        rep.check(not miss, key, lambda: '%s: word %d of the pattern of location %s misses the pattern of %s after %s (%s)' % (
                            line, w, T.show(j), ', '.join(T.show(x[0]) for x in miss), cname, show_region(r)),
                            '%s: word %d of %s covers {%s}' % (key, w, T.show(j), ', '.join(sorted(T.show(x) for x in need))))
                        rep.check(not over, key + ':exact', lambda: '%s: word %d of the pattern of location %s takes word %s of %s, on which it does not depend, after %s (%s)' % (
                            line, w, T.show(j), T.show(list(over)[0][1]), T.show(list(over)[0][0]), cname, show_region(r)))
    rep.floor(1500)
    return rep.finish()

CHECKS = {'C10': c10}
