"""C11: seeds reach and results come from exactly the declared variables."""
import ctx as CX, model
import terms as T
from terms import num, const_of, toP, ZERO, ONE, atom, add, sub, mul, atom_of, isP, TRUE, FALSE
from load import AnalysisBroken
from report import Report
from equal import equal, settle, show_region
from checks.tape import std_params

NAMES = [n for n in CX.SWEEPS if n.startswith(('fos_', 'fov_', 'hos_', 'hov_', 'int_'))]

def layout(name):
    """(indices of the seed array, indices of the result array) of one variable v, direction l, coefficient c"""
    fwd = 'reverse' not in name
    if fwd:
        if name.startswith('fos'): s = 'v'
        elif name.startswith('hos'): s = 'vc'
        elif name.startswith('hov'): s = 'vlc'
        else: s = 'vl'
        return s, s
    if name.startswith('fos'): return 'v', 'v'
    if name.startswith('hos_ti'): return 'vc', 'vc'
    if name.startswith('hos_ov'): return 'vc', 'lvc'
    if name.startswith('hov'): return 'lvc', 'lvc'
    return 'lv', 'lv'

def ld(base, ix):
    x = ('sym', base)
    for i in ix: x = ('ld', ('at', x), toP(i))
    return atom(x)

def address(base, ix):
    x = ('sym', base)
    for i in ix[:-1]: x = ('ld', ('at', x), toP(i))
    return ('at', x), toP(ix[-1])

def null(a):
    """array pointers handed in by the caller are not null"""
    if a[0] == 'eq' and isinstance(a[1], tuple) and a[1] and a[1][0] == 'pp' and ('null',) in a[1] and any(y[0] == 'sym' for y in a[1][1:] if isinstance(y, tuple) and y): return FALSE
    if a[0] == 'eq' and isP(a[1]):
        x = atom_of(a[1])
        if x is not None and x[0] == 'sym': return FALSE
    return None

def isnull(a):
    return TRUE if null(a) is not None else None

def nested(v):
    def f(a):
        if a[0] == 'eq' and isP(a[1]):
            x = atom_of(a[1])
            if x is not None and 'nestedReverseEval' in str(x): return FALSE if v else TRUE
        return None
    return f

def stores(b, base):
    out = {}
    for (r, o), v in b.st.mem.items():
        if (r, o) in b.st.wlog and isinstance(r, tuple) and any(y == ('sym', base) for y in T.atoms(r)): out[(r, toP(o))] = toP(v)
    return out

def c11():
    rep = Report('C11', 'value numbering of the sections for independents and dependents of every derivative evaluator; loads from and stores to the caller\'s arrays compared with the documented layout index by index')
    cx = CX.Ctx(NAMES)
    rep.rule('seed', 'variable v, direction l, coefficient c is seeded from exactly the documented element of the array handed in')
    rep.rule('result', 'the documented element of the result array receives coefficient c of direction l of variable v, nothing else is stored')
    rep.rule('order', 'the variable counter starts at the first (last) variable and moves by one per declaration')
    for name in NAMES:
        rev = 'reverse' in name
        pr = dict(std_params(name))
        dirs = 1 if name.startswith(('fos', 'hos_ti', 'hos_forward')) else 2
        pr.update(p=dirs, nrows=dirs)
        nc = 1
        if name.startswith('ho'):
            for d in ('degre', 'gdegree', 'gdegre'): pr[d] = 2
            nc = 3 if rev else 2
        S = cx.sweep(name, **pr)
        R = model.Roles(S, cx.codes)
        if not R.tab: raise AnalysisBroken('%s: derivative arrays not found' % name)
        rep.count('interpreters')
        flat = R.tab[0][0] == 'flat'
        off = atom(('sym', 'offset')) if 'offset' in name else ZERO
        width = nc + 1 if rev and name.startswith('ho') else nc
        def cell(x, l, c):
            if flat: return ('tc0', x)
            return ('tc0', x, num(l * width + c + (1 if width > nc else 0)))
        def mark(x, l): return ('tc0', x, num(l * width))
        seed, res = layout(name)
        def path(s, v, l, c): return [{'v': v, 'l': add(num(l), off), 'c': num(c)}[k] for k in s]
        ops = [('assign_ind', 'indexi'), ('assign_dep', 'indexd')]
        if 'ref_assign_ind' in cx.codes: ops.append(('ref_assign_ind', 'indexi'))
        for on, ctr in ops:
            code = cx.codes.get(on)
            if code is None or code not in S.labels: continue
            key = '%s:%s' % (name, on)
            b = model.bound_run(S, R, [model.mkop(code, [atom(('loc', 'x'))])])
            line = S.tu.loc(S.labels[code][1])
            if b.err:
                if b.err.startswith('unsupported'): rep.skip(key, b.err)
                else: rep.count('refused')
                continue
            x = atom(('loc', 'x'))
            if on == 'ref_assign_ind':
                ls = {k[1] for k in b.final if k[0] == 'tc0'}
                if len(ls) != 1: rep.skip(key, 'no single location addressed'); continue
                x = ls.pop()
            v = atom(('h', ctr))
            got = {k: w for k, w in b.final.items() if k[0] == 'tc0'}
            base = 'argument' if not rev else 'lagrange'
            out = 'taylors' if not rev else 'results'
            ok = ('ld', 'tc0', 'h', 'sym', 'tapefld', 'at', 'stat')
            def same(have, want, fs, what, k):
                r = equal(have, want, given=fs, ok=ok)
                if r is None: rep.skip(k, 'not modelled: %s / %s' % (T.show(have)[:150], T.show(want)[:150])); return
                rep.check(r is True, k, lambda: '%s: %s is %s, the documented one is %s (%s)' % (line, what, T.show(r[1])[:200], T.show(r[2])[:200], show_region(r[0])),
                          '%s: %s = %s' % (k, what, T.show(want)[:80]))
            # counters
            h = ('h', ctr)
            if h not in S.hv: rep.skip(key, 'no running counter'); continue
            r_, o_ = S.hv[h]
            nxt = b.st.mem.get((r_, o_))
            same(toP(nxt), add(v, num(-1 if rev else 1)), (), 'the counter after one variable', key + ':order')
            first = S.h0.get(h)
            if on != 'ref_assign_ind' and first is not None:
                n = ['indep', 'depen'][ctr == 'indexd']
                good = [ZERO] if not rev else [add(atom(('sym', n)), num(-1)), add(atom(('stat', num(0 if ctr == 'indexi' else 1))), num(-1))]
                rep.check(toP(first) in good, key + ':first', lambda: '%s: counting of the variables starts at %s' % (line, T.show(first)))
            # everything else
            if (on != 'assign_dep') != rev:
                # seeds
                for l in range(dirs):
                    for c in range(nc):
                        k = cell(x, l, c)
                        want = ld(base, path(seed, v, l, c))
                        if rev:
                            old = atom(k)
                            want = T.bor(want, old) if name.startswith('int') else add(want, old)
                        same(got.get(k, atom(k)), want, (), 'coefficient %d, direction %d of the variable' % (c, l), key)
                    if width > nc:
                        m = got.get(mark(x, l), atom(mark(x, l)))
                        lags = [ld(base, path(seed, v, l, c)) for c in range(nc)]
                        for m0 in (0, 1):
                            mm = T.subst(m, {mark(x, l): num(m0)})
                            want = ZERO if m0 == 0 else ONE
                            if m0 == 0:
                                for g in lags: want = atom(('ite', T.c_eq0(g), want, ONE))
                            same(atom(('ite', T.c_eq0(mm), ZERO, ONE)), want, (), 'whether direction %d counts as active (before: %d)' % (l, m0), key + ':mark')
                extra = [k for k in got if k[1] == x and not any(k == cell(x, l, c) for l in range(dirs) for c in range(nc)) and not (width > nc and any(k == mark(x, l) for l in range(dirs)))]
                other = [k for k in got if k[1] != x]
                rep.check(not other, key + ':other', lambda: '%s: declaring a variable changes the coefficients of location %s' % (line, T.show(other[0][1])))
                for k in extra: rep.skip(key, 'coefficient index %s' % (T.show(k[2]) if len(k) > 2 else '-'))
            else:
                st = stores(b, out)
                want = {}
                for l in range(dirs):
                    for c in range(nc):
                        want[address(out, path(res, v, l, c))] = (l, c)
                for a in st:
                    rep.check(a in want, key + ':extra', lambda: '%s: stores to %s[%s], which belongs to no coefficient of this variable' % (line, T.show(a[0])[:120], T.show(a[1])))
                for a, (l, c) in want.items():
                    if a not in st:
                        rep.check(False, key, '%s: %s[%s] never receives coefficient %d, direction %d of the variable' % (line, T.show(a[0])[:120], T.show(a[1]), c, l)); continue
                    k = cell(x, l, c)
                    same(st[a], atom(k), (null, nested(False)), 'element %s[%s]' % (T.show(a[0])[:100], T.show(a[1])), key)
                    if not rev:
                        same(st[a], atom(('ld',) + a), (isnull,), 'element %s[%s] of an array not asked for' % (T.show(a[0])[:100], T.show(a[1])), key + ':null')
                    elif 'nestedReverseEval' in str(st[a]) and not name.startswith('int'):
                        same(st[a], add(atom(('ld',) + a), atom(k)), (null, nested(True)), 'element %s[%s] of a nested sweep' % (T.show(a[0])[:100], T.show(a[1])), key + ':nested')
                    if rev:
                        same(got.get(k, atom(k)), ZERO, (), 'the adjoint before an independent assignment (coefficient %d, direction %d)' % (c, l), key + ':clear')
                if rev and width > nc:
                    for l in range(dirs):
                        same(got.get(mark(x, l), atom(mark(x, l))), ZERO, (), 'the activity mark before an independent assignment', key + ':clear')
                    nz = stores(b, 'nonzero')
                    for l in range(dirs):
                        a = address('nonzero', [num(l), v])
                        if a in nz: same(nz[a], T.fn('trunc', atom(mark(x, l))), (null,), 'nonzero[%d][%s]' % (l, ctr), key + ':nonzero')
                    for a in nz:
                        rep.check(a in [address('nonzero', [num(l), v]) for l in range(dirs)], key + ':nonzero', lambda: '%s: stores to %s[%s]' % (line, T.show(a[0]), T.show(a[1])))
                if not rev:
                    rep.check(not got, key + ':other', lambda: '%s: delivering a result changes coefficients' % line)
    rep.floor(250)
    return rep.finish()

CHECKS = {'C11': c11}
