"""C24 traceless variables of higher order: value, tangents, Taylor coefficients and
dependency pattern of every overload that does not refuse."""
import itertools
import calc
import terms as T
from terms import num, const_of, toP, ZERO, ONE, atom, add, sub, mul, ite, c_lt0, c_eq0, c_not, isP
from absint import State, Unsupported, Dead, cell
from load import AnalysisBroken
from report import Report
from equal import equal, show_region
from checks import traceless as TLM
from checks.traceless import TL, V, kind, spec, aliases, place, given_of, nonzero_sum, gradient, canon, trig, overloads, patterns, lst, obj_pat, SMOOTH_OFF
from checks.higher import series, tc

NS = 'adtl_hov'
FILE = 'ADOL-C/src/adouble_tl_hov.cpp'
DIRS, DEG = 2, 5
L = tc(DEG)
SKIP = ('add_to_pattern', 'get_pattern', 'get_pattern_size', 'delete_pattern', 'makeNaN', 'makeInf', '~adouble', 'setNumDir', 'setDegree', 'setMode',
        '_do_val', '_do_adval', '_do_indo', '_do_hoval', 'frexp', 'getADValue', 'setADValue', 'getOneADValue', 'setOneADValue')

# what the class announces as not implemented for higher order
UNIMPLEMENTED = ('acos', 'acosh', 'asin', 'asinh', 'atan', 'atan2', 'atanh', 'cbrt', 'ceil', 'floor', 'fmax', 'fmin', 'log10', 'tan', 'tanh',
                 'adtl_hov::adouble::operator-(const double)', 'adtl_hov::operator+(const double, const adtl_hov::adouble &)', 'adtl_hov::pow(const adtl_hov::adouble &, const adtl_hov::adouble &)')

class HV(TL):
    deg = DEG
    def __init__(self, prog, tu, pats=None):
        super().__init__(prog, tu, pats)
        P = self.prims
        def rows(I, st, e, xs):
            self.nheap += 1
            h = self.nheap
            n = const_of(toP(self.ev_val(xs[0], st)))
            for k in range(int(n)):
                self.nheap += 1
                st.mem[(('heap', h), num(k))] = ('ptr', ('heap', self.nheap), ZERO)
            return ('ptr', ('heap', h), ZERO)
        def nop(I, st, e, xs): return ZERO
        P['myalloc2'] = rows
        P['myfree2'] = nop
        P['tgamma'] = P['std::tgamma'] = lambda I, st, e, xs: T.fn('tgamma', toP(self.ev_val(xs[0], st)))
        def leave(I, st, e, xs):
            self.exits.append(('exit', self.where(e[1]), st.assume, None)); raise Dead()
        for n in ('exit', 'abort', 'std::exit', 'std::abort'): P[n] = leave
    def e_new(self, e, st, *a):
        self.nheap += 1
        return ('ptr', ('heap', self.nheap), ZERO)
    def init_hook(self, st, lv):
        r, o = lv[1], lv[2]
        if r == ('glob', NS + '::adouble::numDir'): return num(DIRS)
        if r == ('glob', NS + '::adouble::degree'): return num(self.deg)
        if r[0] == 'adv': return atom(('ad', r, o))
        if r[0] == 'hor':
            k = const_of(o)
            return None if k is None else ('ptr', ('hoc', r[1], int(k)), ZERO)
        if r[0] == 'hoc':
            l = const_of(o)
            return None if l is None else L(('tl', r[1]), int(l), r[2])
        if r[0] == 'fld' and r[1][0] == 'obj':
            if r[3] == 'adval': return ('ptr', ('adv', self.name(r[1][1])), ZERO)
            if r[3] == 'ho_deriv': return ('ptr', ('hor', self.name(r[1][1])), ZERO)
        if r[0] == 'heap': return atom(('uninit', r, o))
        return super().init_hook(st, lv)

TLM.INTERPRETER[NS] = HV

def entry(I, st, lv, e):
    """entry of an object: ('val',), ('ad', l), ('ho', k, l)"""
    if lv[0] == 'itelv': return ite(lv[1], entry(I, st, lv[2], e), entry(I, st, lv[3], e))
    f = lambda n: I.load(st, cell(('fld', lv[1], lv[2], n)))
    if e[0] == 'val': return toP(f('val'))
    if e[0] == 'ad': return toP(I.load(st, I.deref(I.ptr_add(f('adval'), num(e[1])))))
    row = I.load(st, I.deref(I.ptr_add(f('ho_deriv'), num(e[1]))))
    return toP(I.load(st, I.deref(I.ptr_add(row, num(e[2])))))

def own(x, e):
    if e[0] == 'val': return V(x)
    if e[0] == 'ad': return atom(('ad', ('adv', x), num(e[1])))
    return L(('tl', x), e[2], e[1])

ENTRIES = [('val',)] + [('ad', l) for l in range(DIRS)] + [('ho', k, l) for l in range(DIRS) for k in range(DEG)]
def say(e): return {'val': 'value', 'ad': 'tangent in direction %d', 'ho': 'Taylor coefficient %d in direction %d'}[e[0]] % tuple(x + (i == 0 and e[0] == 'ho') for i, x in enumerate(e[1:]))

def wanted(kd, w, f, tu, ts):
    """{entry: term}"""
    out = {('val',): w}
    if kd == 'val':
        for e in ENTRIES[1:]: out[e] = own('this', e)
        return out
    if f.get('ctor') and not ts: return out
    if f.get('ctor') and len(ts) == 2: return out
    g = gradient(w)
    for l in range(DIRS):
        acc = ZERO
        for a, p in g.items(): acc = add(acc, mul(p, atom(('ad', ('adv', a[1][1]), num(l)))))
        out[('ad', l)] = acc
        for k, t in enumerate(series(w, L, DEG, l)): out[('ho', k, l)] = t
    return out

def c24():
    rep = Report('C24', 'value numbering of every overloaded operation of the traceless class of higher order; coefficients compared with the Taylor expansion of the named function, index lists by constant propagation over representative lists')
    prog = TLM.prog_for({NS: FILE})
    if FILE not in prog.tus: raise AnalysisBroken(FILE + ' is not part of the build')
    tu = prog.tus[FILE]
    rep.rule('value', 'the value of the result is the value of the named function at the operand values, in every pattern of operands being the same object')
    rep.rule('tangent', 'every first derivative of the result is the derivative of the named function applied to the operand tangents')
    rep.rule('coefficient', 'the Taylor coefficients of the result are those of the named function along the operand curves, degrees 1 to %d' % DEG)
    rep.rule('pattern', 'the index list of the result contains the indices of every operand the function depends on, and of operands only')
    rep.rule('access', 'accessors deliver and set exactly the value, direction or row asked for and reject directions that do not exist; index lists are merged, delivered and emptied whole')
    rep.rule('operands', 'operands that are not results keep value, tangents, coefficients and index list')
    rep.rule('refusal', 'an operation without coefficients ends the program or throws, at every operand, instead of returning, and no other does')
    done, refused = set(), set()
    for f, n in overloads(tu, NS):
        ts = [tu.decls[i]['t'] for i in f['ps']]
        if n in SKIP or 'stream' in ' '.join(ts): continue
        if any('*' in t for t in ts): continue
        sig = '%s(%s)' % (f['q'], ', '.join(ts))
        where = tu.loc(f['l'])
        method = bool(f.get('cls')) and not f.get('static')
        names = [tu.decls[i]['n'] for i in f['ps']]
        for al in aliases(f, tu):
            m = dict(al)
            tag = sig + (' with ' + ', '.join('%s the same object as %s' % (a, b) for a, b in al) if al else '')
            act = [x for x, t in zip(names, ts) if kind(t).endswith('adouble')] + (['this'] if method and not f.get('ctor') else [])
            vals = [V(m.get(x, x)) if kind(t).endswith('adouble') else atom(('sym', x)) for x, t in zip(names, ts)]
            this = V('this') if method and not f.get('ctor') else None
            want = spec(f, tu, n, ts, vals, this)
            if want is None:
                if f['rt'].endswith('adouble'): rep.skip(sig, 'no specification for this name')
                continue
            try: I, st, v = TLM.run(prog, tu, f, NS, al, {})
            except Dead: refused.add(sig); continue
            except Unsupported as ex: rep.skip(tag, '%s %s' % (where, ex)); continue
            done.add(sig)
            judge(rep, I, st, v, f, tu, n, ts, sig, tag, where, want, vals, act, m)
            patterns(rep, prog, tu, f, n, NS, sig, tag, where, want, al, sorted({m.get(x, x) for x in act}))
    for f, n in overloads(tu, NS):
        if n in ('getADValue', 'setADValue', 'getOneADValue', 'setOneADValue', 'getValue', 'setValue'): access(rep, prog, tu, f, n)
    TLM.pattern_access(rep, prog, NS, FILE)
    for s in sorted(refused):
        rep.count('refusing overloads')
        rep.check(s.split('(')[0].split('::')[-1] in UNIMPLEMENTED or s in UNIMPLEMENTED, s + ':refusal', '%s refuses every operand; it is implemented' % s, s)
    rep.count('overloads', len(done))
    rep.floor(200)
    return rep.finish()

def judge(rep, I, st, v, f, tu, n, ts, sig, tag, where, want, vals, act, m):
    this = V('this') if 'this' in act else None
    smooth = n not in SMOOTH_OFF
    results = set()
    gv = given_of(n, NS, vals, this) + (nonzero_sum,)
    for kd, w in want:
        if kd == 'cmp':
            r = equal(T.boolval(T.truth(toP(v))) if v is not None else ZERO, ite(w, ONE, ZERO), ok=('uninit',))
            rep.check(r is True, sig + ':cmp', lambda: '%s: %s returns %s, the comparison is %s' % (where, tag, T.show(toP(v))[:200], T.show(w)[:200]), tag)
            continue
        if kd == 'num':
            x = v
            if isinstance(x, tuple) and x and x[0] == 'lv': x = I.load(st, x[1])
            rep.check(equal(toP(x), w, ok=('uninit',)) is True, sig + ':value', lambda: '%s: %s returns %s instead of %s' % (where, tag, T.show(toP(x)), T.show(w)), tag)
            continue
        lv = place(I, st, kd, v, f, tu)
        if lv is None: rep.skip(tag, 'result object not found'); continue
        if kd in ('this', 'val'): results.add('this')
        elif kd == 'res': results.add(I.name(tu.decls[f['ps'][0]]['n']))
        try: W = wanted(kd, w, f, tu, ts)
        except calc.NoDerivative as ex: rep.skip(tag, 'no derivative rule for %s' % ex); continue
        for e in ENTRIES:
            if e not in W: continue
            have = entry(I, st, lv, e)
            r = equal(trig(canon(have)), trig(canon(W[e])), gv, ok=('uninit', 'ld', 'arg', 'tl', 'heap', 'tc0', 'adv'), ties=smooth or e[0] == 'val', regular=e[0] != 'val')
            if r is None or r is not True and any(w in str(have) for w in ("'trip'", "'phi'", "'last'")):
                rep.skip(tag, 'not modelled: %s / %s' % (T.show(have)[:150], T.show(W[e])[:150])); continue
            rep.check(r is True, '%s:%s' % (sig, {'val': 'value', 'ad': 'tangent', 'ho': 'coefficient'}[e[0]]), lambda: '%s: %s leaves the %s %s; the function gives %s (%s)' % (
                where, tag, say(e), T.show(r[1])[:250], T.show(r[2])[:250], show_region(r[0])), '%s: %s = %s' % (tag, say(e), T.show(W[e])[:80]))
    for x in sorted({m.get(x, x) for x in act} - results):
        for e in ENTRIES:
            have = entry(I, st, cell(('obj', x)), e)
            rep.check(have == own(x, e), sig + ':operands', lambda: '%s: %s changes operand %s: the %s becomes %s' % (where, tag, x, say(e), T.show(have)[:200]))

def access(rep, prog, tu, f, n):
    """accessors of value, tangents and rows of coefficients"""
    ts = [tu.decls[i]['t'] for i in f['ps']]
    sig, where = '%s(%s)' % (f['q'], ', '.join(ts)), tu.loc(f['l'])
    whole = lambda t: kind(t).split()[-1] in ('int', 'long', 'short', 'size_t') or 'int' in t or 'long' in t
    idx = [i for i, t in enumerate(ts) if '*' not in t and whole(t)]
    bound = DEG if 'One' in n else DIRS
    for p in range(bound + 1 if 'One' not in n else bound) if idx else (None,):
        I = HV(prog, tu); I.al = {}
        st = State()
        args = [('val', ('ptr', ('arg', tu.decls[d]['n']), ZERO)) if '*' in ts[k] else ('val', num(p)) if k in idx else ('val', atom(('sym', tu.decls[d]['n']))) for k, d in enumerate(f['ps'])]
        try: v = I.call_body(f, st, args, this=('ptr', ('obj', 'this'), ZERO))
        except Dead:
            rep.check(p == bound, sig + ':access', '%s: %s does not deliver %s of %s' % (where, sig, p, bound), sig); continue
        except Unsupported as ex: rep.skip(sig, str(ex)); return
        if p == bound:
            rep.check(False, sig + ':range', '%s: %s accepts direction %d of a variable with %d directions' % (where, sig, p, bound)); continue
        me = cell(('obj', 'this'))
        want = {e: own('this', e) for e in ENTRIES}
        arg = None if not ts or idx == [len(ts) - 1] else tu.decls[f['ps'][-1]]['n']
        src = lambda i: atom(('ld', ('arg', arg), num(i)))
        if n == 'setValue': want[('val',)] = atom(('sym', arg))
        if n == 'setADValue':
            for l in range(DIRS):
                if p is None: want[('ad', l)] = src(l)
                elif l == p: want[('ad', l)] = atom(('sym', arg))
        if n == 'setOneADValue':
            for l in range(DIRS): want[('ho', p, l)] = src(l)
        if n.startswith('get'):
            if n == 'getValue': res = [(v, V('this'))]
            elif n == 'getADValue' and p is not None: res = [(v, own('this', ('ad', p)))]
            else: res = [(('lv', I.deref(I.ptr_add(v, num(l)))), own('this', ('ad', l) if n == 'getADValue' else ('ho', p, l))) for l in range(DIRS)]
            for h, w in res:
                if isinstance(h, tuple) and h and h[0] == 'lv': h = I.load(st, h[1])
                rep.check(toP(h) == w, sig + ':access', lambda: '%s: %s delivers %s instead of %s' % (where, sig, T.show(toP(h)), T.show(w)), sig)
        for e in ENTRIES:
            have = entry(I, st, me, e)
            rep.check(have == want[e], sig + ':access', lambda: '%s: %s leaves the %s at %s instead of %s' % (where, sig, say(e), T.show(have), T.show(want[e])), sig)

CHECKS = {'C24': c24}
