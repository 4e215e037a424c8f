"""C09 traceless modes: value, tangents and dependency pattern of every overload."""
import itertools
import ctx as CX, load, calc, os, pickle
import terms as T
from terms import num, toP, ZERO, ONE, TRUE, FALSE, atom, add, sub, mul, neg, inv, fn, ite, c_lt0, c_eq0, c_not, isP
from algos import Algos
from absint import Interp, State, Unsupported, Dead, cell
from load import AnalysisBroken
from report import Report
from equal import equal, show_region
from checks.overload import UN, BIN, CMP, ASG, COND, expo, lt

DIRS = 2
TUS = {'adtl': 'ADOL-C/src/adouble_tl.cpp', 'adtl_indo': 'ADOL-C/src/adouble_tl_indo.cpp'}
SMOOTH_OFF = {'fabs', 'fmin', 'fmax', 'ceil', 'floor', 'condassign', 'condeqassign'}
POS = {'log', 'log10', 'sqrt'}

def std(n):
    def g(*a): return a
    return g

# representatives of an index list: ascending, without repetition
PATS = ((), (1,), (2,), (1, 3), (2, 3))

def lmap(f, *vs):
    """apply f to constant lists below gates"""
    for i, v in enumerate(vs):
        if isinstance(v, tuple) and v and v[0] == 'ite':
            return ite(v[1], lmap(f, *(vs[:i] + (v[2],) + vs[i + 1:])), lmap(f, *(vs[:i] + (v[3],) + vs[i + 1:])))
    for v in vs:
        if not (isinstance(v, tuple) and v and v[0] == 'list'): raise Unsupported('index list not constant')
    return f(*[v[1] for v in vs])
def lst(xs): return ('list', tuple(xs))
def lbool(v):
    """condition that a gated truth value holds"""
    if v[0] == 'ite': return T.c_or(T.c_and(v[1], lbool(v[2])), T.c_and(c_not(v[1]), lbool(v[3])))
    return TRUE if v[1] else FALSE

class TL(Algos, Interp):
    def __init__(self, prog, tu, pats=None):
        super().__init__(prog, tu)
        self.install_algos()
        self.pats = pats or {}
        P = self.prims
        self.nheap = 0
        def alloc(I, st, e, xs):
            self.nheap += 1
            return ('ptr', ('heap', self.nheap), ZERO)
        def nop(I, st, e, xs): return ZERO
        for n in ('boost::pool<>::malloc', 'boost::pool::malloc', 'malloc'): P[n] = alloc
        for n in ('boost::pool<>::free', 'free', 'fprintf', 'printf'): P[n] = nop
        L = 'std::list<unsigned int>'
        def get(e, st): return self.load(st, self.lval(e, st))
        def mut(f):
            def h(I, st, e, xs):
                a = self.lval(xs[0], st)
                b = [self.lval(x, st) for x in xs[1:2]]
                r = f(st, a, b)
                return ZERO
            return h
        def clear(st, a, b): self.store(st, a, lst(()))
        def merge(st, a, b):
            if a == b[0]: return
            self.store(st, a, lmap(lambda x, y: lst(merged(x, y)), self.load(st, a), self.load(st, b[0])))
            self.store(st, b[0], lst(()))
        def unique(st, a, b): self.store(st, a, lmap(lambda x: lst([k for i, k in enumerate(x) if i == 0 or x[i - 1] != k]), self.load(st, a)))
        def sort(st, a, b): self.store(st, a, lmap(lambda x: lst(sorted(x)), self.load(st, a)))
        def swap(st, a, b):
            x, y = self.load(st, a), self.load(st, b[0])
            self.store(st, a, y); self.store(st, b[0], x)
        for n, f in (('clear', clear), ('merge', merge), ('unique', unique), ('sort', sort), ('swap', swap)): P[L + '::' + n] = mut(f)
        def assign(I, st, e, xs):
            v = get(xs[1], st); self.store(st, self.lval(xs[0], st), v); return ('lv', self.lval(xs[0], st))
        P[L + '::operator='] = assign
        def empty(I, st, e, xs): return T.boolval(lbool(lmap(lambda x: ('b', not x), get(xs[0], st))))
        P[L + '::empty'] = empty
        def size(I, st, e, xs): return lmap(lambda x: num(len(x)), get(xs[0], st))
        P[L + '::size'] = size
        def eq(I, st, e, xs): return T.boolval(lbool(lmap(lambda x, y: ('b', x == y), get(xs[0], st), get(xs[1], st))))
        def ne(I, st, e, xs): return T.boolval(lbool(lmap(lambda x, y: ('b', x != y), get(xs[0], st), get(xs[1], st))))
        def listop(f, real):
            def h(I, st, e, xs): return f(I, st, e, xs)
            return h
        P['_ZSteqIjSaIjEEbRKNSt7__cxx114listIT_T0_EES7_'] = eq
        P['_ZStneIjSaIjEEbRKNSt7__cxx114listIT_T0_EES7_'] = ne
        def lim(n):
            def h(I, st, e, xs): return atom((n,))
            return h
        for n in ('std::numeric_limits<double>::quiet_NaN', 'std::numeric_limits::quiet_NaN', 'nan'): P[n] = lim('nan')
        for n in ('std::numeric_limits<double>::infinity', 'std::numeric_limits::infinity'): P[n] = lim('inf')

    def init_hook(self, st, lv):
        r, o = lv[1], lv[2]
        if r == ('glob', 'adtl::adouble::numDir'): return num(DIRS)
        if r[0] == 'heap': return atom(('uninit', r, o))
        if r[0] == 'tl': return atom(('ad', ('tl', r[1]), o))
        if r[0] == 'fld' and r[3] == 'adval' and r[1][0] == 'obj': return ('ptr', ('tl', self.name(r[1][1])), ZERO)
        if r[0] == 'fld' and r[3] == 'val' and r[1][0] == 'obj': return atom(('ad', ('tl', self.name(r[1][1])), ZERO))
        if r[0] == 'fld' and r[3] == 'pattern' and r[1][0] == 'obj': return lst(self.pats.get(self.name(r[1][1]), ()))
        return None
    def name(self, n): return self.al.get(n, n)

    def construct(self, e, st, lv):
        if 'std::list<' in e[2]:
            if e[4] and len(e) == 6 and e[5][0] in ('call', 'mcall', 'ctor', 'cond'): return False
            self.store(st, lv, self.load(st, self.lval(e[5], st)) if len(e) > 5 else lst(()))
            return True
        return super().construct(e, st, lv)

    def compare(self, op, a, b):
        # objects of different names are different objects
        if op in ('==', '!=') and all(isinstance(x, tuple) and x[:1] == ('ptr',) and isinstance(x[1], tuple) and x[1][0] in ('obj', 'tl', 'adv', 'hor', 'hoc', 'heap', 'var', 'tmp') for x in (a, b)) and a[1] != b[1]:
            return T.FALSE if op == '==' else c_not(T.FALSE)
        return super().compare(op, a, b)

INTERPRETER = {}

def merged(x, y):
    """std::list::merge: stable merge of what is supposed to be sorted"""
    x, y, out = list(x), list(y), []
    while x and y: out.append(y.pop(0) if y[0] < x[0] else x.pop(0))
    return out + x + y

def kind(t): return t.replace('const ', '').replace(' const', '').replace('&', '').strip()

def run(prog, tu, f, ns, alias, pats):
    """(state, result, class lvalue of the result or None)"""
    I = INTERPRETER.get(ns, TL)(prog, tu, pats)
    I.al = dict(alias)
    st = State()
    args = []
    cls = ns + '::adouble'
    for pid in f['ps']:
        d = tu.decls[pid]
        s = kind(d['t'])
        if s.endswith('adouble'):
            # two references to one object are the same object
            args.append(('ref', cell(('obj', I.name(d['n'])))))
        elif d['t'].endswith('&'): args.append(('ref', cell(('param', d['n']))))
        elif '*' in d['t']: args.append(('val', ('ptr', ('arg', d['n']), ZERO)))
        else: args.append(('val', atom(('sym', d['n']))))
    this = ('ptr', ('obj', 'this'), ZERO) if f.get('cls') and not f.get('static') else None
    v = I.call_body(f, st, args, this=this)
    return I, st, v

def aliases(f, tu):
    ns = ['this'] if f.get('cls') else []
    ns += [tu.decls[p]['n'] for p in f['ps'] if kind(tu.decls[p]['t']).endswith('adouble')]
    if 'ctor' in f and f['ctor']: ns = [n for n in ns if n != 'this'] if len(ns) < 2 else ns[1:]
    out = [()]
    # all partitions of up to four operands
    def parts(xs):
        if not xs: yield []; return
        h, t = xs[0], xs[1:]
        for p in parts(t):
            yield [[h]] + p
            for i in range(len(p)): yield p[:i] + [[h] + p[i]] + p[i + 1:]
    res = []
    for p in parts(ns):
        al = []
        for g in p: al += [(x, g[0]) for x in g[1:]]
        res.append(tuple(sorted(al)))
    return sorted(set(res)) or [()]

def gradient(w):
    return calc.grad(w, lambda a: a[0] == 'ad' and isinstance(a[1], tuple) and a[1][0] == 'tl' and a[2] == ZERO)

def V(x): return atom(('ad', ('tl', x), ZERO))
def D(x, i): return atom(('ad', ('tl', x), num(i)))

def spec(f, tu, n, ss, vals, this):
    """[(kind, value)]"""
    k = len(vals)
    if f.get('ctor'): return [('this', vals[0] if vals else ZERO)]
    if this is not None:
        if n in ASG and k == 1: return [('this', ASG[n](this, vals[0]))]
        if n in ('operator++', 'operator--'):
            nv = add(this, ONE) if n == 'operator++' else sub(this, ONE)
            return [('this', nv), ('ret', this if k else nv)]
        if n == 'operator!': return [('cmp', c_eq0(this))]
        if n in ('getValue', 'operator double', 'operator const double &', 'operator double &&') and k == 0: return [('num', this)]
        if n == 'setValue': return [('val', vals[0])]
        vals = [this] + vals; k += 1
    if n in COND and k in (3, 4):
        c = COND[n](vals[1]); return [('res', ite(c, vals[2], vals[3] if k == 4 else vals[0]))]
    if k == 1 and n in UN: return [('ret', UN[n](vals[0]))]
    if k == 2 and n in CMP: return [('cmp', CMP[n](*vals))]
    if k == 2 and n in BIN: return [('ret', BIN[n](*vals))]
    if k == 2 and n == 'ldexp': return [('ret', mul(vals[0], fn('pow', num(2), vals[1])))]
    if k == 2 and n == 'atan2': return [('ret', fn('atan2', *vals))]
    return None

def canon(t):
    """hyperbolic functions by exponentials, log10 and tan by log, sin and cos"""
    def f(a):
        if a[0] == 'fn' and a[1] in ('sinh', 'cosh', 'tanh', 'tan', 'log10'): return canon(UN[a[1]](toP(canon(a[2]))))
        if a[0] == 'fn' and a[1] == 'exp':
            r = expo(atom(a)); return None if r == atom(a) else r
        return None
    return T.rewrite(t, f)

def trig(t):
    """sin(x)^2 = 1 - cos(x)^2"""
    t = toP(t)
    for _ in range(6):
        acc = ZERO; ch = False
        for m, c in t[1]:
            r = num(c)
            for a, e in m:
                b = atom(a)
                if a[0] == 'fn' and a[1] == 'sin' and e >= 2:
                    ch = True
                    cs = fn('cos', a[2])
                    r = mul(r, sub(ONE, mul(cs, cs))); e -= 2
                for _i in range(abs(e)): r = mul(r, b if e > 0 else inv(b))
            acc = add(acc, r)
        if not ch: return t
        t = acc
    return t

def place(I, st, kd, v, f, tu):
    """object a result is in"""
    if kd == 'ret':
        if isinstance(v, tuple) and v and v[0] in ('objv', 'lv'): return v[1]
        return None
    if kd in ('this', 'val'): return cell(('obj', 'this'))
    return cell(('obj', I.name(tu.decls[f['ps'][0]]['n'])))

def obj_val(I, st, lv, ns, i):
    if lv[0] == 'itelv':
        a, b = obj_val(I, st, lv[2], ns, i), obj_val(I, st, lv[3], ns, i)
        return ite(lv[1], a, b)
    if ns == 'adtl':
        p = I.load(st, cell(('fld', lv[1], lv[2], 'adval')))
        return toP(I.load(st, I.deref(I.ptr_add(p, num(i)))))
    return toP(I.load(st, cell(('fld', lv[1], lv[2], 'val'))))

def obj_pat(I, st, lv):
    if lv[0] == 'itelv': return ite(lv[1], obj_pat(I, st, lv[2]), obj_pat(I, st, lv[3]))
    return I.load(st, cell(('fld', lv[1], lv[2], 'pattern')))

def prog_for(TUS=TUS):
    pk = os.environ.get('ADOLC_SA_PICKLE')
    if pk: return pickle.load(open(pk, 'rb'))
    want = set(TUS.values()) | {'ADOL-C/src/sparse/sparsedrivers.cpp'}
    p = load.load(lambda r: r in want)
    miss = set(TUS.values()) - set(p.tus)
    if miss: raise AnalysisBroken('not part of the build: %s' % sorted(miss))
    return p

def overloads(tu, ns):
    for f in tu.funcs:
        q = f['q']
        if ('::' + q).rfind('::' + ns + '::') < 0: continue
        rest = ('::' + q).split('::' + ns + '::', 1)[1]
        if ns == 'adtl' and 'adtl_indo' in q: continue
        parts = rest.split('::')
        if len(parts) > 1 and parts[0] != 'adouble': continue
        n = rest[len('adouble::'):] if rest.startswith('adouble::') else rest
        yield f, n

def c09():
    rep = Report('C09', 'value numbering of every overloaded operation of the traceless classes; tangents compared with the symbolic derivative of the named function, index lists by constant propagation over representative lists')
    prog = prog_for()
    rep.rule('value', 'the value of the result is the value of the named function at the operand values, in every pattern of operands being the same object')
    rep.rule('tangent', 'every directional derivative of the result is the derivative of the named function applied to the operand tangents')
    rep.rule('pattern', 'the index list of the result contains, ascending and without repetition, the indices of every operand the function depends on, and of operands only')
    rep.rule('operands', 'operands that are not results keep value, tangents and index list')
    nf = {}
    for ns, path in TUS.items():
        tu = prog.tus[path]
        for f, n in overloads(tu, ns):
            ts = [tu.decls[i]['t'] for i in f['ps']]
            if n in ('add_to_pattern', 'get_pattern', 'get_pattern_size', 'delete_pattern', 'makeNaN', 'makeInf', '~adouble', 'setNumDir', 'getNumDir') or 'stream' in ' '.join(ts): continue
            sig = '%s(%s)' % (f['q'], ', '.join(ts))
            where = tu.loc(f['l'])
            method = bool(f.get('cls')) and not f.get('static')
            accessor(rep, prog, tu, f, n, ns, ts, sig, where)
            if any('*' in t for t in ts) and not f.get('ctor'): continue
            if n == 'frexp' or n in ('getADValue', 'setADValue'): continue
            names = [tu.decls[i]['n'] for i in f['ps']]
            for al in aliases(f, tu):
                m = dict(al)
                tag = sig + (' with ' + ', '.join('%s the same object as %s' % (a, b) for a, b in al) if al else '')
                act = [x for x, t in zip(names, ts) if kind(t).endswith('adouble')] + (['this'] if method and not f.get('ctor') else [])
                vals = [V(m.get(x, x)) if kind(t).endswith('adouble') else atom(('sym', x)) for x, t in zip(names, ts)]
                if f.get('ctor') and len(ts) == 2: vals = vals[:1]
                this = V('this') if method and not f.get('ctor') else None
                want = spec(f, tu, n, ts, vals, this)
                if want is None:
                    if f['rt'].endswith('adouble') : rep.skip(sig, 'no specification for this name')
                    continue
                nf.setdefault(ns, set()).add(sig)
                try: I, st, v = run(prog, tu, f, ns, al, {})
                except (Unsupported, Dead) as ex: rep.skip(tag, '%s %s' % (where, ex or 'does not return')); continue
                judge(rep, I, st, v, f, tu, n, ns, ts, sig, tag, where, want, vals, act, m)
                if ns == 'adtl_indo': patterns(rep, prog, tu, f, n, ns, sig, tag, where, want, al, sorted({m.get(x, x) for x in act}))
    for ns in TUS: rep.count('overloads ' + ns, len(nf.get(ns, ())))
    pattern_access(rep, prog)
    rep.floor(500)
    return rep.finish()

def given_of(n, ns, vals, this):
    xs = ([this] if this is not None else []) + vals
    if n in POS: return (lt(ZERO, xs[0]),)
    if n == 'pow' and len(xs) == 2: return (lt(ZERO, xs[0]),)
    if n == 'cbrt': return (c_not(c_eq0(xs[0])),)
    return ()

def judge(rep, I, st, v, f, tu, n, ns, ts, sig, tag, where, want, vals, act, m):
    this = V('this') if 'this' in act else None
    smooth = n not in SMOOTH_OFF
    results = set()
    for kd, w in want:
        if kd == 'cmp':
            r = equal(T.boolval(T.truth(toP(v))) if v is not None else ZERO, ite(w, ONE, ZERO), ok=('uninit',))
            rep.check(r is True, sig + ':cmp', lambda: '%s: %s returns %s, the comparison is %s (%s)' % (where, tag, T.show(toP(v))[:200], T.show(w)[:200], r and show_region(r[0])), tag)
            continue
        if kd == 'num':
            x = v
            if isinstance(x, tuple) and x and x[0] == 'lv': x = I.load(st, x[1])
            rep.check(equal(toP(x), w, ok=('uninit',)) is True, sig + ':value', lambda: '%s: %s returns %s instead of %s' % (where, tag, T.show(toP(x)), T.show(w)), tag)
            continue
        lv = place(I, st, kd, v, f, tu)
        if lv is None: rep.skip(tag, 'result object not found'); continue
        if kd in ('this', 'val'): results.add('this')
        elif kd == 'res': results.add(I.name(tu.decls[f['ps'][0]]['n']))
        try: g = gradient(w)
        except calc.NoDerivative as ex: rep.skip(tag, 'no derivative rule for %s' % ex); continue
        for i in range(DIRS + 1 if ns == 'adtl' else 1):
            if f.get('ctor') and not ts and i: continue        # value of a default variable only
            if i == 0: W = w
            elif kd == 'val': W = D('this', i)
            elif f.get('ctor') and len(ts) == 2: W = atom(('ld', ('arg', tu.decls[f['ps'][1]]['n']), num(i - 1)))
            else:
                W = ZERO
                for a, p in g.items(): W = add(W, mul(p, D(a[1][1], i)))
            have = obj_val(I, st, lv, ns, i)
            gv = given_of(n, ns, vals, this) + (nonzero_sum,)
            r = equal(trig(canon(have)), trig(canon(W)), gv, ok=('uninit', 'ld', 'arg', 'tl', 'heap'), ties=smooth or i == 0, regular=i > 0)
            if r is None: rep.skip(tag, 'not modelled: %s / %s' % (T.show(have)[:150], T.show(W)[:150])); continue
            what = 'value' if i == 0 else 'tangent in direction %d' % (i - 1)
            rep.check(r is True, '%s:%s' % (sig, 'value' if i == 0 else 'tangent'), lambda: '%s: %s leaves the %s %s; the function gives %s (%s)' % (
                where, tag, what, T.show(r[1])[:250], T.show(r[2])[:250], show_region(r[0])), '%s = %s' % (tag, T.show(W)[:80]))
    for x in sorted({m.get(x, x) for x in act} - results):
        for i in range(DIRS + 1 if ns == 'adtl' else 1):
            o = V(x) if i == 0 else D(x, i)
            have = obj_val(I, st, cell(('obj', x)), ns, i)
            rep.check(have == o, sig + ':operands', lambda: '%s: %s changes operand %s: entry %d becomes %s' % (where, tag, x, i, T.show(have)[:200]))

def nonzero_sum(a):
    """sums of even powers are positive (the origin, where atan2 has no derivative, is left out)"""
    if a[0] in ('eq', 'lt') and isP(a[1]):
        ms = a[1][1]
        if len(ms) == 1 and len(ms[0][0]) == 1 and ms[0][0][0][0][0] == 'inv': ms = toP(ms[0][0][0][0][1])[1]
        if len(ms) > 1 and all(c > 0 and all(e % 2 == 0 and e > 0 for x, e in m) for m, c in ms): return FALSE
    return None

def depends(w, x):
    """the function depends on operand x: its derivative is not identically zero"""
    g = gradient(w)
    p = g.get(('ad', ('tl', x), ZERO))
    return p is not None and p != ZERO

def patterns(rep, prog, tu, f, n, ns, sig, tag, where, want, al, act):
    doms = PATS if len(act) <= 2 else PATS[1:4]
    for combo in itertools.product(doms, repeat=len(act)):
        pats = dict(zip(act, combo))
        try: I, st, v = run(prog, tu, f, ns, al, pats)
        except (Unsupported, Dead) as ex: rep.skip(tag + ':pattern', '%s %s' % (where, ex)); return
        touched = set()
        for kd, w in want:
            if kd not in ('ret', 'this', 'res', 'val'): continue
            lv = place(I, st, kd, v, f, tu)
            if lv is None: return
            if kd != 'ret': touched.add('this' if kd in ('this', 'val') else I.name(tu.decls[f['ps'][0]]['n']))
            have = obj_pat(I, st, lv)
            for cond, h, wr in arms(have, w, kd):
                need = set(); may = set()
                for x in act:
                    may |= set(pats[x])
                    if kd == 'val':
                        if x == 'this': need |= set(pats[x])
                    elif depends(wr, x): need |= set(pats[x])
                ok = h[0] == 'list' and need <= set(h[1]) <= may and list(h[1]) == sorted(set(h[1]))
                rep.check(ok, sig + ':pattern', lambda: '%s: %s with index lists %s leaves the list %s; needed are %s (%s)' % (
                    where, tag, ', '.join('%s: %s' % (x, list(pats[x])) for x in act), T.show(h) if h[0] != 'list' else list(h[1]), sorted(need), cond))
        for x in act:
            if x in touched: continue
            rep.check(obj_pat(I, st, cell(('obj', x))) == lst(pats[x]), sig + ':operands', lambda: '%s: %s changes the index list of operand %s' % (where, tag, x))

def arms(have, w, kd):
    """pairs (condition text, list, function) per region of the gates of both"""
    from equal import gates, assume, settle
    g = set()
    gates(toP(w), g)
    st = [have]
    while st:
        x = st.pop()
        if isinstance(x, tuple) and x and x[0] == 'ite':
            from equal import conds
            conds(x[1], g); st += [x[2], x[3]]
    if isP(w):
        a = T.atom_of(w)
        if a is not None and a[0] == 'fn' and a[1] in ('min', 'max', 'fmin', 'fmax'): conds0(a, g)
    out = []
    ps = sorted([p for p in g if isP(p)], key=T.key)[:3]
    for signs in itertools.product((-1, 0, 1), repeat=len(ps)):
        fs = tuple(assume(p, s) for p, s in zip(ps, signs))
        def cond(c):
            for f in fs:
                c2 = T.rewrite(c, f)
                if c2 in (TRUE, FALSE): return c2
            return c
        h = have
        while isinstance(h, tuple) and h and h[0] == 'ite':
            c = cond(h[1])
            if c == TRUE: h = h[2]
            elif c == FALSE: h = h[3]
            else: break
        if 0 in signs: continue         # ties
        try: wr = settle(w, fs)
        except Exception: wr = w
        out.append((show_region(tuple(zip(ps, signs))), h, wr))
    return out or [('always', have, w)]

def conds0(a, g):
    from equal import conds
    conds(c_lt0(sub(toP(a[2]), toP(a[3]))), g)

def accessor(rep, prog, tu, f, n, ns, ts, sig, where):
    """getADValue / setADValue"""
    if n not in ('getADValue', 'setADValue') or ns != 'adtl': return
    for p in range(DIRS):
        I = TL(prog, tu); I.al = {}
        st = State()
        args = []
        for pid in f['ps']:
            d = tu.decls[pid]
            if '*' in d['t']: args.append(('val', ('ptr', ('arg', d['n']), ZERO)))
            elif 'long' in d['t'] or 'int' in d['t']: args.append(('val', num(p)))
            else: args.append(('val', atom(('sym', d['n']))))
        try: v = I.call_body(f, st, args, this=('ptr', ('obj', 'this'), ZERO))
        except (Unsupported, Dead) as ex:
            rep.check(False, sig + ':access', '%s: %s does not deliver direction %d of %d' % (where, sig, p, DIRS)) if isinstance(ex, Dead) else rep.skip(sig, str(ex)); return
        me = cell(('obj', 'this'))
        if n == 'getADValue':
            if '*' in f['rt']: have = toP(I.load(st, I.deref(I.ptr_add(v, num(p)))))
            else: have = toP(I.load(st, v[1]) if isinstance(v, tuple) and v and v[0] == 'lv' else v)
            rep.check(have == D('this', p + 1), sig + ':access', lambda: '%s: %s delivers %s for direction %d' % (where, sig, T.show(have), p), sig)
            for i in range(DIRS + 1): rep.check(obj_val(I, st, me, ns, i) == (D('this', i) if i else V('this')), sig + ':operands', '%s: %s changes the variable' % (where, sig))
        else:
            for i in range(DIRS + 1):
                if '*' in ts[-1]: w = atom(('ld', ('arg', tu.decls[f['ps'][-1]]['n']), num(i - 1))) if i else V('this')
                else: w = atom(('sym', tu.decls[f['ps'][-1]]['n'])) if i == p + 1 else D('this', i) if i else V('this')
                have = obj_val(I, st, me, ns, i)
                rep.check(have == w, sig + ':access', lambda: '%s: %s leaves entry %d at %s instead of %s' % (where, sig, i, T.show(have), T.show(w)), sig)
    # out of range
    if any('long' in t or 'int' in t for t in ts):
        I = TL(prog, tu); I.al = {}
        st = State()
        args = [('val', num(DIRS)) if ('long' in tu.decls[i]['t'] or 'int' in tu.decls[i]['t']) else ('val', atom(('sym', tu.decls[i]['n']))) for i in f['ps']]
        try: I.call_body(f, st, args, this=('ptr', ('obj', 'this'), ZERO)); ok = False
        except Dead: ok = True
        except Unsupported as ex: rep.skip(sig, str(ex)); return
        rep.check(ok, sig + ':range', '%s: %s accepts direction %d of a variable with %d directions' % (where, sig, DIRS, DIRS), sig)

def pattern_access(rep, prog, ns='adtl_indo', file=None):
    tu = prog.tus[file or TUS[ns]]
    TL_ = INTERPRETER.get(ns, TL)
    for f, n in overloads(tu, ns):
        sig, where = f['q'], tu.loc(f['l'])
        if n == 'add_to_pattern':
            for a, b in itertools.product(PATS, repeat=2):
                I = TL_(prog, tu, {'this': a, 'v': b}); I.al = {}
                st = State()
                st.mem[(('param', 'v'), ZERO)] = lst(b)
                try: I.call_body(f, st, [('ref', cell(('param', 'v')))], this=('ptr', ('obj', 'this'), ZERO))
                except (Unsupported, Dead) as ex: rep.skip(sig, str(ex)); return
                h = obj_pat(I, st, cell(('obj', 'this')))
                rep.check(h == lst(sorted(set(a) | set(b))), sig + ':union', lambda: '%s: adding the indices %s to %s gives %s' % (where, list(b), list(a), h[1] if h[0] == 'list' else T.show(h)), '%s: union' % sig)
                rep.check(I.load(st, cell(('param', 'v'))) == lst(b), sig + ':argument', '%s: the list added is changed' % where)
        elif n in ('get_pattern_size', 'get_pattern', 'delete_pattern'):
            for a in PATS:
                I = TL_(prog, tu, {'this': a}); I.al = {}
                st = State()
                try: v = I.call_body(f, st, [], this=('ptr', ('obj', 'this'), ZERO))
                except (Unsupported, Dead) as ex: rep.skip(sig, str(ex)); return
                h = obj_pat(I, st, cell(('obj', 'this')))
                if n == 'delete_pattern': rep.check(h == lst(()), sig + ':delete', '%s: %s leaves indices' % (where, sig), sig); continue
                rep.check(h == lst(a), sig + ':const', '%s: %s changes the list' % (where, sig))
                if n == 'get_pattern_size': rep.check(v == num(len(a)), sig + ':size', lambda: '%s: size of %s is %s' % (where, list(a), T.show(toP(v))), sig)
                else:
                    x = I.load(st, v[1]) if isinstance(v, tuple) and v and v[0] == 'lv' else v
                    rep.check(x == lst(a), sig + ':get', '%s: %s does not deliver the list' % (where, sig), sig)

CHECKS = {'C09': c09}
