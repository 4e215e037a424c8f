"""C06 overloaded operations compute the function they are named after, recorded or not."""
import ctx as CX, model, record
import terms as T
from terms import num, toP, ZERO, ONE, TRUE, atom, add, sub, mul, neg, inv, fn, ite, atom_of, c_lt0, c_eq0, c_not, const_of, isP
from absint import Unsupported, cell
from load import AnalysisBroken
from report import Report
from equal import equal, show_region
from checks.tape import std_params

HALF = num(__import__('fractions').Fraction(1, 2))
def lt(a, b): return c_lt0(sub(a, b))
def sinh(x): return mul(HALF, sub(fn('exp', x), inv(fn('exp', x))))
def cosh(x): return mul(HALF, add(fn('exp', x), inv(fn('exp', x))))
def ex2(x): return mul(fn('exp', x), fn('exp', x))
UN = {n: (lambda x, n=n: fn(n, x)) for n in ('exp', 'log', 'sqrt', 'cbrt', 'sin', 'cos', 'asin', 'acos', 'atan', 'asinh', 'acosh', 'atanh', 'erf', 'erfc', 'ceil', 'floor', 'fabs')}
UN.update({'abs': lambda x: fn('fabs', x), 'log10': lambda x: mul(fn('log', x), inv(fn('log', num(10)))), 'tan': lambda x: mul(fn('sin', x), inv(fn('cos', x))),
           'sinh': sinh, 'cosh': cosh, 'tanh': lambda x: mul(sub(ex2(x), ONE), inv(add(ex2(x), ONE))),
           'operator+': lambda x: x, 'operator-': neg})
mn = lambda a, b: ite(lt(a, b), a, b)
mx = lambda a, b: ite(lt(a, b), b, a)
BIN = {'operator+': add, 'operator-': sub, 'operator*': mul, 'operator/': lambda a, b: mul(a, inv(b)), 'fmin': mn, 'min': mn, 'fmax': mx, 'max': mx,
       'pow': lambda a, b: fn('pow', a, b)}
CMP = {'operator!=': lambda a, b: c_not(c_eq0(sub(a, b))), 'operator==': lambda a, b: c_eq0(sub(a, b)), 'operator<': lt,
       'operator>': lambda a, b: lt(b, a), 'operator<=': lambda a, b: c_not(lt(b, a)), 'operator>=': lambda a, b: c_not(lt(a, b))}
ASG = {'operator+=': add, 'operator-=': sub, 'operator*=': mul, 'operator/=': lambda a, b: mul(a, inv(b)), 'operator=': lambda a, b: b, 'operator<<=': lambda a, b: b}
COND = {'condassign': lambda c: c_lt0(neg(c)), 'condeqassign': lambda c: c_not(c_lt0(c))}
EXPOFF = ('cosh', 'sinh', 'tanh')

def expo(t):
    """exp(-x) is 1/exp(x), exp(2x) is exp(x)^2"""
    def f(a):
        if a[0] == 'fn' and a[1] == 'exp':
            x = toP(a[2])
            if len(x[1]) == 1 and x[1][0][0] != () and x[1][0][1].denominator == 1 and x[1][0][1] != 1:
                n = int(x[1][0][1])
                base = fn('exp', T.mk(((x[1][0][0], num(1)[1][0][1]),)))
                r = ONE
                for _ in range(abs(n)): r = mul(r, base if n > 0 else inv(base))
                return r
        return None
    return T.rewrite(t, f)

def targets(prog):
    for f in prog.all_functions():
        tu = f['tu']; fl = tu.file_of(f['l'])
        if fl.startswith('/') or not fl.startswith('ADOL-C/'): continue
        ts = [tu.decls[i]['t'] for i in f['ps']]
        ss = [record.strip_ref(t) for t in ts]
        cls = f.get('cls')
        n = f['q'].split('::')[-1]
        if cls == 'pdouble' or not (cls in ('adouble', 'adubref') or any(s in record.ACTIVE for s in ss)): continue
        if n != 'frexp' and any('*' in t for t in ts) or any(s not in record.ACTIVE + ('double', 'int', 'float') for s in ss): continue
        yield f, n, ts, ss, cls

def value(R, f, i, s):
    """program value of parameter i"""
    n = f['tu'].decls[i]['n']
    if s in ('double', 'int', 'float'): return atom(('sym', n))
    l = atom(('loc', n))
    if s == 'pdouble': return atom(('pd', l))
    return atom(('ad', l))

def this_val(cls):
    l = atom(('loc', 'this'))
    if cls == 'adubref': l = fn('trunc', fn('fabs', atom(('ad', l))))
    return l

def spec(f, n, ss, cls, vals, tag):
    """(kind, expected) kind: ret | cmp | this | res"""
    k = len(vals)
    if cls:
        old = atom(('ad', this_val(cls)))
        if n in ASG and k == 1: return [('this', ASG[n](old, vals[0]))]
        if n == 'operator++': return [('this', add(old, ONE))] + ([('ret', old)] if k else [])
        if n == 'operator--': return [('this', sub(old, ONE))] + ([('ret', old)] if k else [])
        if n == cls == 'adouble': return [('this', vals[0] if vals else ZERO)]
        if n == 'operator adouble': return [('ret', old)]
        if n in ('declareIndependent', 'declareDependent'): return [('this', old)]
        return None
    if n in COND and len(vals) in (3, 4):
        c = COND[n](vals[1])
        return [('res', ite(c, vals[2], vals[3] if len(vals) == 4 else vals[0]))]
    if k == 1 and n in UN: return [('ret', UN[n](vals[0]))]
    if k == 2 and n in CMP: return [('cmp', CMP[n](*vals))]
    if n == 'pow' and k == 2 and ss[1] in record.ACTIVE: return [('ret', fn('exp', mul(vals[1], fn('log', vals[0]))))]
    if k == 2 and n in BIN: return [('ret', BIN[n](*vals))]
    if k == 2 and n == 'ldexp': return [('ret', mul(vals[0], fn('ldexp', ONE, vals[1])))]
    return None

def has_upd(L):
    return any(y == 'upd' for c in L.cond for y in flat(c)) or any(e[0] == 'op' and any(y == 'upd' for y in flat(e[1:5])) for e in L.ops)
def flat(t):
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple): st.extend(x)
        elif isinstance(x, str): yield x

def same_places(cond):
    """location equalities a recording case is under"""
    m = {}
    for c in cond:
        for d in (c[1] if c[0] == 'and' else (c,)):
            if d[0] != 'eq' or not isP(d[1]): continue
            ms = d[1][1]
            if len(ms) == 2 and all(len(x) == 1 and x[0][1] == 1 and x[0][0][0] == 'loc' for x, k in ms) and ms[0][1] == -ms[1][1]:
                a, b = sorted((x[0][0] for x, k in ms), key=lambda t: (t[1] != 'this', t))
                m[b] = atom(a)
    return m

def impossible(f, ss, cls, cond):
    """the case needs a fresh location, or the location of an active subscript itself, to be another operand's"""
    own = {('loc', f['tu'].decls[i]['n']) for i, s in zip(f['ps'], ss) if s == 'adubref'} | ({('loc', 'this')} if cls == 'adubref' else set())
    for c in cond:
        for d in (c[1] if c[0] == 'and' else (c,)):
            if d[0] == 'eq' and isP(d[1]) and len(d[1][1]) == 2:
                xs = [m[0][0] for m, k in d[1][1] if len(m) == 1]
                if len(xs) == 2 and any(x[0] in ('newloc', 'newploc') or x in own for x in xs) and all(x[0] in ('loc', 'newloc', 'newploc') for x in xs): return True
    return False

def same_kind(f, al):
    nm = [f['tu'].decls[i]['n'] for i in f['ps']] + ['this']
    return [(nm.index(a), nm.index(b)) for a, b in al if not b.startswith('*')]

def this_loc(mem):
    l = mem.get((('fld', ('fld', ('obj', 'this'), ZERO, 'tape_loc_'), ZERO, 'loc_'), ZERO))
    return None if l is None else toP(l)

def ret_loc(L):
    r = L.ret
    if r is None or not isinstance(r, tuple) or r[0] != 'objv': return None
    reg, off = r[1][1], r[1][2]
    v = L.st.mem.get((('fld', ('fld', reg, off, 'tape_loc_'), ZERO, 'loc_'), ZERO))
    return None if v is None else toP(v)

def c06():
    rep = Report('C06', 'value numbering of every overloaded operation with and without recording; compared with the named mathematical function, and with the replay of the operations it recorded')
    cx = CX.Ctx(['zos_forward'])
    rep.rule('function', 'the value an overloaded operation delivers is the value of the named function at the operand values, in every operand alias pattern')
    rep.rule('mode', 'the value does not depend on whether a trace is being recorded')
    rep.rule('complete', 'replaying the operations an overload recorded gives the values it left (no value changes without a record)')
    rep.rule('keep', 'the operations recorded do not depend on whether Taylor values are kept')
    S = cx.sweep('zos_forward', **std_params('zos_forward'))
    Ro = model.Roles(S, cx.codes)
    nf = 0
    for f, n, ts, ss, cls in targets(cx.prog):
        tu = f['tu']; where = tu.loc(f['l'])
        sig = '%s(%s)' % (f['q'], ','.join(ts))
        if spec(f, n, ss, cls, [ZERO] * len(ts), '') is None and n not in ('atan2', 'frexp', 'pow'): continue
        nf += 1
        kept = {}
        for write, keep in ((True, 1), (True, 0), (False, 0)):
            R = record.Recorder(cx.prog, f, keep=keep, write=write)
            for al in model.alias_patterns(R):
                tag = sig + (' alias ' + ','.join('%s=%s' % a for a in al) if al else '') + ('' if write else ' not recording')
                try: leaves = R.run(alias=al)
                except Unsupported as ex:
                    rep.skip(tag, '%s %s' % (where, ex)); continue
                except RecursionError: rep.skip(tag, 'recursion'); continue
                ren = {b: a for a, b in al if not b.startswith('*')}
                vals = []
                for i, s in zip(f['ps'], ss):
                    v = value(R, f, i, s)
                    nm = tu.decls[i]['n']
                    if nm in ren: v = T.subst(v, {('ad', atom(('loc', nm))): atom(('ad', atom(('loc', ren[nm])))), ('pd', atom(('loc', nm))): atom(('pd', atom(('loc', ren[nm]))))})
                    if s == 'adubref': v = atom(('ad', fn('trunc', fn('fabs', v))))
                    vals.append(v)
                if any((ss + [cls])[k1] != (ss + [cls])[k2] for k1, k2 in same_kind(f, al)): continue
                pre = R.elem_values(al)
                def fix(t):
                    # the element an active subscript refers to is another operand
                    m = {('ad', l): v for l, v in pre.items()}
                    return T.subst(t, m) if m else t
                want = spec(f, n, ss, cls, vals, tag)
                for L in leaves:
                    mem = L.st.mem
                    eqs = same_places(L.cond)
                    if impossible(f, ss, cls, L.cond): continue
                    def val_at(l): return mem.get((record.AD, l), atom(('ad', l)))
                    for kind, w in want or ():
                        w = fix(w) if isP(w) else T.rewrite(w, lambda a: None)
                        if eqs: w = T.subst(w, eqs)
                        if kind == 'cmp':
                            if pre: continue
                            have = toP(L.ret) if L.ret is not None else None
                            if have is None: rep.skip(tag, 'no result'); continue
                            w = ite(w, ONE, ZERO)
                        elif kind == 'ret':
                            l = ret_loc(L)
                            if l is None: rep.skip(tag, 'location of the result not found'); continue
                            have = val_at(l)
                        elif kind == 'this':
                            l = fix(this_val(cls))
                            if cls == 'adouble':
                                l = this_loc(mem)
                                if l is None and 'inits' in f: rep.skip(tag, 'location of the new variable not found'); continue
                                if l is None: l = atom(('loc', 'this'))
                            if eqs: l = T.subst(l, eqs)
                            have = val_at(l)
                        else:
                            nm = tu.decls[f['ps'][0]]['n']
                            l = atom(('loc', nm))
                            if ss[0] == 'adubref': l = fix(fn('trunc', fn('fabs', atom(('ad', l)))))
                            have = val_at(l)
                        if eqs: have = T.subst(toP(have), eqs)
                        have, w = expo(toP(have)), expo(toP(w))
                        given = L.cond
                        if n == 'pow' and ss[1] in record.ACTIVE: given = given + (lt(ZERO, vals[0]),)
                        r = equal(have, w, given)
                        if r is None: rep.skip(tag, 'value not modelled: %s / %s' % (T.show(have)[:120], T.show(w)[:120])); continue
                        rep.check(r is True, '%s:%s' % (sig, kind), lambda: '%s: %s delivers %s, the function is %s (%s)' % (where, tag, T.show(r[1])[:200], T.show(r[2])[:200], show_region(r[0])),
                                  '%s = %s' % (tag, T.show(w)[:80]))
                    if write:
                        ops = model.segment(L)
                        if ops is not None:
                            sig2 = [(o.code, o.locs, o.vals) for o in ops]
                            old = kept.setdefault((al, L.cond), sig2)
                            if keep == 0: rep.check(old == sig2, '%s:keep' % sig, lambda: '%s: %s records %d operations when Taylor values are kept and %d when not, or with other operands' % (where, tag, len(old), len(sig2)))
                    if not write or keep == 0: continue
                    if has_upd(L): continue        # rewrites the previous record: decided by C05's fused products
                    ops = model.segment(L)
                    if ops is None: rep.skip(tag, 'variable-length record'); continue
                    final = {k[1]: mem[k] for k in L.st.wlog if k[0] == record.AD and not pre.get(k[1])}
                    if any(cx.names[o.code] in ('assign_ind', 'ref_assign_ind', 'subscript_ref') for o in ops): continue
                    if pre and ops:
                        for o in ops: o.pre = pre
                    if not ops: got = {}
                    else:
                        b = model.bound_run(S, Ro, ops)
                        if b.err:
                            if b.err.startswith('unsupported'): rep.skip(tag, b.err)
                            continue
                        got = {k[1]: v for k, v in b.final.items() if k[0] == 'ad'}
                    for l in sorted(final, key=T.key):
                        given = L.cond
                        if n == 'pow' and ss[1] in record.ACTIVE: given = given + (lt(ZERO, vals[0]),)
                        r = equal(got.get(l, atom(('ad', l))), final[l], given, ok=('fn',))
                        if r is None and l not in got and pre.get(l) is None:
                            r = ((), atom(('ad', l)), final[l])
                        if r is None or any(a[0] == 'rec' for a in T.atoms(got.get(l, ZERO))): rep.skip(tag, 'replayed value not modelled'); continue
                        rep.check(r is True, '%s:replay' % sig, lambda: '%s: %s leaves %s in location %s, replaying the %d operations it recorded gives %s (%s)' % (
                            where, tag, T.show(r[2])[:200], T.show(l), len(ops), T.show(r[1])[:200], show_region(r[0])))
    rep.count('overloads', nf)
    rep.floor(1000)
    return rep.finish()

CHECKS = {'C06': c06}
