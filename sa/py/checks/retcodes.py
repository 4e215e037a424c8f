"""C18: return codes of the sweeps.

A tape is one branch of the program.  Every operation whose outcome depends on a
decision is value-numbered over two points: the operand values at taping (which
the recorder folds into the record) and the operand values of the evaluation.
The code left by its section is compared, region by region of both points, with
the documented meaning of the codes.
"""
from concurrent.futures import ProcessPoolExecutor
import ctx as CX, model
import terms as T
from terms import num, const_of, toP, ZERO, ONE, atom, atom_of, isP, add, sub, mul, fn, c_lt0, c_eq0, c_not
from load import AnalysisBroken
from report import Report
from equal import regions, show_region
from absint import Unsupported
from sweep import walk, POS
from checks.tape import std_params, REFUSED

FWD = ['zos_forward', 'zos_pl_forward', 'fos_forward', 'fos_pl_forward', 'fov_forward', 'fov_offset_forward', 'fov_pl_forward', 'hos_forward', 'hov_forward', 'hov_wk_forward',
       'fos_pl_sig_forward', 'fov_pl_sig_forward', 'int_forward_tight', 'indopro_forward_tight', 'nonl_ind_forward_tight', 'nonl_ind_old_forward_tight']
REV = ['fos_reverse', 'fov_reverse', 'fos_pl_reverse', 'fos_pl_sig_reverse', 'fov_pl_reverse', 'int_reverse_tight']
HOREV = ['hos_ti_reverse', 'hos_ov_reverse', 'hov_ti_reverse']
STRUCT = ['int_forward_safe', 'int_reverse_safe', 'indopro_forward_safe', 'indopro_forward_absnormal', 'nonl_ind_forward_safe', 'nonl_ind_old_forward_safe']
COMPARE = {'eq_zero': 'eq', 'neq_zero': 'ne', 'le_zero': 'le', 'gt_zero': 'gt', 'ge_zero': 'ge', 'lt_zero': 'lt'}
# the absolute value of an abs-normal evaluation never switches: its sign is part of the result, or given by the caller
NO_SWITCH = {n: {'abs_val'} for n in ('zos_pl_forward', 'fos_pl_forward', 'fov_pl_forward', 'fos_pl_reverse', 'fov_pl_reverse')}
for n in ('fos_pl_sig_forward', 'fov_pl_sig_forward', 'fos_pl_sig_reverse'): NO_SWITCH[n] = {'abs_val', 'min_op'}
EXT = {'ext_diff', 'ext_diff_iArr', 'ext_diff_v2'}

def I(c, a, b): return T.ite(c, toP(a), toP(b))
def pos(x): return c_lt0(T.neg(x))
def neg(x): return c_lt0(x)
def zero(x): return c_eq0(x)
N2, N1, N0, N3 = num(2), num(1), ZERO, num(3)

def switch(name):
    return name in ('min_op', 'abs_val', 'ceil_op', 'floor_op') or ('cond_' in name and 'assign' in name)

def expected(name, now, then, same):
    """codes an operation may leave, given the operand values now and at taping: (always allowed, also allowed at taping ties)"""
    if name == 'min_op':
        (a, b), (c, d) = now[:2], then[:2]
        if same: return N3, N3
        s, t = sub(a, b), sub(c, d)
        m = I(pos(s), I(neg(t), N2, N3), I(neg(s), I(pos(t), N2, N3), N1))
        return m, I(zero(s), N1, I(zero(t), N2, m))
    if name == 'abs_val':
        s, t = now[0], then[0]
        m = I(pos(s), I(neg(t), N2, N3), I(neg(s), I(pos(t), N2, N3), N1))
        return m, I(zero(s), N1, I(zero(t), N2, m))
    if name in ('ceil_op', 'floor_op'):
        f = name[:-3]
        m = I(zero(sub(fn(f, now[0]), fn(f, then[0]))), N3, N2)
        return m, m
    c, t = now[0], then[0]
    if '_eq_' in name:
        m = I(neg(c), I(neg(t), N3, N2), I(neg(t), N2, N3))
        return m, m
    m = I(pos(c), I(pos(t), N3, N2), I(zero(c), N0, I(pos(t), N2, N3)))
    return m, m

def taped(t):
    """a recorded value in terms of the operand values at taping"""
    def f(a):
        if a[0] == 'ad': return atom(('adT', a[1]))
        if a[0] in ('loc', 'newloc'): return atom(a)
        return None
    return T.rewrite(toP(t), f)

def ret_cell(S):
    out = set()
    for s in S.epi:
        for y in walk(s):
            if y and y[0] == 'return' and len(y) > 2 and y[2]:
                v = y[2]
                while v and v[0] == 'cast': v = v[4]
                if v and v[0] == 'ref': out.add(S.tu.decls[v[2]]['n'])
                else: return None
    if len(out) != 1: return None
    return S.hv.get(('h', out.pop()))

def roles(cx, name):
    if name in HOREV:
        S = cx.sweep(name, **dict(std_params(name), degre=1, nrows=1, p=1))
        return S, model.HigherRoles(S, cx.codes, 2, 1)
    S = cx.sweep(name, **std_params(name))
    try: R = model.Roles(S, cx.codes)
    except AnalysisBroken:
        if name not in STRUCT: raise
        R = model.NoRoles()
    return S, R

def target(on, o):
    """where the operation writes: the location, or the one its reference holds"""
    l = o.locs[-1]
    if on.startswith('ref_'):
        v = (o.pre or {}).get(l)
        return toP(v) if v is not None else fn('trunc', fn('fabs', atom(('ad', l))))
    return l

def gate(S, R, name, on, o):
    """(cells set before the run, term that does not vanish where the code is due)"""
    if name in HOREV:
        row = R.arow(target(on, o))
        return {(row, num(2)): ZERO}, I(zero(atom(('tc0', target(on, o), ZERO))), ZERO, I(zero(atom(('tc0', target(on, o), ONE))), ZERO, ONE))
    if name in REV and R.tab:
        l = target(on, o)
        return {}, I(zero(atom(('tc0', l)) if R.tab[0][0] == 'flat' else atom(('tc0', l, ZERO))), ZERO, ONE)
    return {}, ONE

def tangent(R, name, l):
    if name not in FWD or not R.tab or name.startswith(('int_', 'indo', 'nonl')): return None
    return atom(('tc0', l)) if R.tab[0][0] == 'flat' else atom(('tc0', l, ZERO))

TY = [atom(('sym', 'saved%d' % i)) for i in range(40)]
CODES = (3, 2, 1, 0, -1, -2)

def shapes(cx):
    cases, und = cx.corpus()
    out = {}
    for c in cases:
        made = set()
        for o in c.ops:
            on = cx.names[o.code]
            if switch(on) or on in COMPARE:
                args = o.locs[:1] if on in COMPARE else o.locs[:-1]
                if on in COMPARE or not any(a in made for a in args):
                    k = (o.code, tuple(o.locs.index(x) for x in o.locs), tuple(taped(v) for v in o.vals), bool(o.pre), tuple(c.alias))
                    if k not in out: out[k] = (o, c)
            made.update(l for l in o.locs if (atom_of(l) or ('',))[0] == 'newloc')
    return list(out.values()), cases, und

def leaves(b, cell):
    """code after the section, codes where the sweep is left: (kind, condition, code)"""
    return b.st.mem.get(cell), [(k, g, x, v) for k, g, x, v, o in b.rets]

def job(name):
    cx = CX_
    out = []
    def ok(key, good, why='', sample=None): out.append(('check', key, bool(good), why, sample))
    def skip(key, why): out.append(('skip', key, False, why, None))
    def cnt(what): out.append(('count', what, True, '', None))
    S, R = roles(cx, name)
    cell = ret_cell(S)
    if cell is None and name in STRUCT:
        # never assigned in the dispatch: the epilogue alone decides
        try: f = S.I.seq_exec(S.epi, S.start.copy())
        except Unsupported as ex: skip(name, str(ex)); return name, out
        vs = {toP(v) for kind, g, x, v in f.ex if kind in ('ret', 'return') and v is not None}
        if not vs: skip(name, 'no value returned')
        else: ok(name + ':structure', vs == {N3}, '%s: a sweep that sees no values returns %s' % (name, ', '.join(T.show(v) for v in vs)), name + ' returns 3')
        return name, out
    if cell is None:
        skip(name, 'the code returned is not one variable'); return name, out
    h = [a for a, c in S.hv.items() if c == cell][0]
    ok(name + ':start', S.h0.get(h) == N3, '%s: the code starts as %s, not 3' % (name, T.show(S.h0.get(h))))
    line = lambda on: S.tu.loc(S.labels[cx.codes[on]][1])
    # the code is what the sweep returns
    for k in CODES:
        st = S.start.copy(); st.mem[cell] = num(k)
        S.I.exits = []; S.I.depth = 0; S.I.loopN = {}; S.I.seq = S.seq0
        try: f = S.I.seq_exec(S.epi, st)
        except Unsupported as ex: skip(name + ':return', str(ex)); break
        vs = {toP(v) for kind, g, x, v in f.ex if kind in ('ret', 'return') and v is not None}
        if not vs: skip(name + ':return', 'no value returned'); break
        ok('%s:return:%d' % (name, k), vs == {num(k)}, '%s: with code %d the sweep returns %s' % (name, k, ', '.join(T.show(v) for v in vs)), '%s: code %d is returned' % (name, k))
    # other operations leave the code alone
    seen = set()
    for c in CASES:
        for o in c.ops:
            on = cx.names[o.code]
            if o.code in seen or switch(on) or on in COMPARE or on in EXT or on in REFUSED.get(name, ()) or o.code not in S.labels: continue
            seen.add(o.code)
            b = model.bound_run(S, R, [o], ty=list(TY) if S.reverse else None)
            if b.err:
                if b.err.startswith('unsupported'): skip('%s:%s' % (name, on), b.err)
                continue
            v = b.st.mem.get(cell)
            ok('%s:%s' % (name, on), v == atom(h) and not b.rets, '%s: %s in %s changes the return code to %s' % (line(on), on, name, T.show(v)), '%s:%s keeps the code' % (name, on))
    if name in STRUCT:
        for o, c in SHAPES:
            on = cx.names[o.code]
            if on in REFUSED.get(name, ()) or o.code not in S.labels: continue
            b = model.bound_run(S, R, [o], ty=list(TY) if S.reverse else None)
            if b.err: 
                if b.err.startswith('unsupported'): skip('%s:%s' % (name, on), b.err)
                continue
            v = b.st.mem.get(cell)
            ok('%s:%s:structure' % (name, on), v == atom(h) and not b.rets, '%s: %s in %s, which sees no values, changes the return code to %s' % (line(on), on, name, T.show(v)))
        return name, out
    for o, c in SHAPES:
        on = cx.names[o.code]
        if on in REFUSED.get(name, ()) or o.code not in S.labels or on in NO_SWITCH.get(name, ()): continue
        q = model.mkop(o.code, o.locs, [taped(v) for v in o.vals]); q.pre = o.pre
        pre0, due = gate(S, R, name, on, o)
        key0 = '%s:%s:%s' % (name, c.name(), on)
        variants = [('', {}, list(TY))]
        if name in HOREV and on == 'abs_val':
            # the loops over the coefficients depend on the first one that does not vanish
            variants = []
            for v0, v1 in ((2, 1), (-2, 1), (0, 1), (0, -1), (0, 0)):
                l = o.locs[0]
                variants.append((':%d,%d' % (v0, v1), {(R.trow(l), ZERO): num(v0), (R.trow(l), ONE): num(v1)}, [num(v1), num(v0)]))
        for vn, pv, ty in variants:
            if not decide_codes(ok, skip, cnt, S, R, cx, name, on, o, q, c, cell, key0 + vn, dict(pre0, **{}) | pv, ty, due, line): break
    return name, out

def decide_codes(ok, skip, cnt, S, R, cx, name, on, o, q, c, cell, key0, pre, ty, due, line):
    for k in CODES:
        key = '%s:%d' % (key0, k)
        b = model.bound_run(S, R, [q], pre=pre | {cell: num(k)}, ty=ty if S.reverse else None)
        if b.err:
            if b.err.startswith('unsupported') or not b.aborts: skip(key0, b.err)
            else: cnt('refused by design')
            return False
        r = toP(b.st.mem.get(cell))
        def x(l):
            v = b.final.get(('ad', l)) if S.reverse else None
            if v is None: v = (o.pre or {}).get(l)
            if v is None and name in HOREV: v = pre.get((R.trow(l), ZERO))
            return toP(v) if v is not None else atom(('ad', l))
        if on in COMPARE: compare(ok, skip, S, name, cx, on, o, b, cell, k, key, x, line); continue
        args = o.locs[:-1]
        now = [x(l) for l in args]
        then = [atom(('adT', l)) if not ((o.pre or {}).get(l)) else toP(o.pre[l]) for l in args]
        main, alt = expected(on, now, then, on == 'min_op' and args[0] == args[1])
        kink = on == 'abs_val' and name in FWD
        if kink:
            # at zero: certain when a tangent is there, allowed otherwise
            tg = tangent(R, name, args[0])
            due = ZERO if tg is None or name.startswith('ho') else I(zero(tg), ZERO, ONE)
        rs = regions([r, main, alt, due], depth=10)
        if rs is None: skip(key0, 'too many regions'); return False
        if any(const_of(toP(t)) is None for reg, ts in rs for t in ts):
            skip(key0, 'code not decided: ' + T.show(r)[:200]); return False
        for reg, ts in rs:
            v, m, a, d = [int(const_of(toP(t))) for t in ts]
            # two equal arguments with several directions: refused by design
            if name == 'hos_ov_reverse' and on == 'min_op' and m == 1: continue
            okv = {min(k, m), min(k, a)}
            if d == 0 and (not kink or m == 1): okv.add(k)
            # at the tie of a conditional assignment a reverse sweep may leave the report to the forward sweep
            if S.reverse and m == 0: okv |= {k, min(k, 2)}
            ok(key, v in okv, '%s: replaying %s recorded by %s in %s: code %d is left where %s follows from the values (code so far %d; %s)' % (
                line(on), on, c.name(), name, v, ' or '.join(str(y) for y in sorted(okv)), k, show_region(reg)), '%s: %s -> %d' % (key, show_region(reg)[:100], v))
        if b.rets: ok(key + ':left', False, '%s: %s in %s leaves the sweep' % (line(on), on, name))
    return True

SAT = {'eq': (0,), 'ne': (-1, 1), 'le': (-1, 0), 'gt': (1,), 'ge': (0, 1), 'lt': (-1,)}
def compare(ok, skip, S, name, cx, on, o, b, cell, k, key, x, line):
    """a comparison that turns out otherwise than at taping ends the sweep with a negative code; a tie is reported"""
    rel = COMPARE[on]
    v = x(o.locs[0])
    r = toP(b.st.mem.get(cell))
    left = []
    for kind, g, st, val, _ in b.rets:
        left.append((g, st, kind, val))
    bits = [T.ite(g, ONE, ZERO) for g, st, kind, val in left]
    sign = T.ite(neg(v), num(-1), T.ite(zero(v), ZERO, ONE))
    rs = regions([r, sign] + bits + [toP(st.mem.get(cell, ZERO)) for g, st, kind, val in left], depth=8)
    if rs is None or any(const_of(toP(t)) is None for reg, ts in rs for t in ts):
        skip(key, 'code not decided: ' + T.show(r)[:200]); return
    n = len(left)
    for reg, ts in rs:
        ts = [int(const_of(toP(t))) for t in ts]
        code, sg, gs, cs = ts[0], ts[1], ts[2:2 + n], ts[2 + n:]
        out = [i for i in range(n) if gs[i]]
        if S.reverse:
            tie = rel == 'eq' or (rel in ('le', 'ge') and sg == 0)
            good = not out and code in ({min(k, 0)} if tie else {k})
            want = str(min(k, 0) if tie else k)
        elif sg in SAT[rel]:
            tie = sg == 0
            good = not out and code == (min(k, 0) if tie else k)
            want = '%d, and the sweep continues' % (min(k, 0) if tie else k)
        else:
            want = 'a negative code that ends the sweep'
            good = False
            if out:
                g, st, kind, val = left[out[0]]
                c = int(const_of(toP(val))) if val is not None and const_of(toP(val)) is not None else cs[out[0]]
                code = c
                good = c in (-1, min(k, -1)) and ends(S, st, kind)
        ok(key, good, '%s: %s in %s: code %d%s where %s is due (code so far %d; %s)' % (line(on), on, name, code, ', sweep left' if out else '', want, k, show_region(reg)),
           '%s: %s -> %d%s' % (key, show_region(reg)[:80], code, ', ends' if out else ''))

def ends(S, st, kind):
    """control does not come back to the dispatch"""
    if kind != 'continue': return kind in ('ret', 'return', 'goto')
    if S.loop[0] not in ('while', 'do'): return False
    cond = S.loop[2] if S.loop[0] == 'while' else S.loop[3]
    try: v = S.I.cond(cond, st.copy())
    except Unsupported: return False
    return v == T.FALSE

def c18():
    global CX_, SHAPES, CASES
    rep = Report('C18', 'value numbering of the interpreter sections over two points, the one of taping and the one of evaluation; the resulting codes compared region by region')
    rep.rule('code', 'a section leaves min(code so far, code of the operation): 2 where another branch is taken than at taping, 1 at a kink, 0 at a tie of a comparison, unchanged otherwise')
    rep.rule('abort', 'a comparison with another outcome than at taping ends the sweep with a negative code')
    rep.rule('neutral', 'the code starts as 3, no other operation changes it, and it is what the sweep returns')
    CX_ = cx = CX.Ctx(FWD + REV + HOREV + STRUCT)
    SHAPES, CASES, und = shapes(cx)
    for q, w, why in und: rep.skip('%s %s' % (q, w), why)
    names = FWD + REV + HOREV + STRUCT
    for n in names: cx.sweep_fn(n)
    with ProcessPoolExecutor(8) as ex:
        for name, res in ex.map(job, names):
            rep.count('interpreters')
            for kind, key, good, why, sample in res:
                if kind == 'skip': rep.skip(key, why)
                elif kind == 'count': rep.count(key)
                else: rep.check(good, key, why, sample)
    rep.floor(5000)
    return rep.finish()

CHECKS = {'C18': c18}
