"""C01 stream agreement between recording and every interpreter."""
import ctx as CX, model, sweep, record
import terms as T
from terms import num, const_of, toP, ZERO, atom, atom_of, isP, mul, add
from load import AnalysisBroken
from absint import Unsupported
from report import Report

PARAMS = dict(p=1, nrows=1, gdegree=1, degre=1, keep=1)
def std_params(name):
    d = dict(PARAMS)
    if name.startswith(('hos_', 'hov_wk')): d['keep'] = 2
    return d

def shapes(cases):
    """distinct single-operation records of the corpus"""
    seen = {}
    for c in cases:
        for o in c.ops:
            k = (o.code, tuple(o.locs.index(x) for x in o.locs), len(o.vals), tuple(const_of(v) for v in o.vals))
            if k not in seen: seen[k] = (o, c)
    return [v for k, v in sorted(seen.items(), key=lambda kv: T.key(kv[0]))]

# operations an interpreter refuses by design, with an explicit error (each confirmed by reading)
REF_OPS = {'ref_assign_a', 'ref_assign_d', 'ref_assign_d_one', 'ref_assign_d_zero', 'ref_assign_ind', 'ref_cond_assign',
           'ref_cond_assign_s', 'ref_cond_eq_assign', 'ref_cond_eq_assign_s', 'ref_copyout', 'ref_decr_a', 'ref_eq_min_a',
           'ref_eq_min_d', 'ref_eq_mult_a', 'ref_eq_mult_d', 'ref_eq_plus_a', 'ref_eq_plus_d', 'ref_incr_a', 'subscript', 'subscript_ref'}
REFUSED = {}
for _n in ('int_forward_safe', 'int_reverse_safe', 'indopro_forward_safe', 'nonl_ind_forward_safe', 'nonl_ind_old_forward_safe',
           'indopro_forward_absnormal'):
    REFUSED[_n] = set(REF_OPS)         # active subscripts need values, these modes have none
for _n in ('hos_forward', 'hov_forward', 'hov_wk_forward', 'hos_ti_reverse', 'hos_ov_reverse', 'hov_ti_reverse'):
    REFUSED[_n] = {'cbrt_op'}          # no higher order rule for cbrt (error HO_OP_NOT_IMPLEMENTED)
EXT = {'ext_diff', 'ext_diff_iArr', 'ext_diff_v2'}
for _n in CX.SWEEPS:                   # external functions have callbacks for zero and first order only
    if _n.startswith(('ho', 'int_', 'indopro', 'nonl_')): REFUSED[_n] = REFUSED.get(_n, set()) | EXT
# never documented: tape_doc stops with an error
REFUSED['tape_doc'] = REF_OPS | {'assign_p', 'cond_eq_assign', 'cond_eq_assign_s'}

def ext_records(cx, rep):
    """variable-length records of the external function calls, with small constant sizes"""
    out = []
    for f in cx.prog.all_functions():
        if not f['q'].split('::')[-1].startswith('call_ext_fct'): continue
        fx = {}
        for i in f['ps']:
            d = f['tu'].decls[i]
            if d['t'] in ('int', 'unsigned long', 'size_t', 'unsigned int'): fx[d['n']] = num(2)
        R = record.Recorder(cx.prog, f, fixed=fx)
        try: leaves = R.run()
        except Unsupported as ex:
            rep.skip(f['q'] + ' ' + f['tu'].loc(f['l']), ex); continue
        for L in leaves:
            ops = model.segment(L)
            if not ops:
                if L.ops: rep.skip(f['q'] + ' ' + f['tu'].loc(f['l']), 'variable-length record')
                continue
            for o in ops: out.append(o)
    return out

def stock_records(cx, rep):
    """take_stock: two locations (count, first) and `count` constants"""
    out = []
    f = next((f for f in cx.prog.all_functions() if f['q'] == 'ValueTape::take_stock'), None)
    if f is None: raise AnalysisBroken('ValueTape::take_stock not found')
    R = record.Recorder(cx.prog, f)
    def evs(es):
        for e in es:
            if e[0] == 'loop': yield from evs(e[2])
            elif e[0] == 'br':
                yield from evs(e[2]); yield from evs(e[3])
            else: yield e
    n = 0
    for L in R.run():
        seq = list(evs(L.events))
        for i, e in enumerate(seq):
            if e[0] != 'op': continue
            n += 1
            code = const_of(e[1])
            lp = e[2]
            cnt, first = L.st.mem.get((('PL',), lp)), L.st.mem.get((('PL',), add(lp, num(1))))
            vals = [x for x in seq[i + 1:i + 2] if x[0] == 'vals']
            rep.check(bool(vals) and cnt is not None and first is not None and toP(vals[0][2]) == toP(cnt),
                      'take_stock:count', lambda: 'ValueTape::take_stock (%s): the count written as first location word (%s) is not the number of constants written (%s)' % (
                      e[6], T.show(cnt), T.show(vals[0][2]) if vals else 'none'))
    if not n: raise AnalysisBroken('take_stock appends no operation')
    size, first = atom(('sym', 'size')), atom(('sym', 'first'))
    return [model.mkop(cx.codes['take_stock_op'], [size, first], nvals=size, where='take_stock'),
            model.mkop(cx.codes['death_not'], [num(3), num(5)], where='keep_stock')]

def uses_constants(b):
    if b.st is None: return False
    for k in b.st.wlog:
        v = b.st.mem.get(k)
        if k[0][0] in ('tmp', 'stream', 'epoch'): continue
        if k[0][0] == 'var' and (not isP(v) or atom_of(v) is not None and atom_of(v)[0] == 'V'): continue
        if any(a[0] == 'V' for a in T.atoms((v, k))): return True
    return any(a[0] == 'V' for a in T.atoms(tuple(b.st.events)))

def c01():
    rep = Report('C01', 'value numbering of the recording functions and of every interpreter case section; word counts of the location and constant streams compared per operation')
    cx = CX.Ctx(CX.SWEEPS, extra=('externfcts.cpp', 'externfcts2.cpp', 'valuetape/valuetape.cpp'))
    cases, und = cx.corpus()
    for q, w, why in und: rep.skip('%s %s' % (q, w), why)
    ops = [o for o, c in shapes(cases)] + [o for _, _, o, _ in model.fused_products(cx.codes)]
    ops += ext_records(cx, rep) + stock_records(cx, rep)
    rep.count('recorded cases', len(cases)); rep.count('distinct records', len(ops))
    rep.count('operation codes recorded', len({o.code for o in ops}))
    rep.rule('words', 'locations and constants consumed by a case section == locations and constants written by the recorder of that operation')
    rep.rule('handled', 'every operation a recorder can append has a completing case section in every interpreter, unless it is refused explicitly by design')
    rep.rule('pointer', 'a case section writes only through row pointers it set itself')
    for name in CX.SWEEPS:
        S = cx.sweep(name, **std_params(name))
        try: R = model.Roles(S, cx.codes)
        except AnalysisBroken: R = model.NoRoles()
        rep.count('interpreters')
        res, usesV = [], False
        d = S.section('default')
        if d.err and d.err.startswith('unsupported'): rep.skip(name + ':default', d.err)
        else:
            rep.check(d.err == 'missing' or d.st is None or not d.st.mem, name + ':default',
                      '%s: the default section of %s goes on after an operation code it does not know, so the words of that operation are read as the next operations' % (d.line, name))
        for o in ops:
            key = '%s:%s' % (name, cx.names[o.code])
            if o.code not in S.labels:
                if cx.names[o.code] in REFUSED.get(name, ()):
                    rep.count('refused by design'); continue
                res.append((key, o, 'missing', 'no case section in %s for the operation %s recorded at %s' % (name, cx.names[o.code], o.where)))
                continue
            o2 = model.mkop(o.code, o.locs, [], o.nvals, o.where)
            b = model.bound_run(S, R, [o2])
            line = S.tu.loc(S.labels[o.code][1])
            if b.err and b.err.startswith('unsupported'):
                rep.skip(key, b.err); continue
            if b.err:
                res.append((key, o, 'refused', '%s: the case section for %s never completes (%s), recorded at %s' % (line, cx.names[o.code],
                            ', '.join('%s at %s' % a[:2] for a in b.aborts[:2]) or 'return', o.where)))
                continue
            usesV = usesV or uses_constants(b)
            ok = True
            for k, oo, msg in b.problems:
                res.append((key, o, k, '%s: case %s of %s: %s (recorded at %s)' % (line, cx.names[o.code], name, msg, o.where)))
                ok = False
            for n in model.stale(b.st):
                res.append((key, o, 'pointer', '%s: case %s of %s writes through %s, a pointer left behind by an earlier operation (recorded at %s)' % (line, cx.names[o.code], name, n, o.where)))
                ok = False
            if ok: res.append((key, o, None, '%s %s locations=%d constants=%s' % (line, key, len(o.locs), T.show(o.nvals))))
        done = {cx.names[o.code] for key, o, k, m in res if k is None}
        for key, o, k, m in res:
            on = cx.names[o.code]
            if k is None: rep.check(True, key, '', m)
            elif k == 'readsV' and not usesV: rep.check(True, key, '')
            elif k == 'refused' and (on in REFUSED.get(name, ()) or on in done): rep.count('refused by design')
            else: rep.check(False, key + ':' + k, m)
    rep.floor(4500)
    return rep.finish()

CHECKS = {'C01': c01}
