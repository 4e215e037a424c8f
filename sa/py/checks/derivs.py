"""C03-C05: first order tangents, adjoints and the Taylor stack."""
import ctx as CX, model, calc
import terms as T
from terms import num, const_of, toP, ZERO, ONE, atom, add, mul, sub, atom_of, isP
from load import AnalysisBroken
from report import Report
from equal import equal, show_region, same
from checks.tape import std_params, REFUSED

NONSMOOTH = {'abs_val', 'min_op', 'ceil_op', 'floor_op'}
TANGENT = ['fos_forward', 'fos_pl_forward', 'fos_pl_sig_forward', 'fov_forward', 'fov_offset_forward', 'fov_pl_forward', 'fov_pl_sig_forward']
ADJOINT = ['fos_reverse', 'fos_pl_reverse', 'fos_pl_sig_reverse', 'fov_reverse', 'fov_pl_reverse']
DIRS = 2

def runs_of(cx, rep):
    cases, und = cx.corpus()
    for q, w, why in und: rep.skip('%s %s' % (q, w), why)
    out = []
    for c in cases:
        if c.ops: out.append((c.ops, c.final, c.cond, c.name(), c.fname, c))
    for nm, sg, o, fin in model.fused_products(cx.codes): out.append(([o], fin, (), 'in-place product ' + nm, nm, None))
    return out

def is_leaf(a): return a[0] == 'ad'

def keyof(k): return T.show(k)

def tangents(cx, S, R, ops, final, cond, key, line, cname, name, rep, dirs):
    b = model.bound_run(S, R, ops)
    if b.err:
        if b.err.startswith('unsupported'): rep.skip(key, b.err)
        else: rep.count('sections that end in an error')
        return
    rep.count('replayed records')
    flat = R.tab[0][0] == 'flat'
    got = {k[1:]: v for k, v in b.final.items() if k[0] == 'tc0'}
    ns = [cx.names[o.code] for o in ops]
    smooth = not any(n in NONSMOOTH for n in ns)
    pl = name in ('fos_pl_forward', 'fov_pl_forward') and 'abs_val' in ns     # increments of the piecewise linear model
    locs = {k[0] for k in got} | set(final)
    for l in sorted(locs, key=T.key):
        F = final.get(l, atom(('ad', l)))
        try: g = calc.grad(F, is_leaf)
        except calc.NoDerivative as ex: rep.skip(key, 'no derivative rule for %s' % ex); continue
        for d in range(dirs):
            def tc(j): return atom(('tc0', j)) if flat else atom(('tc0', j, num(d)))
            kk = (l,) if flat else (l, num(d))
            want = ZERO
            if pl: want = sub(T.subst(F, {a: add(atom(a), tc(a[1])) for a in g}), F)
            else:
                for a, p in g.items(): want = add(want, mul(p, tc(a[1])))
            have = got.get(kk, tc(l))
            r = equal(have, want, cond, ok=('tc0',), ties=smooth, regular=True)
            if r is None:
                rep.skip(key, 'tangent of %s not modelled: %s / %s' % (T.show(l), T.show(have)[:150], T.show(want)[:150])); continue
            rep.check(r is True, key, lambda: '%s: after replaying what %s recorded, the tangent of location %s (direction %d) is %s; the chain rule gives %s (%s)' % (
                line, cname, T.show(l), d, T.show(r[1])[:250], T.show(r[2])[:250], show_region(r[0])),
                '%s: d %s = %s' % (key, T.show(l), T.show(want)[:100]))
        if not flat:
            extra = [k for k in got if k[0] == l and not any(k[1] == num(d) for d in range(dirs))]
            for k in extra:
                if const_of(toP(k[1])) is not None and equal(got[k], atom(('tc0', k[0], k[1])), cond, ok=('tc0',), ties=smooth, regular=True) is True: continue
                rep.skip(key, 'tangent index %s not constant' % T.show(k[1]))

def c03():
    rep = Report('C03', 'value numbering of recorders and first order forward sections; symbolic differentiation of the recorded value numbers; normal forms compared region by region')
    cx = CX.Ctx(TANGENT)
    runs = runs_of(cx, rep)
    rep.rule('tangent', "for every location l the section leaves d l = sum_j dF_l/dx_j * d x_j, F_l the value the recorder computed, d x the tangents before the section")
    for name in TANGENT:
        dirs = 1 if name.startswith('fos') else DIRS
        S = cx.sweep(name, **dict(std_params(name), p=dirs))
        R = model.Roles(S, cx.codes)
        if R.val is None or not R.tab: raise AnalysisBroken('%s: value and derivative arrays not found' % name)
        rep.count('interpreters')
        for ops, final, cond, cname, fname, c in runs:
            ns = [cx.names[o.code] for o in ops]
            if any(n in REFUSED.get(name, ()) or o.code not in S.labels for o, n in zip(ops, ns)): continue
            if '_sig_' in name and any(n in ('abs_val', 'min_op') for n in ns): continue
            if any(n in ('assign_ind', 'ref_assign_ind', 'subscript_ref') for n in ns): continue
            key = '%s:%s:%s' % (name, fname, '+'.join(ns))
            tangents(cx, S, R, ops, final, cond, key, S.tu.loc(S.labels[ops[-1].code][1]), cname, name, rep, dirs)
    rep.floor(1500)
    return rep.finish()


def reverse_run(S, R, ops, final, push):
    pre = {(R.val, l): v for l, v in final.items()}
    return model.bound_run(S, R, ops, pre=pre, ty=list(reversed(push)))

def pushes_of(ops, c):
    if c is not None: return c.push
    return []           # in-place products: the product's old value is pushed by nobody

def adjoints(cx, S, R, ops, final, cond, key, line, cname, push, name, rep, dirs):
    b = reverse_run(S, R, ops, final, push)
    if b.err:
        if b.err.startswith('unsupported'): rep.skip(key, b.err)
        else: rep.count('sections that end in an error')
        return None
    rep.count('replayed records')
    flat = R.tab[0][0] == 'flat'
    got = {k[1:]: v for k, v in b.final.items() if k[0] == 'tc0'}
    ns = [cx.names[o.code] for o in ops]
    smooth = not any(n in NONSMOOTH for n in ns)
    grads = {}
    try:
        for l, F in final.items(): grads[l] = calc.grad(F, is_leaf)
    except calc.NoDerivative as ex:
        rep.skip(key, 'no derivative rule for %s' % ex); return b
    # second result of sin/cos is private to the operation: nothing else reads it, its adjoint is zero
    aux = {('tc0', o.locs[1]) for o in ops if cx.names[o.code] in ('sin_op', 'cos_op')}
    def clear(a): return ZERO if a[0] == 'tc0' and a[:2] in aux else None
    js = {k[0] for k in got} | set(final) | {a[1] for g in grads.values() for a in g}
    for j in sorted(js, key=T.key):
        for d in range(dirs):
            def A(l): return atom(('tc0', l)) if flat else atom(('tc0', l, num(d)))
            want = A(j) if j not in final else ZERO
            for l, g in grads.items():
                p = g.get(('ad', j))
                if p is not None: want = add(want, mul(p, A(l)))
            kk = (j,) if flat else (j, num(d))
            have = got.get(kk, A(j))
            if aux: have, want = T.rewrite(have, clear), T.rewrite(want, clear)
            r = equal(have, want, cond, ok=('tc0',), ties=smooth, regular=True)
            if r is None:
                rep.skip(key, 'adjoint of %s not modelled: %s / %s' % (T.show(j), T.show(have)[:150], T.show(want)[:150])); continue
            rep.check(r is True, key, lambda: '%s: reversing what %s recorded leaves the adjoint of location %s (weight %d) at %s; the transposed chain rule gives %s (%s)' % (
                line, cname, T.show(j), d, T.show(r[1])[:250], T.show(r[2])[:250], show_region(r[0])),
                '%s: A(%s) = %s' % (key, T.show(j), T.show(want)[:100]))
    return b

def c04():
    rep = Report('C04', 'value numbering of recorders and first order reverse sections; transposed symbolic derivative of the recorded value numbers; normal forms compared region by region')
    cx = CX.Ctx(ADJOINT)
    runs = runs_of(cx, rep)
    rep.rule('adjoint', 'for every location j the section leaves A_j = sum_l A_l * dF_l/dx_j (plus A_j when j is not overwritten)')
    for name in ADJOINT:
        dirs = 1 if name.startswith('fos') else DIRS
        S = cx.sweep(name, **dict(std_params(name), nrows=dirs))
        R = model.Roles(S, cx.codes)
        if R.val is None or not R.tab: raise AnalysisBroken('%s: value and adjoint arrays not found' % name)
        rep.count('interpreters')
        for ops, final, cond, cname, fname, c in runs:
            ns = [cx.names[o.code] for o in ops]
            if any(n in REFUSED.get(name, ()) or o.code not in S.labels for o, n in zip(ops, ns)): continue
            if any(n in ('assign_ind', 'ref_assign_ind', 'assign_dep', 'subscript_ref') for n in ns): continue
            if '_sig_' in name and any(n in ('abs_val', 'min_op') for n in ns): continue
            key = '%s:%s:%s' % (name, fname, '+'.join(ns))
            push = pushes_of(ops, c)
            if push is None: rep.skip(key, 'number of saved values not constant'); continue
            adjoints(cx, S, R, ops, final, cond, key, S.tu.loc(S.labels[ops[-1].code][1]), cname, push, name, rep, dirs)
    rep.floor(1500)
    return rep.finish()


SAVING = [('zos_forward', {'keep': 1}), ('fos_forward', {'keep': 1}), ('fos_forward', {'keep': 2}), ('hos_forward', {'keep': 1}),
          ('zos_pl_forward', {'keep': 1})]

def case(L):
    xs = [c for c in L.cond if not any(a == 'upd' for a in _flat(c))]
    return 'always' if not xs else 'if ' + ', '.join(T.show(c) for c in xs)
def _flat(x):
    if isinstance(x, tuple):
        for y in x: yield from _flat(y)
    else: yield x

def fused_updates(cx, rep):
    """x += y*z and x -= y*z rewrite the record of the product"""
    import record
    from checks import overload
    from absint import Unsupported
    rep.rule('fused', 'an overload that rewrites the record of a product takes back exactly the value saved for the temporary and what was accounted for it, with any operand values, and asks for the operation it performs')
    rep.rule('rewrite', 'the last record is rewritten only when it is the product that made the temporary and the target is no factor of it; otherwise the tape stays as it is')
    sign = {cx.codes['eq_plus_prod']: 1, cx.codes['eq_minus_prod' if 'eq_minus_prod' in cx.codes else 'eq_min_prod']: -1}
    n = 0
    for f, nm, ts, ss, cls in overload.targets(cx.prog):
        if nm not in ('operator+=', 'operator-='): continue
        sig = '%s(%s)' % (f['q'], ','.join(ts))
        for keep in (1, 0):
            try: leaves = record.Recorder(cx.prog, f, keep=keep).run()
            except Unsupported as ex:
                rep.skip(sig, str(ex)); continue
            for L in leaves:
                upd = []
                for c in L.cond:
                    if c[0] != 'not' or c[1][0] != 'eq': continue
                    for a in T.atoms(toP(c[1][1])):
                        if a[0] == 'upd': upd.append(a)
                if len(upd) != 1: continue
                n += 1
                u = upd[0]
                line = f['tu'].loc(f['l'])
                tw = toP(L.st.mem.get((record.TW, ZERO), ZERO))
                key = 'fused:%s' % sig
                base = [e for e in L.events if e[0] == 'op']
                # every operation recorded before saves one value (rule 'saved'); the rewritten one takes its value back
                d = num(len(base) - 1)
                rep.check(toP(L.numtays) == d, key + ':count', lambda: '%s: %s, when it rewrites the record of a product, accounts for %s values instead of %s (%s)' % (line, sig, T.show(toP(L.numtays)), T.show(d), case(L)))
                want = d if keep else ZERO
                rep.check(tw == want, key + ':saved', lambda: '%s: %s, when it rewrites the record of a product, changes the number of saved values by %s instead of %s (%s)' % (line, sig, T.show(tw), T.show(want), case(L)),
                          '%s takes back the value of the temporary' % sig)
                dels = [e[1] for e in L.events if e[0] == 'delete_scaylor']
                if keep: rep.check(dels == [u[2]], key + ':place', lambda: '%s: %s takes back a value for %s, the temporary is %s' % (line, sig, [T.show(x) for x in dels], T.show(u[2])))
                code = const_of(u[4])
                this = atom(('loc', 'this'))
                rep.check(u[3] == this, key + ':target', lambda: '%s: %s directs the product to %s' % (line, sig, T.show(u[3])))
                tmp = L.st.mem.get((record.AD, u[2]), atom(('ad', u[2])))
                if base: continue
                have = L.st.mem.get((record.AD, this), atom(('ad', this)))
                if code not in sign: rep.check(False, key + ':code', '%s: %s rewrites the product to operation %s' % (line, sig, cx.names.get(code))); continue
                r = equal(toP(have), add(atom(('ad', this)), mul(num(sign[code]), toP(tmp))), L.cond)
                rep.check(r is True, key + ':code', lambda: '%s: %s leaves %s but rewrites the product to %s' % (line, sig, T.show(toP(have)), cx.names[code]))
    rep.count('fused updates', n)
    # the rewriting itself, executed on tapes
    from checks import storage
    from drive import Broken
    c = cx.codes
    k = 0
    for new in ('eq_plus_prod', 'eq_min_prod'):
        for last, (x, y, t), temp, r in [(l, f3, tp, r) for l in ('mult_a_a', 'div_a_a', 'plus_a_a', 'eq_mult_a') for f3 in ((3, 5, 7), (3, 3, 7)) for tp in (7, 9) for r in (3, 5, 11)]:
            if r == 5 and y == 3: continue
            key = 'rewrite:%s' % new
            what = '%s(%d,%d,%d), then %s of temporary %d to %d' % (last, x, y, t, new, temp, r)
            try:
                h = storage.Hist(cx, 50, 90, 20, 20)
                D, st = h.D, h.st
                for n_ in ('storeSize', 'numLives', 'numparam'): D.setf(st, 0, 'globalTapeVars_', n_)
                D.setf(st, storage.NULL, 'globalTapeVars_', 'pStore')
                h.names(); h.tb = 20
                h.free('trace_on', 1, 0)
                locs = [num(v) for v in ((x, y, t) if last != 'eq_mult_a' else (x, t))]
                for o, ls in (('assign_ind', [num(3)]), (last, locs)):
                    h.call('put_op', c[o], 0)
                    for l in ls: h.call('put_loc', l)
                    h.call('increment_numTays_Tape')
                rc = const_of(toP(h.call('upd_resloc_inc_prod', temp, r, c[new])))
                h.call('stop_trace', 0); h.call('workMode', 0)
                hit = last == 'mult_a_a' and temp == t and r not in (x, y)
                h.rec = [(num(c['assign_ind']), [num(3)], []), (num(c[new]), [num(x), num(y), num(r)], []) if hit else (num(c[last]), locs, [])]
                h.store, h.params, h.tay = [], [], []
                h.forward()
                k += 1
                rep.check((rc != 0) == hit, key, lambda: 'ADOL-C/include/adolc/valuetape/tapeinfos.h: after %s the tape reports %s' % (what, rc), what)
            except Unsupported as ex: rep.skip(key, str(ex))
            except (Broken, storage.Wrong) as ex:
                rep.check(False, key, 'ADOL-C/include/adolc/valuetape/tapeinfos.h: after %s: %s' % (what, ex))
    rep.count('rewritten records', k)

def c05():
    rep = Report('C05', 'value numbering of recorders, saving forward sections and reverse sections; sequences of saved values compared entry by entry')
    cx = CX.Ctx([s for s, _ in SAVING] + ADJOINT + ['hos_ti_reverse'])
    runs = runs_of(cx, rep)
    rep.rule('count', 'the number of values a recording saves equals the number it accounts for (buffer and reverse sweeps are sized by it)')
    rep.rule('saved', 'with keep, a forward section saves exactly the values the recording would have saved, in the same order')
    rep.rule('restored', 'a reverse section takes exactly the saved values of its operation and leaves every location at the value it had before the operation')
    for ops, final, cond, cname, fname, c in runs:
        if c is None: continue
        key = 'record:%s:%s' % (fname, '+'.join(cx.names[o.code] for o in ops))
        if c.push is None: rep.skip(key, 'number of saved values not constant'); continue
        rep.check(toP(c.numtays) == num(len(c.push)), key + ':count', lambda: '%s (%s): saves %d values with keep but accounts for %s' % (c.where, cname, len(c.push), T.show(c.numtays)))
        rep.check(not any(x is None for x in c.push), key + ':hole', lambda: '%s: a saved value is not defined' % cname)
        # what is saved must be the value an overwritten location had
        old = [toP(x) for x in c.push]
        rep.count('recorded cases')
    for name, ps in SAVING:
        S = cx.sweep(name, **dict(std_params(name), **ps))
        R = model.Roles(S, cx.codes)
        tag = '%s(keep=%d)' % (name, ps['keep'])
        rep.count('saving sweeps')
        # a sweep that does not save at all offers no keep: its save parameter is absent
        for ops, final, cond, cname, fname, c in runs:
            ns = [cx.names[o.code] for o in ops]
            if any(n in REFUSED.get(name, ()) or o.code not in S.labels for o, n in zip(ops, ns)): continue
            push = pushes_of(ops, c)
            if push is None: continue
            key = '%s:%s:%s' % (tag, fname, '+'.join(ns))
            b = model.bound_run(S, R, ops)
            if b.err:
                if b.err.startswith('unsupported'): rep.skip(key, b.err)
                continue
            if b.pushes is None: rep.skip(key, 'number of saved values not constant'); continue
            line = S.tu.loc(S.labels[ops[-1].code][1])
            have = list(b.pushes)
            w = ps['keep'] if name.startswith('fos') else 1
            ok = len(have) == w * len(push)
            rep.check(ok, key + ':count', lambda: '%s: replaying what %s recorded saves %d values, the recording saved %d (%d per operation)' % (line, cname, len(have), len(push), w))
            if not ok: continue
            if any(n in ('subscript_ref',) for n in ns): continue
            for i, x in enumerate(push):
                h = have[w * i]
                if '_sig_' in name and any(n in ('abs_val', 'min_op') for n in ns): continue
                r = equal(h, x, cond)
                if r is None: rep.skip(key, 'saved value %d not modelled: %s / %s' % (i, T.show(h)[:100], T.show(x)[:100])); continue
                rep.check(r is True, key, lambda: '%s: replaying what %s recorded saves %s as value %d, the recording saved %s (%s)' % (
                    line, cname, T.show(r[1])[:150], i, T.show(r[2])[:150], show_region(r[0])), '%s: saves %s' % (key, T.show(x)[:80]))
    fused_updates(cx, rep)
    for name in ADJOINT:
        S = cx.sweep(name, **std_params(name))
        R = model.Roles(S, cx.codes)
        rep.count('reverse sweeps')
        for ops, final, cond, cname, fname, c in runs:
            ns = [cx.names[o.code] for o in ops]
            if any(n in REFUSED.get(name, ()) or o.code not in S.labels for o, n in zip(ops, ns)): continue
            push = pushes_of(ops, c)
            if push is None: continue
            key = '%s:%s:%s' % (name, fname, '+'.join(ns))
            b = reverse_run(S, R, ops, final, push)
            if b.err:
                if b.err.startswith('unsupported'): rep.skip(key, b.err)
                continue
            line = S.tu.loc(S.labels[ops[-1].code][1])
            npop = equal(b.pops, num(len(push)), cond)
            if npop is None: rep.skip(key, 'number of values taken not modelled: ' + T.show(b.pops)); continue
            ok = npop is True
            rep.check(ok, key + ':pops', lambda: '%s: reversing what %s recorded takes %s saved values, %d were saved' % (line, cname, T.show(b.pops), len(push)))
            if not ok: continue
            if any(n in ('subscript_ref',) for n in ns): continue
            for l in sorted(final, key=T.key):
                want = atom(('ad', l))
                have = b.st.mem.get((R.val, l), final[l])
                r = equal(have, want, cond)
                if r is None: rep.skip(key, 'restored value of %s not modelled: %s' % (T.show(l), T.show(have)[:150])); continue
                rep.check(r is True, key, lambda: '%s: reversing what %s recorded leaves location %s at %s instead of the value before the operation (%s)' % (
                    line, cname, T.show(l), T.show(r[1])[:200], show_region(r[0])), '%s: %s restored' % (key, T.show(l)))
    rep.floor(3000)
    return rep.finish()

CHECKS = {'C03': c03, 'C04': c04, 'C05': c05}
