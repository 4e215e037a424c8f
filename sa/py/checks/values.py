"""C02 the value every forward evaluator computes is the value the program computed."""
import ctx as CX, model
import terms as T
from terms import num, const_of, toP, ZERO, ONE, atom, add, atom_of
from load import AnalysisBroken
from report import Report
from equal import equal, show_region, same
from checks.tape import std_params, REFUSED, shapes

FORWARD = [n for n in CX.SWEEPS if n.startswith(('zos_', 'fos_', 'fov_', 'hos_', 'hov_')) and 'reverse' not in n] + \
          ['int_forward_tight', 'indopro_forward_tight', 'nonl_ind_forward_tight', 'nonl_ind_old_forward_tight']
# the *_sig evaluators take the branch of abs/min from the caller's signature instead of the point: their value is not the program's
SIGNATURE_OPS = {'abs_val', 'min_op'}

def indep(rep, cx, name, S, R):
    """independents are read in order from the base point, dependents written in order to the value vector"""
    for on, vec, ctr in (('assign_ind', 'basepoint', 'indexi'), ('assign_dep', 'valuepoint', 'indexd')):
        b = model.bound_run(S, R, [model.mkop(cx.codes[on], [atom(('loc', 'x'))])])
        key = '%s:%s' % (name, on)
        if b.err: rep.skip(key, b.err); continue
        x = atom(('ad', atom(('loc', 'x'))))
        if on == 'assign_ind':
            v = b.final.get(('ad', atom(('loc', 'x'))))
            a = atom_of(v) if v is not None else None
            ok = a is not None and a[0] == 'ld' and any(y == ('sym', vec) for y in T.atoms(a[1]))
            if not ok: rep.skip(key, 'value not read from the base point array'); continue
            ix = a[2]
        else:
            st = [(k, v) for k, v in b.st.mem.items() if k in b.st.wlog and any(y == ('sym', vec) for y in T.atoms(k[0]))]
            if len(st) != 1: rep.skip(key, 'no single store to the value vector'); continue
            ix, v = st[0][0][1], st[0][1]
            r = equal(v, x)
            if r is None:
                # stored only when the caller wants values
                a = atom_of(toP(v))
                r = a is not None and a[0] == 'ite' and x in a[2:]
            rep.check(r is True, key, lambda: '%s: the dependent delivered is %s, not the value of the declared variable' % (S.tu.loc(S.labels[cx.codes[on]][1]), T.show(v)[:200]))
        h = atom_of(ix)
        if h is None or h[0] != 'h': rep.skip(key, 'index not a running counter'); continue
        r, o = S.hv[h]
        nxt = b.st.mem.get((r, o))
        rep.check(toP(nxt) == add(ix, ONE), key + ':order', lambda: '%s: %s is indexed by %s which becomes %s after one variable' % (
            S.tu.loc(S.labels[cx.codes[on]][1]), vec, h[1], T.show(nxt)), '%s: %s[%s], then %s' % (key, vec, h[1], T.show(nxt)))

def c02():
    rep = Report('C02', 'value numbering of recorders and of the forward interpreter sections; normal forms of the result values compared region by region')
    cx = CX.Ctx(FORWARD)
    cases, und = cx.corpus()
    for q, w, why in und: rep.skip('%s %s' % (q, w), why)
    runs = [(c.ops, c.final, c.cond, c.name(), c.fname) for c in cases if c.ops]
    for nm, sg, o, fin in model.fused_products(cx.codes): runs.append(([o], fin, (), 'in-place product ' + nm, nm))
    for name in FORWARD:
        S = cx.sweep(name, **std_params(name))
        R = model.Roles(S, cx.codes)
        if R.val is None: raise AnalysisBroken('%s: no zero order value array found' % name)
        rep.count('interpreters')
        indep(rep, cx, name, S, R)
        for ops, final, cond, cname, fname in runs:
            ns = [cx.names[o.code] for o in ops]
            if any(n in REFUSED.get(name, ()) or o.code not in S.labels for o, n in zip(ops, ns)): continue
            if '_sig_' in name and any(n in SIGNATURE_OPS for n in ns): continue
            if any(n in ('assign_ind', 'ref_assign_ind') for n in ns): continue
            b = model.bound_run(S, R, ops)
            key = '%s:%s:%s' % (name, fname, '+'.join(ns))
            if b.err:
                if b.err.startswith('unsupported'): rep.skip(key, b.err)
                else: rep.count('sections that end in an error')
                continue
            rep.count('replayed records')
            got = {k[1]: v for k, v in b.final.items() if k[0] == 'ad'}
            for l in sorted(set(got) | set(final), key=T.key):
                want = final.get(l, atom(('ad', l)))
                have = got.get(l, atom(('ad', l)))
                r = equal(have, want, cond)
                if r is None: rep.skip(key, 'value of %s not modelled: %s / %s' % (T.show(l), T.show(have)[:120], T.show(want)[:120])); continue
                rep.check(r is True, key, lambda: '%s: replaying what %s recorded%s gives %s where the program had %s, for location %s (%s)' % (
                    S.tu.loc(S.labels[ops[-1].code][1]), cname, ' in ' + name, T.show(r[1])[:200], T.show(r[2])[:200], T.show(l), show_region(r[0])),
                    '%s: %s = %s' % (key, T.show(l), T.show(want)[:100]))
    rep.floor(3000)
    return rep.finish()

CHECKS = {'C02': c02}
