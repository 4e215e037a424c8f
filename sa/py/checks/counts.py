"""C20: the counts of a tape.

The statistics kept with a tape (independents, dependents, switches, live
variables, operations) are what every sweep sizes its workspaces by and compares
with the counts of its caller.  Decided in three parts: every recording function
counts what it records; the counts that end up in the statistics are those of
this recording, whatever happened on the tape before; every sweep refuses counts
that are not those of the tape, and a reverse sweep a Taylor stack that is not
that of the tape.
"""
import itertools
from collections import Counter
from concurrent.futures import ProcessPoolExecutor
import ctx as CX
import terms as T
from terms import num, const_of, toP, ZERO, isP
from load import AnalysisBroken
from report import Report
from absint import Unsupported
from drive import Broken, NULL
from checks.tape import std_params
from checks.storage import Hist, Wrong, FILES, lcg

COUNTER = {'increment_numInds': 'independents', 'increment_numDeps': 'dependents', 'increment_numSwitches': 'switches'}
MARKS = {'assign_ind': 'independents', 'subscript_ref_ind': 'independents', 'assign_dep': 'dependents', 'abs_val': 'switches'}

# ------------------------------------------------------------------ evaluation of conditions
def ev(t, env):
    """number or truth value of a term over named quantities"""
    if isP(t):
        s = 0
        for mono, c in t[1]:
            v = c
            for a, p in mono: v = v * ev(a, env) ** p
            s += v
        return s
    k = t[0]
    if k in ('sym', 'stat', 'tapefld', 'ld'):
        if t in env: return env[t]
        raise Unsupported('the outcome depends on %s' % (T.show(T.atom(t)),))
    if k == 'eq': return ev(t[1], env) == 0
    if k == 'lt': return ev(t[1], env) < 0
    if k == 'not': return not ev(t[1], env)
    if k == 'and': return all(ev(x, env) for x in t[1])
    if k == 'or': return any(ev(x, env) for x in t[1])
    if t is True or t is False: return t
    raise Unsupported('condition of the form %s' % (k,))

def atoms_of(c, out):
    if isinstance(c, tuple) and c:
        if c[0] in ('sym', 'stat', 'tapefld', 'ld') and not isP(c): out.add(c); return
        for x in c: atoms_of(x, out)

# ------------------------------------------------------------------ recording
def counters(evs, flag, out):
    for e in evs:
        if e[0] == 'ctr': out[e[1]] += 1
        elif e[0] == 'br':
            try: take = ev(e[1], {('tapefld', 'no_min_max'): flag})
            except Unsupported:
                # depends on values: both ways must count the same
                a, b = Counter(), Counter()
                counters(e[2], flag, a); counters(e[3], flag, b)
                for k in COUNTER:
                    if a[k] != b[k]: raise Wrong('%s happens only if %s' % (k, T.show_cond(e[1]) if hasattr(T, 'show_cond') else T.show(e[1])))
                out.update(a)
                continue
            counters(e[2] if take else e[3], flag, out)

def applies(cond, flag):
    """may this case be recorded with that setting of the tape?"""
    for c in cond:
        try:
            if not ev(c, {('tapefld', 'no_min_max'): flag}): return False
        except Unsupported: pass
    return True

def recording(rep, cx):
    cases, und = cx.corpus()
    for q, w, why in und: rep.skip('%s %s' % (q, w), why)
    for c in cases:
        for flag in (0, 1):
            if not applies(c.cond, flag): continue
            key = 'record:%s:%s:%d' % (c.fname, c.where, flag)
            n = Counter()
            try: counters(c.leaf.events, flag, n)
            except Unsupported as ex: rep.skip(key, ex); continue
            except Wrong as ex:
                rep.check(False, key, '%s at %s: %s' % (c.fname, c.where, ex)); continue
            ops = Counter(MARKS.get(cx.names[o.code]) for o in c.ops)
            want = {w: ops[w] for w in ('independents', 'dependents', 'switches')}
            # an independent marked through a reference has a code of its own
            ref = sum(1 for o in c.ops if cx.names[o.code] == 'ref_assign_ind')
            want['independents'] += ref
            if not flag: want['switches'] = None
            for ctr, w in COUNTER.items():
                if want[w] is None: continue
                rep.count('counts of recorders')
                rep.check(n[ctr] == want[w], '%s:%s' % (key, w), '%s at %s puts %d %s on the tape and counts %d' % (c.fname, c.where, want[w], w, n[ctr]),
                          sample='%s at %s: %d %s' % (c.fname, c.where, want[w], w) if want[w] else None)

# ------------------------------------------------------------------ closing
def stat_numbers(cx):
    en = next((v for k, v in cx.prog.enums.items() if 'NUM_EQ_PROD' in v), None)
    if en is None: raise AnalysisBroken('enumeration of the tape statistics not found')
    return {k: int(v) for k, v in en.items()}

def put(h, x, keep):
    """one recording with the counters of x"""
    D, st = h.D, h.st
    store = x['store']
    vals = [T.atom(('store', h.n, i)) for i in range(store)]
    h.n += 1
    D.setf(st, store, 'globalTapeVars_', 'storeSize'); D.setf(st, store, 'globalTapeVars_', 'numLives')
    D.setf(st, 0, 'globalTapeVars_', 'numparam')
    D.setf(st, D.array(st, 'store%d' % h.n, vals), 'globalTapeVars_', 'store')
    D.setf(st, NULL, 'globalTapeVars_', 'pStore')
    h.names()
    h.steps.append('recording of %(ind)d independents, %(dep)d dependents, %(sw)d switches, %(ops)d operations, %(store)d locations' % x + (' with keep' if keep else ''))
    if x['explicit']: h.free('trace_on', 1, keep, *(s + 3 for s in h.sizes), 0)
    else: h.free('trace_on', 1, keep)
    h.tb = h.sizes[3] + (3 if x['explicit'] else 0)
    todo = ['increment_numInds'] * x['ind'] + ['increment_numDeps'] * x['dep'] + ['increment_numSwitches'] * x['sw'] + ['increment_num_eq_prod'] * x['prod']
    for i in range(max(x['ops'], len(todo))):
        h.call('put_op', num(40 + i % 50), 0)
        h.call('put_loc', h.fresh('loc'))
        if i < len(todo): h.call(todo[i])
    h.free('trace_off', x['flag'])
    return max(x['ops'], len(todo)) + 2

def close_run(cx, x):
    h = Hist(cx, 9, 90, 12, x['TB'])
    h.rec = []
    N = stat_numbers(cx)
    g = lcg(x['seed'])
    r = lambda n: next(g) % n
    checks = 0
    for k in range(3):
        y = dict(ind=r(4), dep=r(4), sw=r(4), prod=r(3), ops=r(15), store=1 + r(5), explicit=r(3) == 0, flag=r(2))
        if k == 0: y.update(ind=2 + r(3), dep=1 + r(3), sw=1 + r(3), prod=1 + r(2))
        keep = r(2)
        puts = put(h, y, keep)
        st = {n: const_of(toP(h.call('tapestats', N[n], m='tapestatsEm'))) for n in ('NUM_INDEPENDENTS', 'NUM_DEPENDENTS', 'NUM_SWITCHES', 'NUM_EQ_PROD', 'NUM_MAX_LIVES', 'NUM_OPERATIONS')}
        for n, f in (('NUM_INDEPENDENTS', 'ind'), ('NUM_DEPENDENTS', 'dep'), ('NUM_SWITCHES', 'sw'), ('NUM_EQ_PROD', 'prod')):
            checks += 1
            if st[n] != y[f]: raise Wrong('%s is %s instead of %d' % (n, st[n], y[f]))
        checks += 2
        if st['NUM_MAX_LIVES'] is None or st['NUM_MAX_LIVES'] < y['store']: raise Wrong('NUM_MAX_LIVES is %s with locations up to %d' % (st['NUM_MAX_LIVES'], y['store'] - 1))
        if st['NUM_OPERATIONS'] is None or st['NUM_OPERATIONS'] < puts: raise Wrong('NUM_OPERATIONS is %s with %d operations on the tape' % (st['NUM_OPERATIONS'], puts))
        if keep:
            for f, n in (('tay_numInds', 'NUM_INDEPENDENTS'), ('tay_numDeps', 'NUM_DEPENDENTS')):
                checks += 1
                v = const_of(toP(h.D.getf(h.st, 'tapeInfos_', f)))
                if v != st[n]: raise Wrong('%s of the Taylor stack is %s instead of %s' % (f, v, st[n]))
            checks += 1
            v = const_of(toP(h.D.getf(h.st, 'tapeInfos_', 'deg_save')))
            if v != 0: raise Wrong('a recording with keep saves values only, the degree of its Taylor stack is %s' % v)
        else:
            # the Taylor stack of an older recording must not pass for one of this
            checks += 1
            tv = [const_of(toP(h.D.getf(h.st, 'tapeInfos_', f))) for f in ('deg_save', 'tay_numInds', 'tay_numDeps')]
            if (y['ind'] or y['dep']) and (tv[0] is None or tv[0] >= 0) and tv[1:] == [y['ind'], y['dep']]:
                raise Wrong('after a recording without keep the Taylor stack of an older one passes for its own')
        # a sweep does not change the counts
        deg = r(3)
        h.params = []
        h.taylor_forward([('s',)] * r(4), deg)
        for n, v in st.items():
            checks += 1
            w = const_of(toP(h.call('tapestats', N[n], m='tapestatsEm')))
            if w != v: raise Wrong('%s is %s after a forward sweep and was %s' % (n, w, v))
        v = const_of(toP(h.D.getf(h.st, 'tapeInfos_', 'deg_save')))
        if v != deg: raise Wrong('after a forward sweep that keeps degree %d the degree of the Taylor stack is %s' % (deg, v))
    return checks

def job(x):
    try: return x, 'ok', close_run(CTX, x), ''
    except (Broken, Wrong) as ex: return x, 'bad', str(ex), getattr(ex, 'path', None)
    except Unsupported as ex: return x, 'undecided', str(ex), ''

# ------------------------------------------------------------------ refusing
PL = ('zos_pl_forward', 'fos_pl_forward', 'fov_pl_forward')
SIG = ('fos_pl_sig_forward', 'fov_pl_sig_forward', 'indopro_forward_absnormal', 'fos_pl_reverse', 'fov_pl_reverse', 'fos_pl_sig_reverse')
FO_REV = ('fos_reverse', 'fov_reverse', 'fos_pl_reverse', 'fos_pl_sig_reverse', 'fov_pl_reverse', 'int_reverse_tight')
HO_REV = ('hos_ti_reverse', 'hos_ov_reverse', 'hov_ti_reverse')
NEED_SW = {'fos_pl_reverse', 'fos_pl_sig_reverse', 'fov_pl_reverse'}

def refusing(rep, cx):
    N = stat_numbers(cx)
    IND, DEP, MM, SW = (('stat', num(N[n])) for n in ('NUM_INDEPENDENTS', 'NUM_DEPENDENTS', 'NO_MIN_MAX', 'NUM_SWITCHES'))
    for name in CX.SWEEPS:
        f = cx.sweep_fn(name)
        tu, fn = (f['tu'], f) if isinstance(f, dict) and 'tu' in f else (None, f)
        for deg in ((1, 2) if name in HO_REV else (None,)):
            try: S = cx.sweep(name, **dict(std_params(name), **({'degre': deg} if deg else {})))
            except (AnalysisBroken, Unsupported) as ex: rep.skip('refuse:' + name, ex); continue
            ps = [S.tu.decls[p]['n'] for p in S.f['ps']]
            dep, ind = ('sym', ps[1]), ('sym', ps[2])
            at = set()
            for x in S.pro_exits: atoms_of(x[2], at)
            swp = [a for a in at if a[0] == 'sym' and a not in (dep, ind)]
            sw = swp[0] if len(swp) == 1 and name in SIG else None
            flds = {a[1][1]: a for a in at if a[0] == 'ld' and a[1][0] == 'tapefld'}
            rep.count('sweeps')
            bad = None
            n = 0
            dom = dict(si=(0, 2), sd=(0, 1), i=(-1, 0, 1, 2), d=(-1, 0, 1, 2), mm=(0, 1) if name in PL + SIG else (1,), ssw=(0, 2) if name in SIG else (2,), s=(-1, 0, 1, 2) if name in SIG else (2,),
                       dg=(-1, 0, 1, 2) if name in FO_REV + HO_REV else (0,), ti=(0, 2) if name in FO_REV + HO_REV else (0,), td=(0, 1) if name in FO_REV + HO_REV else (0,))
            try:
                for v in itertools.product(*dom.values()):
                    v = dict(zip(dom, v))
                    want = v['i'] != v['si'] or v['d'] != v['sd']
                    if name in PL + SIG: want = want or v['mm'] == 0
                    if name in SIG: want = want or v['s'] != v['ssw']
                    if name in FO_REV: want = want or v['dg'] < 0
                    if name in HO_REV: want = want or v['dg'] != deg
                    if name in FO_REV + HO_REV: want = want or v['ti'] != v['i'] or v['td'] != v['d']
                    env = {IND: v['si'], DEP: v['sd'], MM: v['mm'], SW: v['ssw'], ind: v['i'], dep: v['d']}
                    if sw: env[sw] = v['s']
                    for k, val in (('deg_save', 'dg'), ('tay_numInds', 'ti'), ('tay_numDeps', 'td')):
                        if k in flds: env[flds[k]] = v[val]
                    got = None
                    for x in S.pro_exits:
                        if all(ev(c, env) for c in x[2]): got = x; break
                    n += 1
                    if bool(got) != want:
                        bad = (v, got); break
            except Unsupported as ex:
                rep.skip('refuse:' + name, ex); continue
            rep.count('count combinations', n)
            if bad:
                v, got = bad
                text = 'caller: %d dependents, %d independents%s; tape: %d, %d%s%s' % (v['d'], v['i'], ', %d switches' % v['s'] if name in SIG else '', v['sd'], v['si'],
                       ', %d switches%s' % (v['ssw'], '' if v['mm'] else ', recorded with min and max') if name in PL + SIG else '',
                       '; Taylor stack: degree %d for %d, %d' % (v['dg'], v['td'], v['ti']) if name in FO_REV + HO_REV else '')
                rep.check(False, 'refuse:' + name, '%s at %s %s (%s)' % (name, S.tu.loc(S.f['l']), 'refuses at %s what it should accept' % got[1] if got else 'goes on with counts that do not fit', text))
            else: rep.check(True, 'refuse:%s:%s' % (name, deg), '', sample='%s: %d combinations of counts, %d exits' % (name, n, len(S.pro_exits)))

def c20():
    global CTX
    rep = Report('C20', 'effect counting over the recorders, abstract interpretation of the closing of a tape, exhaustive evaluation of the refusal conditions of every sweep')
    rep.rule('record', 'every recorder counts the independents, dependents and (without min and max) switches it puts on the tape')
    rep.rule('close', 'the statistics after trace_off are the counts of this recording, for any recordings and sweeps before; a sweep leaves them alone; the Taylor stack is marked with counts and degree of what was saved')
    rep.rule('refuse', 'a sweep ends in its prologue exactly if the counts of the caller are not those of the tape, the tape has no abs-normal form where one is needed, or the Taylor stack is missing, of another degree or of other counts')
    C = CX.Ctx(sweeps=list(CX.SWEEPS), extra=FILES)
    recording(rep, C)
    refusing(rep, C)
    CTX = C
    with ProcessPoolExecutor(8) as ex:
        for x, status, info, more in ex.map(job, [dict(seed=i, TB=(1, 2, 3, 5, 40)[i % 5]) for i in range(1, 25)], chunksize=1):
            key = 'close:%d' % x['seed']
            if status == 'undecided': rep.skip(key, info); continue
            rep.count('recording histories')
            rep.check(status == 'ok', key, 'closing a tape: %s (%s)' % (info, ' < '.join((more or [])[:4])), sample='%s comparisons over three recordings' % info)
    rep.floor(400)
    return rep.finish()

CHECKS = {'C20': c20}
