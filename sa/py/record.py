"""Abstract interpretation of the recording operators.

Every function that appends an operation code to the tape (or changes the value
of an active variable) is value-numbered with the tape writer as primitives.
The result is, per guarded case, the sequence of operations with the operand
locations and constants written for them, the Taylor values pushed, and the new
values of all active variables.
"""
import itertools
import terms as T
from terms import (ZERO, ONE, num, atom, atom_of, isP, toP, add, sub, mul, ite, const_of, c_not, TRUE, FALSE, truth, unP)
from algos import Algos
from absint import Interp, State, Unsupported, Dead, cell, NULL
from load import AnalysisBroken
from sweep import walk

AD = ('AD',)
PD = ('PD',)
WL, WV, TW = ('stream', 'WL'), ('stream', 'WV'), ('stream', 'TW')
NT = ('stream', 'NT')

class RecInterp(Algos, Interp):
    def __init__(self, prog, tu, keep=1, write=True):
        super().__init__(prog, tu)
        self.install_algos(lax=True)
        P = self.prims
        V = 'ValueTape::'
        self.opq = {}
        def tape(I, st, e, xs): return ('lv', cell(('tape',)))
        def tapep(I, st, e, xs): return ('ptr', ('tape',), ZERO)
        for n in ('currentTape', 'findTape'): P[n] = tape
        for n in ('currentTapePtr', 'findTapePtr'): P[n] = tapep
        def workmode(I, st, e, xs):
            if len(xs) > 1: return ZERO
            return self.mode
        P[V + 'workMode'] = workmode
        def cnt(st, r): return toP(st.mem.get((r, ZERO), ZERO))
        self.cnt = cnt
        def push(r, base):
            def h(I, st, e, xs):
                v = toP(self.ev_val(xs[1], st))
                k = cnt(st, r)
                st.mem[(base, k)] = v; st.wlog.add((base, k))
                self.store(st, cell(r), add(k, ONE))
                return ZERO
            return h
        P[V + 'put_loc'] = push(WL, ('PL',))
        P[V + 'put_val'] = push(WV, ('PV',))
        P[V + 'write_scaylor'] = push(TW, ('TS',))
        def put_op(I, st, e, xs):
            op = toP(self.ev_val(xs[1], st))
            res = toP(self.ev_val(xs[2], st)) if len(xs) > 2 else ZERO
            self.ev(st, ('op', op, cnt(st, WL), cnt(st, WV), cnt(st, TW), res, self.where(e[1])))
            return ZERO
        P[V + 'put_op'] = put_op
        def put_vals(I, st, e, xs):
            p = self.ev_val(xs[1], st); n = toP(self.ev_val(xs[2], st))
            k = cnt(st, WV)
            self.ev(st, ('vals', p, n, k))
            self.store(st, cell(WV), add(k, n))
            return ZERO
        P[V + 'put_vals_writeBlock'] = P[V + 'put_vals_notWriteBlock'] = put_vals
        def wsc(I, st, e, xs):
            p = self.ev_val(xs[1], st); n = toP(self.ev_val(xs[2], st))
            k = cnt(st, TW)
            self.ev(st, ('scaylors', p, n, k))
            self.store(st, cell(TW), add(k, n))
            return ZERO
        P[V + 'write_scaylors'] = wsc
        def dsc(I, st, e, xs):
            self.ev(st, ('delete_scaylor', toP(self.ev_val(xs[1], st))))
            self.store(st, cell(TW), sub(cnt(st, TW), ONE))
            return ZERO
        P[V + 'delete_scaylor'] = dsc
        def nt(sgn):
            def h(I, st, e, xs):
                v = toP(self.ev_val(xs[1], st)) if len(xs) > 1 else ONE
                self.store(st, cell(NT), add(cnt(st, NT), mul(num(sgn), v)))
                return ZERO
            return h
        P[V + 'increment_numTays_Tape'] = nt(1)
        P[V + 'add_numTays_Tape'] = nt(1)
        P[V + 'decrement_numTays_Tape'] = nt(-1)
        def keepT(I, st, e, xs):
            if len(xs) > 1: return ZERO
            return num(keep)
        P[V + 'keepTaylors'] = keepT
        def fresh(kind):
            def h(I, st, e, xs):
                self.fresh_n += 1
                if not write: self.ev(st, ('mk', self.fresh_n))
                return atom(('new' + kind, self.fresh_n))
            return h
        P[V + 'next_loc'] = fresh('loc')
        P[V + 'p_next_loc'] = fresh('ploc')
        def nop(I, st, e, xs): return ZERO
        for n in (V + 'free_loc', V + 'p_free_loc', 'fprintf', 'printf', 'ensureContiguousLocations', V + 'ensureContiguousLocations'):
            P[n] = nop
        def getv(reg):
            def h(I, st, e, xs):
                return self.load(st, cell(reg, self.ev_val(xs[1], st)))
            return h
        def setv(reg):
            def h(I, st, e, xs):
                l = self.ev_val(xs[1], st); v = self.ev_val(xs[2], st)
                self.store(st, cell(reg, l), toP(v)); return ZERO
            return h
        P[V + 'get_ad_value'] = getv(AD); P[V + 'set_ad_value'] = setv(AD)
        P[V + 'get_pd_value'] = getv(PD); P[V + 'set_pd_value'] = setv(PD)
        def upd(I, st, e, xs):
            vs = [self.ev_val(x, st) for x in xs[1:]]
            return atom(('upd', e[2].split('::')[-1]) + tuple(toP(v) for v in vs))
        for n in ('upd_resloc', 'upd_resloc_check', 'upd_resloc_inc_prod'): P[V + n] = upd
        def noret(I, st, e, xs):
            self.exits.append(('fail', self.where(e[1]), st.assume, None)); raise Dead()
        P['ADOLCError::fail'] = noret
        def ctr(name):
            def h(I, st, e, xs):
                self.ev(st, ('ctr', name) + tuple(toP(self.ev_val(x, st)) for x in xs[1:]))
                return ZERO
            return h
        for n in ('increment_numInds', 'increment_numDeps', 'increment_num_eq_prod', 'add_num_eq_prod', 'increment_numSwitches'):
            P[V + n] = ctr(n)
        def getter(name):
            def h(I, st, e, xs):
                for x in xs[1:]: self.ev_val(x, st)
                return atom(('tapefld', name))
            return h
        for n in ('nominmaxFlag', 'no_min_max', 'tapeId', 'signature', 'tapestats', 'storeSize', 'get_val_space'):
            P[V + n] = getter(n)
        wm = None
        for q, vals in prog.enums.items():
            if 'WRITE_ACCESS' in vals: wm = vals
        if wm is None: raise AnalysisBroken('work mode enumeration not found')
        self.mode = num(wm['WRITE_ACCESS'] if write else wm['NO_MODE'])

    def init_hook(self, st, lv):
        r, o = lv[1], lv[2]
        if r == AD: return atom(('ad', o))
        if r == PD: return atom(('pd', o))
        return None

# class invariants of the operand classes, established by their constructors
def invariant(r, o, elem={}):
    if not (isinstance(r, tuple) and r and r[0] == 'fld'): return None
    # advector: the elements lie at consecutive locations
    x = r[1]
    if r[3] == 'loc_' and isinstance(x, tuple) and x[0] == 'fld' and x[3] == 'tape_loc_':
        v = x[1]
        if isinstance(v, tuple) and v[0] == 'vec': return add(atom(('loc', v)), add(toP(x[2]), add(toP(r[2]), o)))
    # adubref: the value at its own location is the location it refers to
    if r[3] == 'refloc_':
        n = loc_of(('fld', ('fld', r[1], r[2], 'tape_loc_'), ZERO, 'loc_'))
        if n in elem: return elem[n]
        if n is not None: return T.fn('trunc', T.fn('fabs', atom(('ad', atom(n)))))
    return None

class Leaf:
    __slots__ = ('cond', 'ops', 'st', 'events', 'ret', 'numtays', 'aborted')

def strip_ref(t):
    return t.replace('const ', '').replace(' const', '').replace('&', '').replace('*', '').strip()

ACTIVE = ('adouble', 'pdouble', 'adub', 'adubref')

class Recorder:
    def __init__(self, prog, f, keep=1, write=True, fixed=None):
        self.prog, self.f, self.keep, self.write = prog, f, keep, write
        self.fixed = fixed or {}

    def param_objs(self):
        f, tu = self.f, self.f['tu']
        out = []
        if f.get('cls') and not f.get('static'):
            out.append(('this', f['cls'], '&'))
        for pid in f['ps']:
            d = tu.decls[pid]
            t = d['t']
            s = strip_ref(t)
            if s in ACTIVE:
                out.append((d['n'], s, '&&' if t.endswith('&&') else '&' if t.endswith('&') else '*' if t.endswith('*') or '*' in t else 'v'))
        return out

    def start(self, I, alias=()):
        f, tu = self.f, self.f['tu']
        st = State()
        for r in (WL, WV, TW, NT): st.mem[(r, ZERO)] = ZERO
        objs = {}
        for pid in f['ps']:
            d = tu.decls[pid]
            k = I.dkey(pid)
            t = d['t']
            if t.endswith('&'):
                st.env[k] = cell(('obj', d['n']))
            elif strip_ref(t) in ACTIVE and '*' not in t:
                st.env[k] = cell(('obj', d['n']))
            else:
                lv = cell(('param', d['n']))
                st.env[k] = lv
                st.mem[(lv[1], lv[2])] = self.fixed.get(d['n'], atom(('sym', d['n'])))
        if f.get('cls'):
            st.env['this'] = ('ptr', ('obj', 'this'), ZERO)
        pn = {tu.decls[i]['n']: tu.decls[i]['t'] for i in f['ps']}
        for a, b in alias:
            if b.startswith('*'): continue
            if '*' in pn.get(b, ''):
                lv = cell(('param', b))
                st.mem[(lv[1], lv[2])] = atom(('sym', a))
                continue
            # object b is at the same location as a
            objs[b] = a
        I.alias = objs
        return st

    def elem_values(self, alias, places=False):
        """values at the locations of active subscripts that refer to another operand"""
        kind = {n: s for n, s, r in self.param_objs()}
        out = {}
        for a, b in alias:
            if not b.startswith('*'): continue
            l = atom(('loc', a))
            if kind.get(a) == 'adubref': l = T.fn('trunc', T.fn('fabs', atom(('ad', l)))) if places else atom(('ad', l))
            out[atom(('loc', b[1:]))] = l
        return out

    def run(self, alias=(), maxleaf=24):
        """list of Leaf"""
        leaves = []
        work = [()]
        while work:
            cond = work.pop()
            if len(leaves) + len(work) > maxleaf:
                raise Unsupported('too many recording cases in ' + self.f['q'])
            I = RecInterp(self.prog, self.f['tu'], self.keep, self.write)
            st = self.start(I, alias)
            base_init = I.init_hook
            al = dict((b, a) for a, b in alias if not b.startswith('*'))
            elem = {atom_of(k): v for k, v in self.elem_values(alias, True).items()}
            for k, v in self.elem_values(alias).items(): st.mem[(AD, k)] = v
            def hook(st, lv, base_init=base_init, al=al, elem=elem):
                r, o = lv[1], lv[2]
                nr = rename_obj(r, al)
                n = invariant(nr, o, elem)
                if n is not None: return n
                n = loc_of(nr)
                if n is not None: return atom(n)
                if nr != r: return atom(('ld', nr, o))
                return base_init(st, lv)
            I.init_hook = hook
            st.assume = tuple(cond)
            f = self.f
            I.stack.append(f)
            args = []
            if 'inits' in f:
                # constructor: run initialisers through call_body machinery
                I.stack.pop()
                argl = []
                for pid in f['ps']:
                    lv = st.env[I.dkey(pid)]
                    t = f['tu'].decls[pid]['t']
                    if t.endswith('&') or strip_ref(t) in ACTIVE: argl.append(('ref', lv))
                    else: argl.append(('val', st.mem[(lv[1], lv[2])]))
                try:
                    I.call_body(f, st, argl, this=('ptr', ('obj', 'this'), ZERO))
                    fl_n, rets = st, []
                except Dead:
                    fl_n, rets = None, []
            else:
                fl = I.exec(f['body'], st)
                fl_n, rets = fl.n, [(g, s, v) for k, g, s, v in fl.ex if k == 'ret']
            outs = list(rets)
            if fl_n is not None: outs.append((TRUE, fl_n, None))
            if not outs:
                continue
            g, s, v = outs[-1]
            split = None
            for g2, s2, v2 in reversed(outs[:-1]):
                s = I.merge(g2, s2, s)
                v = I.merge_val(g2, v2, v, s)
            split = find_split(s.events)
            if split is not None and split not in cond and c_not(split) not in cond:
                work.append(tuple(cond) + (c_not(split),))
                work.append(tuple(cond) + (split,))
                continue
            L = Leaf()
            L.cond, L.st, L.events, L.ret = cond, s, s.events, v
            L.numtays = toP(s.mem[(NT, ZERO)])
            L.ops = [e for e in s.events if e[0] == 'op']
            leaves.append(L)
        return leaves

def rename_obj(r, al):
    if isinstance(r, tuple) and r:
        if r[0] == 'obj' and r[1] in al: return ('obj', al[r[1]])
        if r[0] in ('fld',):
            n = rename_obj(r[1], al)
            if n != r[1]: return ('fld', n) + r[2:]
    return r

def loc_of(r):
    """location number of an operand object (the innermost location field)"""
    if not (isinstance(r, tuple) and r and r[0] == 'fld' and 'loc' in r[3] and 'valid' not in r[3]): return None
    x = r[1]
    idx = ZERO if len(r) < 3 else r[2]
    while isinstance(x, tuple) and x and x[0] == 'fld':
        idx = add(idx, x[2])
        x = x[1]
    if isinstance(x, tuple) and x and x[0] == 'obj': return ('loc', x[1]) if idx == ZERO else ('loc', x[1], idx)
    if isinstance(x, tuple) and x and x[0] == 'at' and isinstance(x[1], tuple) and x[1][0] in ('sym', 'ld'):
        return ('loc', x[1], idx)
    return None

def has_op(evs):
    for e in evs:
        if e[0] in ('op', 'delete_scaylor', 'vals', 'scaylors', 'mk'): return True
        if e[0] == 'br' and (has_op(e[2]) or has_op(e[3])): return True
        if e[0] == 'loop' and has_op(e[2]): return True
    return False

def find_split(evs):
    for e in evs:
        if e[0] == 'op':
            a = atom_of(toP(e[1]))
            if a is not None and a[0] == 'ite': return a[1]
        if e[0] == 'br' and (has_op(e[2]) or has_op(e[3])):
            return e[1]
        if e[0] == 'loop':
            s = find_split(e[2])
            if s is not None: return s
    return None
