"""Recorded-operation corpus and bound runs of the interpreter sweeps.

`corpus(prog)` value-numbers every recording function and yields Cases: the
operation records it appends (code, location operands, constants), the values it
pushes on the Taylor stack, and the values the active variables have afterwards.
`BoundRun` interprets the case sections of one sweep for exactly these records,
with the tape streams bound to the recorded terms.
"""
import itertools
import terms as T
from terms import (ZERO, ONE, num, atom, atom_of, isP, toP, add, sub, mul, neg, ite, const_of,
                   c_not, c_and, TRUE, FALSE, unP)
from absint import State, Unsupported, Dead, cell, NULL
from load import AnalysisBroken
import record, sweep, equal
from record import Recorder, AD
from sweep import Sweep, SweepInterp, POS, walk

VECLEN = 3

class Op:
    __slots__ = ('code', 'locs', 'vals', 'reserve', 'where', 'taypos', 'nvals', 'pre')
    def __init__(self): self.pre = None

class Case:
    __slots__ = ('f', 'fname', 'where', 'alias', 'cond', 'ops', 'push', 'numtays', 'final', 'leaf', 'events', 'pd')
    def name(self):
        s = self.fname + '@' + self.where
        if self.alias: s += ' alias ' + ','.join('%s=%s' % x for x in self.alias)
        if self.cond: s += ' when ' + ' && '.join(T.show(c) for c in self.cond)
        return s

def set_partitions(xs):
    if not xs:
        yield []
        return
    x, rest = xs[0], xs[1:]
    for p in set_partitions(rest):
        yield [[x]] + p
        for i in range(len(p)):
            yield p[:i] + [[x] + p[i]] + p[i + 1:]

def alias_patterns(R):
    objs = R.param_objs()
    names = [n for n, s, r in objs if r == '&' and s != 'pdouble']
    if 'inits' in R.f: names = [n for n in names if n != 'this']
    names = names[:4]
    # whole arrays may coincide
    ptrs = [d['n'] for d in (R.f['tu'].decls[i] for i in R.f['ps']) if d['t'].replace('const', '').replace(' ', '').startswith('adouble*')]
    out = []
    for p in set_partitions(names):
        al = []
        for blk in p:
            for b in blk[1:]: al.append((blk[0], b))
        out.append(tuple(al))
    if len(ptrs) > 1 and len(ptrs) <= 3:
        base = list(out)
        for p in set_partitions(ptrs):
            al = [(blk[0], b) for blk in p for b in blk[1:]]
            if al: out += [a + tuple(al) for a in base]
    # the element an active subscript refers to may be another operand
    refs = [n for n, s, r in objs if s == 'adubref' and ('inits' not in R.f or n != 'this')]
    for r in refs:
        for n, s, k in objs:
            if n != r and k == '&' and s in ('adouble', 'adubref') and ('inits' not in R.f or n != 'this'): out.append(((n, '*' + r),))
    out.sort(key=lambda a: (len(a), a))
    return out

def size_params(f):
    """integer length parameters of the array recorders get a small constant"""
    tu = f['tu']
    ts = [tu.decls[i]['t'] for i in f['ps']]
    if not any('adouble *' in t or 'pdouble *' in t for t in ts): return {}
    return {tu.decls[i]['n']: num(VECLEN) for i, t in zip(f['ps'], ts) if t in ('unsigned long', 'int', 'size_t', 'unsigned int')}

def segment(L):
    """recorded operations of a leaf, or None when positions are not constant"""
    evs = [e for e in L.ops]
    mem = L.st.mem
    nl, nv = mem.get((record.WL, ZERO), ZERO), mem.get((record.WV, ZERO), ZERO)
    out = []
    for i, e in enumerate(evs):
        _, code, lp, vp, tp, reserve, where = e
        le = evs[i + 1][2] if i + 1 < len(evs) else nl
        ve = evs[i + 1][3] if i + 1 < len(evs) else nv
        cs = [const_of(x) for x in (code, lp, le, vp, ve)]
        if any(c is None for c in cs): return None
        o = Op()
        o.code = int(cs[0])
        o.locs = [mem.get((('PL',), num(k))) for k in range(int(cs[1]), int(cs[2]))]
        o.vals = [mem.get((('PV',), num(k))) for k in range(int(cs[3]), int(cs[4]))]
        if any(x is None for x in o.locs + o.vals): return None
        o.locs = [toP(x) for x in o.locs]; o.vals = [toP(x) for x in o.vals]
        o.reserve, o.where, o.taypos = reserve, where, tp
        o.nvals = num(len(o.vals))
        out.append(o)
    if evs and (const_of(evs[0][2]) != 0 or const_of(evs[0][3]) != 0): return None
    return out

def recorders(prog):
    """functions that append an operation directly"""
    for f in prog.all_functions():
        if any(y and y[0] in ('call', 'mcall') and y[2] == 'ValueTape::put_op' for y in walk(f['body'])):
            yield f

SPECIAL = ('ValueTape::', 'ADOLC::CP::', 'call_ext_fct')

def callers(prog, f):
    for g in prog.all_functions():
        if g is not f and any(y and y[0] in ('call', 'mcall') and y[3] == f['m'] for y in walk(g['body'])): yield g

def corpus(prog, fs=None, aliases=True, keep=1, undecided=None):
    out = []
    todo = list(fs if fs is not None else recorders(prog))
    have = {id(f) for f in todo}
    for f in todo:
        if f['q'].startswith(SPECIAL): continue
        R = Recorder(prog, f, keep=keep, fixed=size_params(f))
        seen = set()
        if any(f['tu'].decls[p]['t'].replace('const ', '') in ('OPCODES', 'unsigned char') for p in f['ps']):
            # a helper that is told the operation: its callers are the recorders
            up = [g for g in callers(prog, f) if id(g) not in have]
            have.update(id(g) for g in up); todo += up
            continue
        for al in (alias_patterns(R) if aliases else [()]):
            try:
                leaves = R.run(alias=al)
            except Unsupported as ex:
                if undecided is not None: undecided.append((f['q'], f['tu'].loc(f['l']), str(ex)))
                continue
            for L in leaves:
                c = Case()
                c.f, c.fname, c.where, c.alias, c.cond = f, f['q'], f['tu'].loc(f['l']), al, L.cond
                c.leaf = L
                c.ops = segment(L)
                pre = R.elem_values(al)
                if pre and c.ops:
                    for o in c.ops: o.pre = pre
                if c.ops is None:
                    if undecided is not None: undecided.append((f['q'], f['tu'].loc(f['l']), 'variable-length record'))
                    continue
                c.numtays = L.numtays
                nt = const_of(toP(L.st.mem.get((record.TW, ZERO), ZERO)))
                c.push = None if nt is None else [L.st.mem.get((('TS',), num(k))) for k in range(int(nt))]
                c.final = {k[1]: L.st.mem[k] for k in L.st.wlog if k[0] == AD}
                c.pd = {k[1]: L.st.mem[k] for k in L.st.wlog if k[0] == record.PD}
                c.events = L.events
                out.append(c)
    return out

# ------------------------------------------------------------------ roles
def strip_at(r):
    """(table region, index) when r is the row an opaque table entry points to"""
    if isinstance(r, tuple) and len(r) == 2 and r[0] == 'at':
        a = r[1]
        if isP(a): a = atom_of(a)
        if a is not None and a[0] == 'ld': return a[1], a[2]
    return None

class Roles:
    """regions of a sweep, found from what the assign_d section does"""
    def __init__(self, S, codes):
        s = S.section(codes['assign_d'])
        if s.err or s.st is None: raise AnalysisBroken('assign_d section of %s: %s' % (S.f['q'], s.err))
        self.val = None      # region holding zero order values
        self.tab = []        # (region, 'flat'|'row') of derivative data
        L0, V0 = atom(('L', ZERO)), atom(('V', ZERO))
        for (r, o) in sorted(s.st.wlog, key=T.key):
            v = s.st.mem[(r, o)]
            if o == L0 and (v == V0 or (S.reverse and isP(v) and any(a[0] == 'TY' for a in T.atoms(v)))):
                self.val = r
        for (r, o) in sorted(s.st.wlog, key=T.key):
            v = s.st.mem[(r, o)]
            t = strip_at(r)
            if o == L0 and r != self.val and isinstance(r, tuple) and r[0] in ('heap', 'sym', 'at', 'arr', 'vec'):
                if ('flat', r) not in self.tab: self.tab.append(('flat', r))
            elif t is not None and t[1] == L0:
                if ('row', t[0]) not in self.tab: self.tab.append(('row', t[0]))
    def tables(self): return self.tab
    def valcells(self, l):
        return [] if self.val is None else [(self.val, l)]
    def canon(self, r, o):
        if r == self.val: return ('ad', o)
        for i, (k, t) in enumerate(self.tab):
            if k == 'flat' and r == t: return ('tc%d' % i, o)
            if k == 'row':
                s = strip_at(r)
                if s is not None and s[0] == t: return ('tc%d' % i, s[1], o)
        return None

class HigherRoles(Roles):
    """reverse sweeps of higher order: rows of k Taylor coefficients per direction
    (coefficient 0 is the value) and rows of k + 1 adjoint entries per weight
    (entry 0 tells whether the others are zero)"""
    def __init__(self, S, codes, k, dirs):
        Roles.__init__(self, S, codes)
        self.k, self.dirs, self.tay = k, dirs, None
        if self.val is not None or len(self.tab) != 1 or self.tab[0][0] != 'row': raise AnalysisBroken('%s: adjoint rows not found' % S.f['q'])
        o = mkop(codes['assign_d'], [atom(('loc', 'r'))], [atom(('sym', 'c'))])
        P = [atom(('sym', 'saved%d' % i)) for i in range(dirs * k + 1)]
        b = bound_run(S, self, [o], ty=P)
        if b.err: raise AnalysisBroken('assign_d section of %s: %s' % (S.f['q'], b.err))
        for (r, i) in sorted(b.st.wlog, key=T.key):
            t = strip_at(r)
            if t is not None and t[0] != self.tab[0][1] and t[1] == o.locs[0] and b.st.mem[(r, i)] in P: self.tay = t[0]
        if self.tay is None: raise AnalysisBroken('%s: Taylor rows not found' % S.f['q'])
    def arow(self, l): return ('at', ('ld', self.tab[0][1], l))
    def trow(self, l): return ('at', ('ld', self.tay, l))
    def valcells(self, l): return [(self.trow(l), num(d * self.k)) for d in range(self.dirs)] if self.tay is not None else []
    def canon(self, r, o):
        t = strip_at(r)
        if t is not None and self.tay is not None and t[0] == self.tay:
            c = const_of(toP(o))
            if c is not None and c % self.k == 0: return ('ad', t[1])
            return ('tt', t[1], o)
        return Roles.canon(self, r, o)

# ------------------------------------------------------------------ bound runs
class Bound:
    __slots__ = ('case', 'err', 'st', 'problems', 'final', 'pushes', 'pops', 'rets', 'aborts', 'steps')

def bound_run(S, roles, ops, pre=None, ty=None, reverse=None, ret_ok=True, given=()):
    """interpret the sections of S for the recorded operations ops (in the order
    the sweep meets them).  ty: list of Taylor values available for popping."""
    rev = S.reverse
    seq = list(reversed(ops)) if rev else ops
    b = Bound()
    b.err = None; b.problems = []; b.rets = []; b.aborts = []; b.steps = []
    I = S.I
    I.seq = S.seq0; I.depth = 0; I.loopN = {}; I.exits = []
    old_hook = I.init_hook
    def hook(st, lv):
        c = roles.canon(lv[1], lv[2])
        if c is not None:
            ep = st.mem.get((('epoch', lv[1]), ZERO))
            if ep is None: return atom(c)
        return old_hook(st, lv)
    I.init_hook = hook
    I.folds = (equal.distinct_locs,) + tuple(g for g in given if callable(g))
    try:
        st = S.start.copy()
        st.assume = st.assume + tuple(g for g in given if not callable(g))
        if pre:
            for k, v in pre.items(): st.mem[k] = v
        for o in seq:
            if o.pre:
                for l, v in o.pre.items():
                    for c in roles.valcells(l): st.mem[c] = v
        for o in seq:
            lab = S.labels.get(o.code)
            if lab is None:
                b.err = 'no section for operation %s' % S.opnames.get(o.code, o.code)
                b.problems.append(('missing', o, b.err))
                return b
            locs = list(reversed(o.locs)) if rev else o.locs
            vals = [recorded(v, k) for k, v in enumerate(o.vals)]
            if rev: vals.reverse()
            I.bind = {'L': locs, 'V': vals}
            if ty is not None: I.bind['TY'] = ty
            for s in ('L', 'V'): st.mem[(POS[s], ZERO)] = ZERO
            sv = S.sw[2]
            while sv[0] == 'cast': sv = sv[4]
            if sv[0] == 'ref':
                lv = st.env.get(I.dkey(sv[2]))
                if lv is not None: st.mem[(lv[1], lv[2])] = num(o.code)
            I.exits = []
            try:
                f = I.seq_exec(S.sw[3][2:][lab[0]:], st)
            except Unsupported as ex:
                b.err = 'unsupported: %s' % ex
                return b
            except RecursionError:
                b.err = 'unsupported: recursion'
                return b
            finally:
                I.bind = {}
            b.aborts += list(I.exits)
            m = f.n
            for kind, g, x, v in reversed(f.ex):
                if kind == 'break': m = x if m is None else I.merge(g, x, m)
                else: b.rets.append((kind, g, x, v, o))
            if m is None:
                b.err = 'the section never completes'
                b.problems.append(('dead', o, b.err))
                return b
            st = m
            for s, n, w in (('L', num(len(locs)), 'location'), ('V', o.nvals, 'constant')):
                p = toP(st.mem.get((POS[s], ZERO), ZERO))
                if p != n:
                    b.problems.append(('reads' + s, o, '%s words read: %s, recorded: %s' % (w, T.show(p), T.show(n))))
            b.steps.append((o, st))
        b.st = st
        b.final = {}
        for k in st.wlog:
            c = roles.canon(k[0], k[1])
            if c is not None:
                b.final[c] = st.mem[k] if k in st.mem else atom(('killed', c))
                if any(a[0] == 'ite' for x in c[1:] for a in T.atoms(x)): b.err = 'unsupported: store to a place chosen at run time'
            elif isinstance(k[0], tuple) and k[0][0] == 'at' and any(a[0] == 'ld' and ('row', a[1]) in roles.tables() for a in T.atoms(k[0])):
                b.err = 'unsupported: store through a pointer the analysis lost track of'
        nt = const_of(toP(st.mem.get((POS['TW'], ZERO), ZERO)))
        b.pushes = None if nt is None else [st.mem.get((('TS',), num(k))) for k in range(int(nt))]
        b.pops = toP(st.mem.get((POS['TY'], ZERO), ZERO))
        return b
    finally:
        I.init_hook = old_hook
        I.folds = ()

def recorded(v, k):
    """a constant that depends on the values at recording: replay happens at other values"""
    if any(a[0] == 'ad' for a in T.atoms(v)): return atom(('rec', num(k)))
    return v

def stale(st):
    """local pointers a section writes through without having set them"""
    out = set()
    for r, o in st.wlog:
        if isinstance(r, tuple) and r and r[0] == 'at':
            a = r[1] if not isP(r[1]) else atom_of(r[1])
            if a is not None and a[0] == 'h': out.add(a[1])
    return sorted(out, key=T.key)

class NoRoles:
    def tables(self): return ()
    val = None; tab = []
    def valcells(self, l): return []
    def canon(self, r, o): return None


def mkop(code, locs, vals=(), nvals=None, where=''):
    o = Op()
    o.code, o.locs, o.vals = code, [toP(x) for x in locs], [toP(x) for x in vals]
    o.nvals = num(len(o.vals)) if nvals is None else nvals
    o.reserve, o.where, o.taypos = ZERO, where, ZERO
    return o

def fused_products(codes):
    """t = x*y; r += t is rewritten in place into one record (never when r is x or y)"""
    a, b, r = (atom(('loc', n)) for n in ('x', 'y', 'r'))
    for nm, sg in (('eq_plus_prod', 1), ('eq_min_prod', -1)):
        for p, q in ((a, b), (a, a)):
            o = mkop(codes[nm], [p, q, r])
            yield nm, sg, o, {r: add(atom(('ad', r)), mul(num(sg), mul(atom(('ad', p)), atom(('ad', q)))))}
