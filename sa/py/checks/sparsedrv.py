"""C15: sparse drivers (sparse.py)."""
import re
import terms as T
from terms import ZERO, ONE, num, atom, add, sub, mul, toP, const_of, isP
from absint import State, Unsupported, Dead, cell, NULL
from ctx import Ctx, SRC
from report import Report
from load import AnalysisBroken
from drive import F, Broken
from sparse import Sparse, Pattern, STRIP
import os

TAG = 1
FILES = ('sparse/sparsedrivers.cpp', 'sparse/sparsedrivers_c.cpp')
NS = 'ADOLC::Sparse::'
DIFF = 'differs'

class Diff(Exception):
    """an observable result is not the specified one"""

class Env:
    """a tape, its sparse cache, and calls of the drivers on it"""
    def __init__(self, L, pats, m, n, nsw=0, strip=STRIP, codes=()):
        self.L, self.m, self.n = L, m, n
        self.st = State()
        self.D = D = Sparse(L.prog, L.main, pats, strip, codes=codes, switches=nsw)
        D.dims = (m, n); D.tag = TAG
        self.nx = 0
        tape = cell(('obj', 'tape', num(TAG)))
        # the tape object the drivers see
        self.tape = T.unP(num(TAG))
        for nm, imp in (('sJInfos_', 'jac'), ('sHInfos_', 'hess')):
            o = self.info(nm)
            self.st.mem[(('fld', o[1], o[2], 'pimpl_'), ZERO)] = ('ptr', ('obj', imp + 'impl'), ZERO)
        for imp in ('jac', 'hess'):
            self.st.mem[(('fld', ('obj', imp + 'impl'), ZERO, 'g_'), ZERO)] = NULL
    def info(self, nm): return cell(('fld', ('obj', 'tape', T.unP(num(TAG))), ZERO, nm))
    def point(self):
        """a new base point"""
        self.nx += 1
        D = self.D
        D.prefix = ''
        nm = 'x%d' % self.nx
        p = D.arr(self.st, nm, (self.n,))
        D.x0 = [D.get(self.st, p, i) for i in range(self.n)]
        return p
    def call(self, f, *args):
        D = self.D
        self.st.events = []
        n0 = len(D.used)
        D.called = []
        try:
            s, v = D.run(self.st, f, [num(a) if isinstance(a, int) else a for a in args])
        except Broken as ex:
            ex.path = getattr(ex, 'path', None) or [f['q']]
            raise
        self.codes = [rc for _, rc in D.used[n0:]]
        self.names = [nm for nm, _ in D.used[n0:]]
        if s == 'ok':
            c = const_of(toP(v)) if v is not None else None
            return int(c) if c is not None else v
        return s
    def numeric(self):
        """number of leading sweeps that find the pattern"""
        return max([i + 1 for i, n in enumerate(self.names) if n.startswith(('int_', 'indopro', 'nonl_ind'))], default=0)
    def agrees(self, rc):
        """the smallest code; those of the sweeps that find the pattern need not be repeated"""
        return rc in (self.worst(), min(self.codes[self.numeric():], default=None))
    def worst(self):
        if not self.codes: raise Diff('a call makes no sweep')
        return min(self.codes)
    def mem(self, lv): return self.st.mem.get((lv[1], lv[2]))
    def rows(self, m):
        """the row pointers of the caller, uninitialised"""
        p = self.D.arr(self.st, 'crs%d' % self.D.newseq(), (m,))
        return p
    def span(self, p, m):
        lv = cell(('var', 'rows', self.D.newseq()))
        self.st.mem[(lv[1], lv[2])] = ('span', p, m)
        return ('ref', lv)
    def pattern(self, p, P, what):
        D, st = self.D, self.st
        for i, row in enumerate(P.rows):
            r = D.get(st, p, i)
            if D.null(r): raise Diff('%s: row %d is null' % (what, i))
            try:
                k = D.word(D.get(st, r, 0))
                got = [D.word(D.get(st, r, 1 + j)) for j in range(k)]
            except (Broken, Unsupported) as ex:
                raise Diff('%s: row %d: %s' % (what, i, ex))
            if got != row: raise Diff('%s: row %d has the indices %s, expected %s' % (what, i, short(got), short(row)))
    def release_rows(self, p, m, what):
        for i in range(m):
            try: self.D.release(self.st, self.D.get(self.st, p, i), [None, 0])
            except Broken as ex: raise Diff('%s: row %d cannot be released by the caller: %s' % (what, i, ex))
    def out(self, name, v):
        """address of a variable of the caller"""
        lv = cell(('var', name, self.D.newseq()))
        self.st.mem[(lv[1], lv[2])] = v if not isinstance(v, int) else num(v)
        return ('ptr', lv[1], lv[2]), lv
    def finish(self, what, given=()):
        """the cache is destroyed with the tape: nothing may stay"""
        D, st = self.D, self.st
        for nm, cls, imp in (('sJInfos_', 'SparseJacInfos', 'jac'), ('sHInfos_', 'SparseHessInfos', 'hess')):
            f = D.dtor(NS + cls)
            if f is None: raise Unsupported('no destructor of ' + cls)
            o = self.info(nm)
            D.tu = f['tu']
            D.stack = []
            try: D.call_body(f, st, [], this=('ptr', o[1], o[2]))
            except Broken as ex: raise Diff('%s: destruction of %s: %s' % (what, cls, ex))
            g = st.mem.get((('fld', ('obj', imp + 'impl'), ZERO, 'g_'), ZERO), NULL)
            if not D.null(g): D.dropgraph((g if not isP(g) else T.unP(g))[1])
        left = [r for r in D.leaks() if D.state[r] == 'live']
        if left: raise Diff('%s: %d block(s) are never released' % (what, len(left)))
        open_ = [r for r, g in D.graphs.items() if g['live'] and r[0] == 'colgraph']
        if open_: raise Diff('%s: a ColPack graph is never released' % what)

def short(v):
    s = str(v)
    return s if len(s) < 120 else s[:117] + '...'

class Lib:
    """the instantiated drivers, by their options"""
    def __init__(self, C):
        self.prog = C.prog
        self.E = {}
        for nm in ('SparseMethod', 'ControlFlowMode', 'BitPatternPropagationDirection', 'CompressionMode', 'RecoveryMethod', 'MemoryHandler'):
            vals = C.prog.enums.get(NS + nm)
            if not vals: raise AnalysisBroken('no enumeration ' + nm)
            self.E[nm] = {v: k for k, v in vals.items()}
        self.main = C.prog.tus.get('witness/sparse.cpp') or C.prog.tus[SRC + 'sparse/sparsedrivers_c.cpp']
        self.f, self.c = {}, {}
        for t in C.prog.tus.values():
            for f in t.funcs:
                if not f.get('body'): continue
                q = f['q']
                if q.startswith(NS) and q.count('::') == 2:
                    nm = q[len(NS):]
                    if nm not in ('jac_pat', 'hess_pat', 'sparse_jac', 'sparse_hess', 'generate_seed_jac', 'generate_seed_hess'): continue
                    key = (nm,) + self.options(f['m'])
                    self.f.setdefault(key, f)
                elif q in ('jac_pat', 'hess_pat', 'sparse_jac', 'sparse_hess', 'generate_seed_jac', 'generate_seed_hess') and f['m'] == q: self.c[q] = f
    def options(self, m):
        o = []
        cut = m.split('EE', 1)[0] if False else m
        for e, v in re.findall(r'(SparseMethod|ControlFlowMode|BitPatternPropagationDirection|CompressionMode|RecoveryMethod|MemoryHandler)E(\d+)E', cut):
            o.append(self.E[e][int(v)])
        # a template argument that repeats the name of an enumeration is substituted in the mangled name
        if 'PiecewiseLinear' in m: o.append('PL')
        return tuple(o)

# ---------------------------------------------------------------- patterns
def spread(m, n, seed):
    """rows that touch the first and last bits of words and strips; one is empty,
    one lives in the last strip only"""
    marks = [j for j in (0, 1, 62, 63, 64, 65, 127, 128, 129, 191, 192, 255, 256, 257, n - 2, n - 1) if 0 <= j < n]
    rows = []
    for i in range(m):
        k = (i + seed) % 5
        if k == 0: r = marks[(seed % 2)::2] or marks
        elif k == 1: r = []
        elif k == 2: r = [n - 1]
        elif k == 3: r = [j for j in marks if j < 64]
        else: r = range(n)     # longer than a strip
        rows.append(r)
    return Pattern(m, n, rows)

def jacpats(m, n, k=0):
    t, s = spread(m, n, k), spread(m, n, k + 3)
    return {nm: (t if 'tight' in nm else s) for nm in ('int_forward_tight', 'int_forward_safe', 'int_reverse_tight', 'int_reverse_safe',
                                                      'indopro_forward_tight', 'indopro_forward_safe')}, t, s

SMALL = [
    (Pattern(2, 3, [[0, 2], [1]]), Pattern(2, 3, [[0, 1, 2], [1, 2]])),
    (Pattern(3, 2, [[0], [], [0, 1]]), Pattern(3, 2, [[0, 1], [1], [0, 1]])),
    (Pattern(3, 4, [[0, 3], [1, 3], [2, 3]]), Pattern(3, 4, [[0, 1], [1, 2], [2, 3]])),
    (Pattern(1, 1, [[0]]), Pattern(1, 1, [[0]])),
    (Pattern(4, 3, [[0], [0], [2], []]), Pattern(4, 3, [[0, 1, 2], [], [0], [1]])),
]
def small(t, s): return {nm: (t if 'tight' in nm else s) for nm in ('int_forward_tight', 'int_forward_safe', 'int_reverse_tight', 'int_reverse_safe',
                                                                   'indopro_forward_tight', 'indopro_forward_safe')}
HESS = [
    {'nonl_ind_forward_tight': Pattern(3, 3, [[0, 2], [1], [0]]), 'nonl_ind_forward_safe': Pattern(3, 3, [[0, 1, 2], [0, 1], [0]]),
     'nonl_ind_old_forward_tight': Pattern(3, 3, [[0], [1, 2], [1]]), 'nonl_ind_old_forward_safe': Pattern(3, 3, [[0, 1], [0, 2], [1, 2]])},
    {'nonl_ind_forward_tight': Pattern(4, 4, [[0, 3], [1, 3], [2, 3], [0, 1, 2, 3]]), 'nonl_ind_forward_safe': Pattern(4, 4, [[0, 1], [0, 1, 2], [1, 2, 3], [2, 3]]),
     'nonl_ind_old_forward_tight': Pattern(4, 4, [[], [2], [1, 2], []]), 'nonl_ind_old_forward_safe': Pattern(4, 4, [[0, 1, 2, 3]] * 4)},
    {k: Pattern(1, 1, [[0]]) for k in ('nonl_ind_forward_tight', 'nonl_ind_forward_safe', 'nonl_ind_old_forward_tight', 'nonl_ind_old_forward_safe')},
]
HSWEEP = {'Safe': 'nonl_ind_forward_safe', 'Tight': 'nonl_ind_forward_tight', 'OldSafe': 'nonl_ind_old_forward_safe', 'OldTight': 'nonl_ind_old_forward_tight'}

def zero_outside(*pats):
    """derivatives vanish outside the pattern"""
    keep = set().union(*[set(p.entries()) for p in pats])
    F.zero = lambda i, al: len(al) == 1 and (i, al[0]) not in keep
def hess_outside(p):
    keep = set(p.entries()) | {(j, i) for i, j in p.entries()}
    F.zero = lambda i, al: len(al) == 2 and (al[0], al[1]) not in keep

# ---------------------------------------------------------------- scenarios; each raises Diff
def sc_pattern(L, key, dims, k, codes=(), cname=None, strip=STRIP):
    m, n = dims
    pats, t, s = jacpats(m, n, k)
    want = t if 'Tight' in key else s
    E = Env(L, pats, m, n, strip=strip, codes=codes)
    p = E.rows(m)
    x = E.point()
    if cname:
        opt = E.D.arr(E.st, 'options', (4,), lambda i: num(cname[i]))
        rc = E.call(L.c['jac_pat'], TAG, m, n, x, p, opt)
    else:
        rc = E.call(L.f[key], TAG, m, n, x, E.span(p, m))
    if rc == 'fail': raise Diff('fails')
    exp = E.worst()
    if rc != exp: raise Diff('returns %s where the sweeps return %s' % (rc, E.codes))
    if rc >= 0:
        E.pattern(p, want, 'pattern')
        E.release_rows(p, m, 'pattern')
    else:
        for i in range(m):
            r = E.D.get(E.st, p, i)
            if isP(r) and const_of(r) is None and r[0] != 'ptr' and not E.D.null(r): raise Diff('row %d stays undefined after a failure' % i)
            E.D.release(E.st, r, [None, 0])
    E.finish('pattern')
    return len(E.D.used)

def sc_nopoint(L, key):
    pats, t, s = jacpats(2, 3)
    E = Env(L, pats, 2, 3)
    p = E.rows(2)
    E.point()
    rc = E.call(L.f[key], TAG, 2, 3, NULL, E.span(p, 2))
    if 'Tight' in key:
        if rc != 'fail': raise Diff('tight mode without a base point is not refused')
    else:
        if rc == 'fail': raise Diff('safe mode needs no base point, but fails')
        E.pattern(p, s, 'pattern')

def matrix(E, lv, what):
    """entries of a SparseMatrix object: {(i, j): value}"""
    D, st = E.D, E.st
    v = cell(('fld', lv[1], lv[2], 'entries_'))
    n = D.vsize(st, v)
    out = []
    for k in range(n):
        el = cell(('vec', v[1], v[2]), num(k))
        co = cell(('fld', el[1], el[2], 'coords_'))
        def ld(o, nm): return D.load(st, cell(('fld', o[1], o[2], nm)))
        out.append((D.word(ld(co, 'rowIndex_')), D.word(ld(co, 'colIndex_')), toP(ld(el, 'value_'))))
    return out
def newmatrix(E, n=0, o=None):
    if o is None: o = cell(('var', 'sparse', E.D.newseq()))
    E.D.setsize(E.st, cell(('fld', o[1], o[2], 'entries_')), n)
    return o
def entries(got, want, what):
    """the triples are exactly the wanted ones"""
    seen = {}
    for i, j, v in got:
        if (i, j) not in want: raise Diff('%s: entry (%d,%d) is not in the pattern' % (what, i, j))
        if (i, j) in seen: raise Diff('%s: entry (%d,%d) occurs twice' % (what, i, j))
        seen[(i, j)] = v
        if v != want[(i, j)]: raise Diff('%s: entry (%d,%d) has the value %s, expected %s' % (what, i, j, short(T.show(v)), short(T.show(want[(i, j)]))))
    for k in want:
        if k not in seen: raise Diff('%s: entry (%d,%d) is missing' % (what, k[0], k[1]))

def jacvalues(E, P): return {(i, j): F.D(TAG, i, (j,), E.D.x0) for i, j in P.entries()}

def sc_jac(L, key, pr, codes=()):
    t, s = pr
    m, n = t.m, t.n
    want = t if 'Tight' in key else s
    zero_outside(want)
    E = Env(L, small(t, s), m, n, codes=codes)
    man = 'Manual' in key
    S = newmatrix(E, want.nnz() if man else 2)
    f = L.f[key]
    def run(rep): 
        return E.call(f, TAG, m, n, rep, E.point(), ('ref', S))
    E.point()
    rc = run(1)
    if rc != -3: raise Diff('repeat without an earlier call returns %s' % rc)
    failed = False
    for rep, what in ((0, 'first call'), (1, 'repeated call'), (1, 'second repeated call'), (0, 'call with repeat = 0 again')):
        if failed and rep: continue
        rc = run(rep)
        if rc == 'fail': raise Diff('%s fails' % what)
        if E.worst() < 0:
            if rc >= 0: raise Diff('%s returns %d where the sweeps return %s' % (what, rc, E.codes))
            failed = True
            continue
        if not E.agrees(rc): raise Diff('%s returns %s where the sweeps return %s' % (what, rc, E.codes))
        entries(matrix(E, S, what), jacvalues(E, want), what)
        # a matrix of another size
        if man:
            S2 = newmatrix(E, want.nnz() + 1)
            rc = E.call(f, TAG, m, n, 1, E.point(), ('ref', S2))
            if rc != -3: raise Diff('a matrix of another size returns %s' % rc)
    E.finish('after the calls')
    return len(E.D.used)

ANF = [(2, 2, 2, [[0, 2], [1, 2, 3], [0], [1, 2]]), (1, 2, 3, [[1, 3, 4], [0, 1], [0, 2], [2, 3]]), (3, 1, 1, [[0], [1], [0, 1], [0]])]
def sc_anf(L, key, spec, codes=()):
    m, n, s, rows = spec
    P = Pattern(m + s, n + s, rows)
    F.zero = None
    E = Env(L, {'indopro_forward_absnormal': P}, m, n, nsw=s, codes=codes)
    D, st = E.D, E.st
    man = 'Manual' in key
    o = cell(('var', 'anf', D.newseq()))
    def part(nm): return cell(('fld', o[1], o[2], nm))
    blk = {'Y': {}, 'J': {}, 'Z': {}, 'L': {}}
    for i, j in P.entries():
        b = ('Y' if j < n else 'J') if i < m else ('Z' if j < n else 'L')
        blk[b][(i if i < m else i - m, j if j < n else j - n)] = atom(('pl', i, j))
    sh = part('shape')
    for b in 'YJZL':
        newmatrix(E, len(blk[b]) if man else 1, part(b))
        st.mem[(('fld', sh[1], sh[2], b.lower()), ZERO)] = num(len(blk[b]) if man else 1)
    for v in ('cz', 'cy', 'y', 'z'): D.setsize(st, part(v), 0)
    f = L.f[key]
    E.point()
    rc = E.call(f, TAG, m, n, s, 1, E.point(), ('ref', o))
    if rc != -3: raise Diff('repeat without an earlier call returns %s' % rc)
    failed = False
    for rep, what in ((0, 'first call'), (1, 'repeated call'), (0, 'call with repeat = 0 again')):
        if failed and rep: continue
        rc = E.call(f, TAG, m, n, s, rep, E.point(), ('ref', o))
        if rc == 'fail': raise Diff('%s fails' % what)
        if E.worst() < 0:
            if rc >= 0: raise Diff('%s returns %d where the sweeps return %s' % (what, rc, E.codes))
            failed = True
            continue
        if not E.agrees(rc): raise Diff('%s returns %s where the sweeps return %s' % (what, rc, E.codes))
        for b in 'YJZL': entries(matrix(E, part(b), what), blk[b], '%s, block %s' % (what, b))
        y = [F.D(TAG, i, (), D.x0) for i in range(m)]
        z = [atom(('z', TAG, i, tuple(D.x0))) for i in range(s)]
        az = [T.fn('fabs', v) for v in z]
        def con(base, M): return [sub(b, D.sum(mul(v, az[j]) for (r, j), v in M.items() if r == i)) for i, b in enumerate(base)]
        for nm, w in (('y', y), ('z', z), ('cy', con(y, blk['J'])), ('cz', con(z, blk['L']))):
            v = part(nm)
            k = D.vsize(st, v)
            if k != len(w): raise Diff('%s: %s has %d components' % (what, nm, k))
            for i in range(k):
                g = toP(D.load(st, cell(('vec', v[1], v[2]), num(i))))
                if g != w[i]: raise Diff('%s: %s[%d] is %s, expected %s' % (what, nm, i, short(T.show(g)), short(T.show(w[i]))))
        if man:
            k = st.mem[(('fld', sh[1], sh[2], 'l'), ZERO)]
            st.mem[(('fld', sh[1], sh[2], 'l'), ZERO)] = add(toP(k), ONE)
            rc = E.call(f, TAG, m, n, s, 1, E.point(), ('ref', o))
            if rc != -3: raise Diff('blocks of another size return %s' % rc)
            st.mem[(('fld', sh[1], sh[2], 'l'), ZERO)] = k
    E.finish('after the calls')
    return len(D.used)

def sc_jacseq(L, steps):
    """new patterns in one cache: steps are (instance, (tight, safe))"""
    t, s = steps[0][1]
    E = Env(L, {}, t.m, t.n)
    for no, (key, (t, s)) in enumerate(steps):
        what = 'call %d of a sequence' % (no + 1)
        m, n = t.m, t.n
        if 'PL' in key: continue
        want = t if 'Tight' in key else s
        E.D.pats = small(t, s)
        zero_outside(want)
        S = newmatrix(E, want.nnz() if 'Manual' in key else 1)
        for rep in (0, 1):
            w = what + (', repeated' if rep else '')
            rc = E.call(L.f[key], TAG, m, n, rep, E.point(), ('ref', S))
            if rc == 'fail' or not E.agrees(rc): raise Diff('%s returns %s where the sweeps return %s' % (w, rc, E.codes))
            entries(matrix(E, S, w), jacvalues(E, want), w)
    E.finish('after the sequence')
    return len(E.D.used)

def sc_hessseq(L, steps):
    n = next(iter(steps[0][1].values())).n
    E = Env(L, {}, 1, n)
    D, st = E.D, E.st
    for no, (key, pats) in enumerate(steps):
        P = pats[HSWEEP[next(k for k in key[1:] if k in HSWEEP)]]
        E.D.pats = pats
        hess_outside(P)
        nz = len([1 for i, j in P.entries() if j >= i])
        pn, nnz = E.out('nnz', 0)
        outs = [E.out(nm, NULL) for nm in ('rind', 'cind', 'values')]
        lvs = [b for _, b in outs]
        for rep in (0, 1):
            w = 'call %d of a sequence%s' % (no + 1, ', repeated' if rep else '')
            rc = E.call(L.f[key], TAG, n, rep, E.point(), pn, *[a for a, _ in outs])
            if rc == 'fail' or not E.agrees(rc): raise Diff('%s returns %s where the sweeps return %s' % (w, rc, E.codes))
            k = D.word(E.mem(nnz))
            if k != nz: raise Diff('%s: %d nonzeros are reported, the upper triangle has %d' % (w, k, nz))
            entries(coords(E, k, lvs), hentries(E, P), w)
        for lv in lvs: D.state[E.mem(lv)[1]] = 'freed'
    E.finish('after the sequence')
    return len(D.used)

def hentries(E, P): return {(i, j): F.D(TAG, 0, (i, j), E.D.x0) for i, j in P.entries() if j >= i}
def coords(E, n, ptrs):
    D, st = E.D, E.st
    r, c, v = (E.mem(lv) for lv in ptrs)
    return [(D.word(D.get(st, r, k)), D.word(D.get(st, c, k)), toP(D.get(st, v, k))) for k in range(n)]

def sc_hess(L, key, pats, copt=None, codes=()):
    cfm = next(k for k in key[1:] if k in HSWEEP)
    P = pats[HSWEEP[cfm]]
    n = P.n
    hess_outside(P)
    E = Env(L, pats, 1, n, codes=codes)
    D, st = E.D, E.st
    nz = len([1 for i, j in P.entries() if j >= i])
    pn, nnz = E.out('nnz', 0)
    outs = [E.out(nm, NULL) for nm in ('rind', 'cind', 'values')]
    ps, lvs = [a for a, _ in outs], [b for _, b in outs]
    def run(rep):
        x = E.point()
        if copt is not None:
            opt = D.arr(st, 'options', (2,), lambda i: num(copt[i]))
            return E.call(L.c['sparse_hess'], TAG, n, rep, x, pn, *ps, opt)
        return E.call(L.f[key], TAG, n, rep, x, pn, *ps)
    E.point()
    rc = run(1)
    if rc != -3: raise Diff('repeat without an earlier call returns %s' % rc)
    for rep, what, user in ((0, 'first call', False), (1, 'repeated call with the arrays of the first', True), (0, 'call with repeat = 0 again', True),
                            (1, 'repeated call without arrays', False)):
        if not user:
            for lv in lvs:
                v = E.mem(lv)
                if not D.null(v): D.state[(v if not isP(v) else T.unP(v))[1]] = 'freed'
                st.mem[(lv[1], lv[2])] = NULL
        rc = run(rep)
        if rc == 'fail': raise Diff('%s fails' % what)
        if E.worst() < 0:
            if rc >= 0: raise Diff('%s returns %d where the sweeps return %s' % (what, rc, E.codes))
            return len(D.used)
        if not E.agrees(rc): raise Diff('%s returns %s where the sweeps return %s' % (what, rc, E.codes))
        k = D.word(E.mem(nnz))
        if k != nz: raise Diff('%s: %d nonzeros are reported, the upper triangle has %d' % (what, k, nz))
        entries(coords(E, k, lvs), hentries(E, P), what)
    st.mem[(nnz[1], nnz[2])] = num(nz + 1)
    rc = run(1)
    if rc != -3: raise Diff('another number of nonzeros returns %s' % rc)
    E.finish('after the calls')
    return len(D.used)

def sc_hesspat(L, key, pats, copt=None, codes=()):
    cfm = next(k for k in key[1:] if k in HSWEEP)
    P = pats[HSWEEP[cfm]]
    E = Env(L, pats, 1, P.n, codes=codes)
    p, x = E.rows(P.n), E.point()
    if copt is not None:
        rc = E.call(L.c['hess_pat'], TAG, P.n, x, p, E.D.arr(E.st, 'options', (2,), lambda i: num(copt[i])))
    else: rc = E.call(L.f[key], TAG, P.n, x, E.span(p, P.n))
    if rc != E.worst(): raise Diff('returns %s where the sweep returns %s' % (rc, E.codes))
    if rc >= 0:
        E.pattern(p, P, 'pattern')
        E.release_rows(p, P.n, 'pattern')
    E.finish('pattern')
    return 1

def sc_seed(L, key, P, copt=None):
    """seed matrices: every row (column) of the pattern is separated"""
    jac = key[0] == 'generate_seed_jac'
    E = Env(L, {}, P.m, P.n)
    D, st = E.D, E.st
    p = E.rows(P.m)
    for i, r in enumerate(P.rows): st.mem[(p[1], num(i))] = D.arr(st, 'row%d' % i, (len(r) + 1,), lambda k, r=r: num(len(r)) if k == 0 else num(r[k - 1]))
    ps, seed = E.out('seed', NULL)
    pp, cnt = E.out('p', 0)
    o = [D.arr(st, 'options', (1,), lambda i: num(copt[i]))] if copt is not None else []
    f = L.c[key[0]] if copt is not None else L.f[key]
    a = ('val', ('span', p, P.m)) if copt is None else p
    if jac: E.call(f, P.m, P.n, a, ps, pp, *o)
    else: E.call(f, P.n, a, ps, pp, *o)
    row = 'Row' in key
    k = D.word(E.mem(cnt))
    sd = E.mem(seed)
    if D.null(sd): raise Diff('no seed matrix')
    R, Cn = (k, P.m) if row else (P.n, k)
    try: S = [[D.word(D.get(st, sd, i, j)) for j in range(Cn)] for i in range(R)]
    except Broken as ex: raise Diff('the seed matrix is not %d x %d: %s' % (R, Cn, ex))
    if D.state.get(sd[1]) == 'freed': raise Diff('the seed matrix is released on return')
    # one 1 per vertex
    V = [[S[c][v] for c in range(R)] for v in range(Cn)] if row else S
    for v, r in enumerate(V):
        if sorted(r) != [0] * (len(r) - 1) + [1]: raise Diff('vertex %d of the seed matrix has no single colour' % v)
    col = [r.index(1) for r in V]
    if jac and not row:
        for i, r in enumerate(P.rows):
            if len({col[j] for j in r}) != len(r): raise Diff('columns %s of row %d share a direction' % (r, i))
    if jac and row:
        for j in range(P.n):
            rs = [i for i in range(P.m) if j in P.rows[i]]
            if len({col[i] for i in rs}) != len(rs): raise Diff('rows %s of column %d share a weight' % (rs, j))
    if not jac and D.variant != ('STAR' if 'Direct' in key else 'ACYCLIC_FOR_INDIRECT_RECOVERY'): raise Diff('a %s colouring' % D.variant)
    return 1

def sc_cjac(L, opt, pr, codes=()):
    """sparse_jac of the C interface; memory of the caller"""
    t, s = pr
    want = t if opt[1] == 1 else s
    zero_outside(want)
    m, n = t.m, t.n
    E = Env(L, small(t, s), m, n, codes=codes)
    D, st = E.D, E.st
    pn, nnz = E.out('nnz', 0)
    outs = [E.out(nm, NULL) for nm in ('rind', 'cind', 'values')]
    ps, lvs = [a for a, _ in outs], [b for _, b in outs]
    o = D.arr(st, 'options', (4,), lambda i: num(opt[i]))
    f = L.c['sparse_jac']
    E.point()
    rc = E.call(f, TAG, m, n, 1, E.point(), pn, *ps, o)
    if rc != -3: raise Diff('repeat without an earlier call returns %s' % rc)
    def mine(k):
        for lv in lvs: st.mem[(lv[1], lv[2])] = D.alloc(st, k, 'm')
        st.mem[(nnz[1], nnz[2])] = num(k)
    nz = want.nnz()
    for rep, what, prep in ((0, 'first call', None), (1, 'repeated call with the arrays of the first', None), (1, 'repeated call with arrays of another size', nz + 2),
                            (0, 'call with repeat = 0 and arrays of the right size', nz)):
        if prep is not None:
            for lv in lvs: D.release(st, E.mem(lv), [None, 0])
            mine(prep)
        before = [E.mem(lv) for lv in lvs]
        rc = E.call(f, TAG, m, n, rep, E.point(), pn, *ps, o)
        if rc == 'fail': raise Diff('%s fails' % what)
        if E.worst() < 0:
            if rc >= 0: raise Diff('%s returns %d where the sweeps return %s' % (what, rc, E.codes))
            return len(D.used)
        if not E.agrees(rc): raise Diff('%s returns %s where the sweeps return %s' % (what, rc, E.codes))
        k = D.word(E.mem(nnz))
        if k != nz: raise Diff('%s: %d nonzeros are reported, the pattern has %d' % (what, k, nz))
        entries(coords(E, k, lvs), jacvalues(E, want), what)
        if prep == nz and [E.mem(lv) for lv in lvs] != before: raise Diff('%s: the arrays of the caller are replaced' % what)
    for lv in lvs: D.release(st, E.mem(lv), [None, 0])
    E.finish('after the calls')
    return len(D.used)

# ---------------------------------------------------------------- the check
def c15():
    R = Report('C15', 'abstract interpretation of the sparse drivers with formal derivatives; contracts of the pattern sweeps and of ColPack')
    thorough = os.environ.get('VERIF_TIER') == 'thorough'
    R.rule('pattern', 'jac_pat and hess_pat deliver for every dependent (independent) exactly the indices of the sweep selected by the control flow mode, increasing, each once, the count in front; also when the bits take several words and strips; the code is the smallest of those of the sweeps')
    R.rule('seed', 'generate_seed_jac and generate_seed_hess deliver the seed matrix of a colouring of the right kind with its dimensions')
    R.rule('values', 'sparse_jac and sparse_hess deliver every entry of the pattern exactly once with the derivative at the point of the call, with a new and with a reused pattern, in memory of the driver and of the caller')
    R.rule('anf', 'the abs-normal variant splits the extended Jacobian into Y, J, Z, L with local indices and cy = y - J|z|, cz = z - L|z|')
    R.rule('misuse', 'repeat without an earlier call, containers of another size and a missing base point are refused')
    R.rule('definitions', 'no function or template instance of the sparse part has two bodies: a specialisation is declared wherever the template is used')
    R.rule('storage', 'every block is released exactly once when the tape goes, nothing is used after its release, every access is within bounds')
    C = Ctx(rec=False, extra=FILES, witness=[('sparse.cpp', SRC + 'sparse/sparsedrivers_c.cpp')])
    L = Lib(C)
    jobs = []
    fdims = [(2, 3), (5, 1), (5, 64), (3, 65), (2, 128), (5, 129), (5, 300), (3, 256)]
    rdims = [(3, 2), (64, 2), (65, 1), (128, 1), (129, 3), (300, 2), (5, 3)]
    for key in sorted(k for k in L.f if k[0] == 'jac_pat' and 'PL' not in k):
        f = L.f[key]
        ds = [(2, 3), (4, 2), (5, 1)] if 'IndexDomains' in key else rdims if 'Reverse' in key else fdims if 'Forward' in key else [(5, 3), (2, 300), (2, 12), (130, 2), (3, 7)]
        for k, d in enumerate(ds):
            jobs.append((key, d, lambda key=key, d=d, k=k: sc_pattern(L, key, d, k)))
        for codes in ([-1], [2, 3], [3, -2], [1]):
            jobs.append((key, 'codes %s' % codes, lambda key=key, codes=codes: sc_pattern(L, key, (3, 2), 1, codes)))
        if 'Forward' in key:
            jobs.append((key, 'codes of strips', lambda key=key: sc_pattern(L, key, (2, 300), 1, [3, 1, 3])))
            jobs.append((key, 'codes of strips', lambda key=key: sc_pattern(L, key, (2, 300), 1, [3, -1, 3])))
            if thorough: jobs.append((key, (2, 2000), lambda key=key: sc_pattern(L, key, (2, 2000), 0, strip=30)))
        if 'Reverse' in key and thorough: jobs.append((key, (2000, 2), lambda key=key: sc_pattern(L, key, (2000, 2), 0, strip=30)))
        if 'BitPattern' in key: jobs.append((key, 'no base point', lambda key=key: sc_nopoint(L, key)))
    for key in sorted(k for k in L.f if k[0] == 'hess_pat'):
        for k, p in enumerate(HESS): jobs.append((key, 'pattern %d' % k, lambda key=key, p=p: sc_hesspat(L, key, p)))
        for c in ([-1], [1]): jobs.append((key, 'codes %s' % c, lambda key=key, c=c: sc_hesspat(L, key, HESS[0], codes=c)))
    for key in sorted(k for k in L.f if k[0].startswith('generate_seed')):
        for k, (t, s) in enumerate(SMALL) if 'jac' in key[0] else enumerate([(h['nonl_ind_forward_safe'],) * 2 for h in HESS]):
            for P in (t, s): jobs.append((key, 'pattern %d' % k, lambda key=key, P=P: sc_seed(L, key, P)))
    for key in sorted(k for k in L.f if k[0] == 'sparse_jac' and 'PL' not in k):
        for k, pr in enumerate(SMALL): jobs.append((key, 'pattern %d' % k, lambda key=key, pr=pr: sc_jac(L, key, pr)))
        for c in ([-1], [3, -1], [3, 3, -1], [2, 1], [3, 1, 2], [3, 3, -1, 3, 3, -2]): jobs.append((key, 'codes %s' % c, lambda key=key, c=c: sc_jac(L, key, SMALL[0], c)))
    for key in sorted(k for k in L.f if k[0] == 'sparse_jac' and 'PL' in k):
        for sp in ANF: jobs.append((key, sp[:3], lambda key=key, sp=sp: sc_anf(L, key, sp)))
        for c in ([-1], [3, -1], [3, 3, -1], [3, 2, 1], [3, 1, 2]): jobs.append((key, 'codes %s' % c, lambda key=key, c=c: sc_anf(L, key, ANF[0], c)))
    for key in sorted(k for k in L.f if k[0] == 'sparse_hess'):
        for k, p in enumerate(HESS): jobs.append((key, 'pattern %d' % k, lambda key=key, p=p: sc_hess(L, key, p)))
        for c in ([-1], [3, -1], [3, 3, -1], [3, 2, 1], [3, 1, 2]): jobs.append((key, 'codes %s' % c, lambda key=key, c=c: sc_hess(L, key, HESS[0], codes=c)))
    jk = sorted(k for k in L.f if k[0] == 'sparse_jac' and 'PL' not in k)
    if jk:
        A, B_ = SMALL[2], (Pattern(3, 4, [[0], [1], [2]]), Pattern(3, 4, [[0], [], [0, 1, 2, 3]]))
        Z = (Pattern(3, 4, [[0, 1, 2, 3]] * 3),) * 2
        for i, key in enumerate(jk):
            nx = jk[(i * 7 + 5) % len(jk)]
            for steps in ([(key, A), (key, B_), (key, Z), (key, B_)], [(key, B_), (nx, Z), (key, A), (nx, B_)]):
                jobs.append((('sparse_jac',) + key[1:], 'sequence of patterns', lambda steps=steps: sc_jacseq(L, steps)))
    hk = sorted(k for k in L.f if k[0] == 'sparse_hess')
    if hk:
        def hp(rows): return {k: Pattern(4, 4, rows) for k in HESS[0]}
        A, B_, Z = HESS[1], hp([[0], [1], [2], [3]]), hp([[0, 1, 2, 3]] * 4)
        for i, key in enumerate(hk):
            nx = hk[(i * 3 + 1) % len(hk)]
            for steps in ([(key, A), (key, B_), (key, Z), (key, B_)], [(key, B_), (nx, Z), (key, A), (nx, B_)]):
                jobs.append((('sparse_hess',) + key[1:], 'sequence of patterns', lambda steps=steps: sc_hessseq(L, steps)))
    # the C interface: meaning of the options
    if 'jac_pat' in L.c:
        for sm in (0, 1):
            for cf in (0, 1):
                for bp in (0, 1, 2):
                    key = ('jac_pat C', 'Tight' if cf else 'Safe')
                    jobs.append((key, 'options %d%d%d' % (sm, cf, bp), lambda o=(sm, cf, bp, 0), key=key: sc_pattern(L, key, (5, 3), 1, cname=o)))
    HC = ['Safe', 'Tight', 'OldSafe', 'OldTight']
    if 'hess_pat' in L.c:
        for i, h in enumerate(HC): jobs.append((('hess_pat C', h), 'option %d' % i, lambda i=i, h=h: sc_hesspat(L, ('', h), HESS[0], copt=(i, 0))))
    if 'generate_seed_jac' in L.c:
        for i, h in enumerate(('Column', 'Row')):
            for t, s in SMALL: jobs.append((('generate_seed_jac C', h), 'option %d' % i, lambda i=i, h=h, s=s: sc_seed(L, ('generate_seed_jac', h), s, copt=(i,))))
    if 'generate_seed_hess' in L.c:
        for i, h in enumerate(('Indirect', 'Direct')):
            for p in HESS: jobs.append((('generate_seed_hess C', h), 'option %d' % i, lambda i=i, h=h, p=p: sc_seed(L, ('generate_seed_hess', h), p['nonl_ind_forward_safe'], copt=(i,))))
    if 'sparse_jac' in L.c:
        for sm in (0, 1):
            for cf in (0, 1):
                for bp in (0, 1, 2):
                    for cm in (0, 1):
                        o = (sm, cf, bp, cm)
                        jobs.append((('sparse_jac C', 'Tight' if cf else 'Safe', 'Row' if cm else 'Column'), 'options %d%d%d%d' % o, lambda o=o: sc_cjac(L, o, SMALL[0])))
        jobs.append((('sparse_jac C',), 'codes', lambda: sc_cjac(L, (0, 0, 0, 0), SMALL[1], [3, -1])))
        jobs.append((('sparse_jac C',), 'pattern 4', lambda: sc_cjac(L, (0, 0, 0, 1), SMALL[4])))
    if 'sparse_hess' in L.c:
        for i, h in enumerate(HC):
            for r, rm in ((0, 'Indirect'), (1, 'Direct')):
                jobs.append((('sparse_hess C', h, rm), 'options %d%d' % (i, r), lambda i=i, h=h, r=r: sc_hess(L, ('', h), HESS[1], copt=(i, r))))
    # one definition: the library and the programs that instantiate the templates agree
    defs = {}
    for t in C.prog.tus.values():
        for f in t.funcs:
            if f.get('body') and not f.get('internal') and f['q'].startswith(NS): defs.setdefault(f['m'], {}).setdefault(t.loc(f['l']), f)
    for mm, d in sorted(defs.items()):
        f = next(iter(d.values()))
        R.check(len(d) == 1, 'definition of ' + f['q'], '%s has different bodies in different translation units: %s' % (f['q'], ' and '.join(sorted(d))), None)
    done = {}
    for key, label, job in jobs:
        nm = '%s<%s>' % (key[0], ', '.join(key[1:])) if len(key) > 1 else key[0]
        kk = '%s %s' % (nm, label)
        F.zero = None
        try:
            n = job()
            R.check(True, kk, '', None)
            R.count('sweep calls', n or 0)
            done[key[0]] = done.get(key[0], 0) + 1
        except Diff as ex:
            R.check(False, nm, '%s, %s: %s' % (nm, label, ex), None)
        except Broken as ex:
            R.check(False, nm, '%s, %s: %s%s' % (nm, label, ex, ' (in %s)' % ' <- '.join(getattr(ex, 'path', [])[:6]) if getattr(ex, 'path', None) else ''), None)
        except Unsupported as ex:
            R.skip(kk, str(ex))
        except Dead:
            R.skip(kk, 'no path through the driver')
    F.zero = None
    R.count('scenarios', len(jobs))
    R.floor(100, 'scenarios')
    return R.finish()

CHECKS = {'C15': c15}
