"""Sparse drivers interpreted against contracts of the sweeps and of ColPack.

The pattern sweeps are replaced by their contracts (a different pattern for each
kind of sweep, so that a driver that picks the wrong one is seen), the formal
derivatives vanish outside the pattern.  ColPack is replaced by its contract: a
graph built from the rows of the pattern, a colouring in which two columns (rows)
of one colour share no row (column), the seed matrix of that colouring.  The
graph object owns the seed it hands out.
"""
import re
import terms as T
from terms import ZERO, ONE, num, atom, isP, toP, add, sub, mul, const_of, TRUE, FALSE
from absint import State, Flow, Unsupported, Dead, cell, NULL
from drive import Drive, Broken, F, SIZES
from store import Store, U64

STRIP = 2          # words of a strip, in place of PQ_STRIPMINE_MAX
TAPEOBJ = ('obj', 'tape')

class Pattern:
    """rows of column indices; Jacobian m x n, or the Hessian n x n"""
    def __init__(self, m, n, rows): self.m, self.n, self.rows = m, n, [sorted(set(r)) for r in rows]
    def nnz(self): return sum(len(r) for r in self.rows)
    def entries(self): return [(i, j) for i, r in enumerate(self.rows) for j in r]

class Sparse(Store):
    def __init__(self, prog, tu, pats=None, strip=STRIP, **kw):
        super().__init__(prog, tu, **kw)
        self.strip = strip
        self.pats = pats or {}          # name of the pattern sweep -> Pattern
        self.graphs = {}
        self.x0 = None
        self.scopes = []
        self.called = []
        P = self.prims
        P['std::make_unique'] = self.c_make
        B, G = 'ColPack::BipartiteGraphPartialColoringInterface', 'ColPack::GraphColoringInterface'
        P['ctor:' + B + '::BipartiteGraphPartialColoringInterface'] = P['ctor:' + G + '::GraphColoringInterface'] = self.c_graph
        for nm in ('GenerateSeedJacobian', 'GenerateSeedJacobian_unmanaged'):
            P[B + '::' + nm] = (lambda own: lambda I, st, e, xs: self.c_seedjac(st, e, xs, own))(nm == 'GenerateSeedJacobian')
        for nm in ('GenerateSeedHessian', 'GenerateSeedHessian_unmanaged'):
            P[G + '::' + nm] = (lambda own: lambda I, st, e, xs: self.c_seedhess(st, e, xs, own))(nm == 'GenerateSeedHessian')
        for nm in ('GetRowVertexCount', 'GetLeftVertexCount'):
            for b in (B, 'ColPack::BipartiteGraphCore', 'ColPack::BipartiteGraphBicoloringInterface'):
                P[b + '::' + nm] = lambda I, st, e, xs: num(self.graph(st, e, xs[0])['m'])
        P[B + '::GetColumnVertexCount'] = P['ColPack::BipartiteGraphCore::GetColumnVertexCount'] = lambda I, st, e, xs: num(self.graph(st, e, xs[0])['n'])
        for side in ('Left', 'Right'):
            h = (lambda side: lambda I, st, e, xs: self.c_colors(st, e, xs, side))(side)
            for b in (B, 'ColPack::BipartiteGraphPartialColoring', 'ColPack::BipartiteGraphPartialOrdering'):
                P[b + '::Get%sVertexColors' % side] = h
        for c in ('JacobianRecovery1D', 'HessianRecovery'): P['ColPack::%s::operator=' % c] = lambda I, st, e, xs: ZERO
        R = 'ColPack::HessianRecovery::'
        for kind in ('Direct', 'Indirect'):
            for mem in ('usermem', 'unmanaged'):
                P[R + '%sRecover_CoordinateFormat_%s' % (kind, mem)] = (lambda k, u: lambda I, st, e, xs: self.c_hess(st, e, xs, k, u))(kind, mem == 'usermem')
        P['ValueTape::numInds'] = lambda I, st, e, xs: num(self.dims[1])
        P['ValueTape::numSwitches'] = lambda I, st, e, xs: num(self.nsw)
        P['ValueTape::numDeps'] = lambda I, st, e, xs: num(self.dims[0])
        self.dims = (0, 0)
    # ------------------------------------------------------------ machine integers
    def lit(self, v): return self.strip if v == 30 else v
    def e_int(self, e, st): return num(self.lit(int(e[2])))
    def e_ref(self, e, st):
        d = self.decl(e[2])
        if 'cv' in d: return num(self.lit(d['cv']))
        return Drive.e_ref(self, e, st)
    def arith(self, op, a, b):
        if op in ('&', '|', '^', '<<', '>>'):
            ca, cb = const_of(toP(a)), const_of(toP(b))
            if ca is not None and cb is not None and ca.denominator == cb.denominator == 1:
                ca, cb = int(ca), int(cb)
                if op == '&': return num(ca & cb)
                if op == '|': return num(ca | cb)
                if op == '^': return num(ca ^ cb)
                if not 0 <= cb < 64: raise Broken('shift by %d' % cb)
                return num((ca << cb) % U64 if op == '<<' else ca >> cb)
            if op == '&' and 0 in (ca, cb): return ZERO
        return super().arith(op, a, b)
    def e_bin(self, e, st):
        if e[2] in ('&', '|', '^', '<<', '>>'):
            a, b = self.ev_val(e[3], st), self.ev_val(e[4], st)
            if all(isP(x) and const_of(x) is not None for x in (a, b)): return self.arith(e[2], a, b)
        return super().e_bin(e, st)
    def word(self, v):
        c = const_of(toP(v))
        if c is None: raise Broken('a bit pattern is not set')
        return int(c)
    # ------------------------------------------------------------ vectors, spans, strings
    def e_cast(self, e, st):
        v = super().e_cast(e, st)
        return self.chop(v, e[3])
    def chop(self, v, t):
        if isP(v) and t in ('unsigned int', 'uint', 'unsigned char'):
            c = const_of(v)
            if c is not None and c.denominator == 1: return num(int(c) % (1 << (8 if 'char' in t else 32)))
        return v
    def truth(self, v):
        if isP(v) and v not in (ZERO,) and const_of(v) is None:
            a = T.unP(v) if len(v[1]) == 1 else None
            if a is not None and a[0] == 'undef': raise Unsupported('branch on an undefined value')
        return super().truth(v)
    def size_of(self, st, lv):
        v = st.mem.get((('vecsize', lv[1], lv[2]), ZERO))
        return v if v is not None else ZERO
    def ev_val(self, e, st, want_lv=False):
        v = super().ev_val(e, st, want_lv)
        if not want_lv and e[0] == 'mcall' and isinstance(v, tuple) and v and v[0] == 'lv' and v[1][0] == 'cell':
            r = v[1][1]
            if isinstance(r, tuple) and r and r[0] == 'vec' and not any(k[0][0] == 'fld' and k[0][1] == r for k in st.mem if isinstance(k[0], tuple)):
                if self.scalar(e): return self.load(st, v[1])
        return v
    SCALAR = ('unsigned char', 'double', 'int', 'unsigned int', 'unsigned long', 'size_t', '*')
    def scalar(self, e):
        """the element type of the vector this element belongs to"""
        o = e[7]
        t = self.decl(o[2])['t'] if o[0] == 'ref' else o[6] if o[0] == 'mem' else ''
        t = t.replace('const ', '')
        i = t.find('vector<')
        if i < 0: return False
        x = t[i + 7:].split(',')[0].split('>')[0].strip()
        return x.endswith('*') or x in SIZES or x in ('unsigned char', 'bitword_t', 'ADOLC::bitword_t')
    def vsize(self, st, lv):
        r = self.size_of(st, lv)
        c = const_of(toP(r))
        if c is None: raise Unsupported('vector of unknown length')
        return int(c)
    def setsize(self, st, lv, n):
        st.mem[(('vecsize', lv[1], lv[2]), ZERO)] = num(n)
        v = ('vec', lv[1], lv[2])
        self.size[v] = n; self.kind[v] = 'z'; self.state[v] = 'vec'
    def newvec(self, st, n, val=None):
        lv = cell(('tmp', self.newseq())); st.news.add(lv[1])
        self.setsize(st, lv, n)
        if val is not None and val != ZERO:
            for i in range(n): st.mem[(('vec', lv[1], lv[2]), num(i))] = val
        return lv
    def vec_hook(self, st, lv, t, vals):
        if 'std::vector' in t:
            if not vals: return self.setsize(st, lv, 0)
            v = vals[0]
            if isP(v) and const_of(v) is not None:
                n = int(const_of(v))
                if n < 0: raise Broken('vector of %d elements' % n)
                self.setsize(st, lv, n)
                if len(vals) > 1 and isP(vals[1]) and vals[1] != ZERO:
                    for i in range(n): st.mem[(('vec', lv[1], lv[2]), num(i))] = vals[1]
                return
            if isinstance(v, tuple) and v and v[0] in ('lv', 'objv'): return self.copy_vec(st, v[1], lv)
            raise Unsupported('construction of a vector')
        return super().vec_hook(st, lv, t, vals)
    def copy_vec(self, st, src, dst, move=False):
        if src == dst: return
        n = self.vsize(st, src)
        s, d = ('vec', src[1], src[2]), ('vec', dst[1], dst[2])
        for k in [k for k in st.mem if self.inside(k[0], d)]: del st.mem[k]
        for (r, o), v in list(st.mem.items()):
            nr = self.rebase(r, s, d)
            if nr is not None: st.mem[(nr, o)] = v
        self.setsize(st, dst, n)
        if move: self.setsize(st, src, 0)
    def inside(self, r, root):
        while True:
            if r == root: return True
            if not (isinstance(r, tuple) and r and r[0] in ('fld', 'vec', 'arr', 'vecsize')): return False
            r = r[1]
    def rebase(self, r, s, d):
        if r == s: return d
        if isinstance(r, tuple) and r and r[0] in ('fld', 'vec', 'arr', 'vecsize'):
            x = self.rebase(r[1], s, d)
            if x is not None: return (r[0], x) + r[2:]
        return None
    def vecargs(self, e, st):
        if len(e) == 6 and re.search(r'C[12]E(RK|O)S\d*_$', e[3] or ''):
            x = e[5]
            if x[0] in ('ref', 'mem', 'idx'): return [('lv', self.lval(x, st))]
        return [self.ev_val(x, st) for x in e[5:]]
    def e_ctor(self, e, st, want_lv=False):
        t = e[2].replace('const ', '')
        if t.startswith(('std::vector',)):
            vals = self.vecargs(e, st)
            if len(e) == 6 and e[4] and isinstance(vals[0], tuple) and vals[0] and vals[0][0] == 'objv': return vals[0]
            lv = cell(('tmp', self.newseq())); st.news.add(lv[1])
            self.vec_hook(st, lv, 'std::vector', vals)
            return ('objv', lv)
        if 'basic_string' in t or t.startswith(('std::string', 'string')):
            if len(e) < 6: return ('str', '')
            v = self.ev_val(e[5], st)
            if isinstance(v, tuple) and v and v[0] in ('lv', 'objv'): v = self.load(st, v[1])
            return v
        if t.startswith('ColPack::') and ('Recovery' in t): return atom(('colpack', t))
        return super().e_ctor(e, st, want_lv)
    def construct(self, e, st, lv):
        t = e[2].replace('const ', '')
        if t.startswith('std::vector'):
            vals = self.vecargs(e, st)
            self.vec_hook(st, lv, 'std::vector', vals)
            return True
        if 'basic_string' in t or t.startswith(('std::string', 'string')): return False
        if t.startswith('ColPack::'):
            if 'Graph' in t:
                self.c_graph(self, st, e, [lv] + e[5:])
                return True
            return False
        return super().construct(e, st, lv)
    def mkspan(self, e, st):
        if len(e) == 6:
            v = self.ev_val(e[5], st)
            if isinstance(v, tuple) and v and v[0] == 'span': return v
            lv = v[1] if isinstance(v, tuple) and v and v[0] in ('lv', 'objv') else self.lval(e[5], st)
            w = st.mem.get((lv[1], lv[2]))
            if isinstance(w, tuple) and w and w[0] == 'span': return w
            return ('span', ('ptr', ('vec', lv[1], lv[2]), ZERO), self.vsize(st, lv))
        return super().mkspan(e, st)
    def bind_args(self, f, xs, st):
        out = super().bind_args(f, xs, st)
        for i, (k, v) in enumerate(out):
            # by value: the callee has its own copy
            if k == 'ref' and i < len(f['ps']):
                t = f['tu'].decls[f['ps'][i]]['t']
                if t.endswith(('&', '*')): continue
                if 'std::span' in t:
                    w = st.mem.get((v[1], v[2]))
                    if isinstance(w, tuple) and w and w[0] == 'span': out[i] = ('val', w)
                    else: out[i] = ('val', ('span', ('ptr', ('vec', v[1], v[2]), ZERO), self.vsize(st, v)))
                elif t.startswith(('std::vector', 'const std::vector')):
                    lv = cell(('tmp', self.newseq())); st.news.add(lv[1])
                    self.copy_vec(st, v, lv)
                    out[i] = ('ref', lv)
        return out
    def std_method(self, e, st, q, base, rt, lv, xs):
        if q.startswith('std::vector'):
            if base == 'data' and self.vsize(st, lv) == 0: return NULL
            if base == 'resize':
                n = self.cint(xs[0], st)
                if n < 0 or n > 1 << 20: raise Broken('resize to %d' % n)
                old = self.vsize(st, lv)
                v = ('vec', lv[1], lv[2])
                for k in [k for k in st.mem if self.inside(k[0], v)]:
                    b = self.base_index(k, v)
                    if b is None or b >= n or b >= old: del st.mem[k]
                self.setsize(st, lv, n)
                if len(xs) > 1:
                    w = self.ev_val(xs[1], st)
                    for i in range(old, n): st.mem[(v, num(i))] = w
                return ZERO
            if base == 'clear':
                self.setsize(st, lv, 0)
                return ZERO
            if base in ('reserve', 'shrink_to_fit'): return ZERO
            if base == 'push_back' or base == 'emplace_back':
                n = self.vsize(st, lv)
                v = self.ev_val(xs[0], st)
                self.setsize(st, lv, n + 1)
                d = cell(('vec', lv[1], lv[2]), num(n))
                if isinstance(v, tuple) and v and v[0] in ('lv', 'objv'): self.copy_obj(st, v[1], d)
                else: self.store(st, d, v)
                return ZERO
            if base == 'assign' and len(xs) == 2:
                n, w = self.cint(xs[0], st), self.ev_val(xs[1], st)
                self.setsize(st, lv, n)
                for i in range(n): st.mem[(('vec', lv[1], lv[2]), num(i))] = w
                return ZERO
            if base == 'operator=':
                v = self.ev_val(xs[0], st)
                src = v[1] if isinstance(v, tuple) and v and v[0] in ('lv', 'objv') else self.lval(xs[0], st)
                x = xs[0]
                mv = x[0] == 'call' and x[2].startswith('std::move') or isinstance(v, tuple) and v[0] == 'objv'
                self.copy_vec(st, src, lv, move=mv)
                return ('lv', lv)
        if q.startswith('std::unique_ptr') and base in ('operator->', 'operator*'):
            v = self.load(st, lv)
            if self.null(v): raise Broken('null pointer dereferenced')
        return super().std_method(e, st, q, base, rt, lv, xs)
    def base_index(self, k, v):
        r, o = k
        while r != v:
            if not (isinstance(r, tuple) and len(r) > 2): return None
            o = r[2]; r = r[1]
        c = const_of(toP(o))
        return None if c is None else int(c)
    def touch(self, lv, write):
        # elements of an object inside a vector or an array
        r, o = lv[1], lv[2]
        while isinstance(r, tuple) and r and r[0] == 'fld': r, o = r[1], r[2]
        if isinstance(r, tuple) and r and r[0] == 'vec' and r not in self.size:
            if r[1] in self.state and self.state[r[1]] == 'freed': raise Broken('use of a released block')
        return super().touch(lv, write)
    def close(self, v, e):
        """a unique_ptr lets go of its object"""
        a = v if not isP(v) else T.unP(v)
        if a[0] == 'ptr' and a[1] in self.graphs: return self.dropgraph(a[1])
        return super().close(v, e)
    def init_hook(self, st, lv):
        r = lv[1]
        if isinstance(r, tuple) and r and r[0] == 'vecsize': return ZERO
        root, vec = r, False
        while isinstance(root, tuple) and root and root[0] in ('fld', 'vec', 'arr') and len(root) > 1:
            vec |= root[0] == 'vec'
            root = root[1]
        if isinstance(root, tuple) and root[:2] == TAPEOBJ: return ZERO
        if vec and isinstance(root, tuple) and root and root[0] in ('var', 'tmp', 'obj'): return ZERO
        return super().init_hook(st, lv)
    # ------------------------------------------------------------ scopes
    def s_decl(self, s, st):
        f = super().s_decl(s, st)
        if self.scopes:
            for id, init, static in s[2:]:
                d = self.decl(id)
                t = d['t'].replace('const ', '')
                if static or t.endswith(('&', '*')): continue
                lv = st.env.get(self.dkey(id))
                if lv is not None and lv[0] == 'cell': self.scopes[-1].append((t, lv))
        return f
    def call_body(self, f, st, args, this=None):
        self.scopes.append([])
        try:
            v = super().call_body(f, st, args, this)
        finally:
            objs = self.scopes.pop()
        keep = v[1] if isinstance(v, tuple) and v and v[0] in ('objv',) else None
        for t, lv in reversed(objs):
            if lv == keep: continue
            self.destroy(t, lv, st)
        return v
    def dtor(self, t):
        d = self.prog.__dict__.get('_dtors')
        if d is None:
            d = self.prog.__dict__['_dtors'] = {}
            for f in self.prog.all_functions():
                if f.get('dtor') and f.get('body') and not f.get('defaulted'): d.setdefault(f['q'], f)
        return d.get(t + '::~' + t.split('<')[0].split('::')[-1])
    def destroy(self, t, lv, st):
        f = self.dtor(t)
        if f is not None: super().call_body(f, st, [], this=('ptr', lv[1], lv[2]))
    # ------------------------------------------------------------ ColPack
    def obj(self, st, e, x):
        """region of the object a method is called on"""
        v = self.ev_val(x, st) if e[5] else None
        if v is None:
            lv = self.lval(x, st)
            return lv[1]
        if isinstance(v, tuple) and v and v[0] == 'lv': v = self.load(st, v[1])
        if self.null(v): raise Broken('null pointer dereferenced at ' + self.where(e[1]))
        a = v if not isP(v) else T.unP(v)
        return a[1]
    def graph(self, st, e, x):
        r = self.obj(st, e, x)
        g = self.graphs.get(r)
        if g is None: raise Unsupported('call on an unknown ColPack object at ' + self.where(e[1]))
        if not g['live']: raise Broken('use of a destroyed ColPack graph at ' + self.where(e[1]))
        if g['rows'] is None: raise Broken('use of an empty ColPack graph at ' + self.where(e[1]))
        return g
    def c_make(self, I, st, e, xs):
        t = e[4]
        if 'Graph' in t:
            r = ('colgraph', len(self.graphs) + 1)
            self.mkgraph(st, e, r, xs, 'Bipartite' in t)
            return ('ptr', r, ZERO)
        raise Unsupported('std::make_unique at ' + self.where(e[1]))
    def c_graph(self, I, st, e, xs):
        lv = xs[0]
        self.mkgraph(st, e, lv[1], xs[1:], 'Bipartite' in e[2])
        return ZERO
    def mkgraph(self, st, e, r, xs, bip):
        vals = [self.ev_val(x, st) for x in xs]
        vals = [self.load(st, v[1]) if isinstance(v, tuple) and v and v[0] == 'lv' else v for v in vals]
        g = self.graphs[r] = dict(rows=None, live=True, own=[], bip=bip, left=None, right=None)
        if len(vals) == 1: return
        if len(vals) != (4 if bip else 3): raise Unsupported('ColPack graph at ' + self.where(e[1]))
        d = [int(const_of(toP(v))) for v in vals[2:]]
        m, n = d[0], d[-1]
        rows = []
        for i in range(m):
            try:
                k = self.word(self.get(st, vals[1], i, 0))
                rows.append([self.word(self.get(st, vals[1], i, 1 + j)) for j in range(k)])
            except Broken as ex:
                raise Broken('row %d of the pattern given to ColPack at %s: %s' % (i, self.where(e[1]), ex))
        for i, row in enumerate(rows):
            for j in row:
                if not 0 <= j < n: raise Broken('row %d of the pattern given to ColPack has the column %d of %d' % (i, j, n))
        g.update(rows=rows, m=m, n=n)
    def dropgraph(self, r):
        g = self.graphs[r]
        if not g['live']: raise Broken('ColPack graph destroyed twice')
        g['live'] = False
        for b in g['own']:
            while b is not None:
                self.state[b] = 'freed'
                b = self.rows.get(b)
    def colour(self, n, adj):
        """a colouring of 0..n-1; the numbers are not in the order of the vertices"""
        col = {}
        for v in reversed(range(n)):
            used = {col[w] for w in adj(v) if w in col}
            c = 0
            while c in used: c += 1
            col[v] = c
        return [col[v] for v in range(n)]
    def seedblock(self, st, rows, g, own):
        a, b = len(rows), len(rows[0]) if rows else 0
        d = self.alloc(st, max(a * b, 1), 'z')
        p = self.rowptrs(st, a, d[1], b)
        for i in range(a):
            for j in range(b): st.mem[(d[1], num(i * b + j))] = num(rows[i][j])
        self.state[d[1]] = 'part'
        if own:
            g['own'].append(p[1])
            self.kind[p[1]] = 'z'; self.state[p[1]] = 'own'
        else: self.state[p[1]] = 'given'
        return p
    def cell_of(self, st, x):
        v = self.ev_val(x, st)
        if isinstance(v, tuple) and v and v[0] == 'lv': v = self.load(st, v[1])
        return self.deref(v)
    def strval(self, st, x):
        v = self.ev_val(x, st)
        if isinstance(v, tuple) and v and v[0] in ('lv', 'objv'): v = self.load(st, v[1])
        if v[0] != 'str': raise Unsupported('a ColPack option that is not a literal')
        return v[1]
    def c_seedjac(self, st, e, xs, own):
        g = self.graph(st, e, xs[0])
        seed, rows, cols = (self.cell_of(st, x) for x in xs[1:4])
        variant = self.strval(st, xs[5])
        m, n, R = g['m'], g['n'], g['rows']
        for b in g['own']: self.state[b] = 'freed'
        g['own'] = []
        if variant == 'COLUMN_PARTIAL_DISTANCE_TWO':
            adj = {j: set() for j in range(n)}
            for r in R:
                for a in r: adj[a] |= set(r) - {a}
            c = g['right'] = self.colour(n, lambda v: adj[v])
            p = max(c, default=-1) + 1
            S = [[1 if c[j] == k else 0 for k in range(p)] for j in range(n)]
            dims = (n, p)
        elif variant == 'ROW_PARTIAL_DISTANCE_TWO':
            by = {}
            for i, r in enumerate(R):
                for j in r: by.setdefault(j, set()).add(i)
            adj = {i: set().union(*[by[j] for j in set(r)]) - {i} if r else set() for i, r in enumerate(R)}
            c = g['left'] = self.colour(m, lambda v: adj[v])
            p = max(c, default=-1) + 1
            S = [[1 if c[i] == k else 0 for i in range(m)] for k in range(p)]
            dims = (p, m)
        else: raise Broken('unknown colouring %s at %s' % (variant, self.where(e[1])))
        self.variant = variant
        self.store(st, seed, self.seedblock(st, S, g, own))
        self.store(st, rows, num(dims[0])); self.store(st, cols, num(dims[1]))
        return ONE
    def c_colors(self, st, e, xs, side):
        g = self.graph(st, e, xs[0])
        c = g['left' if side == 'Left' else 'right']
        lv = self.lval(xs[1], st)
        self.setsize(st, lv, len(c or []))
        for i, v in enumerate(c or []): st.mem[(('vec', lv[1], lv[2]), num(i))] = num(v)
        return ZERO
    def c_seedhess(self, st, e, xs, own):
        g = self.graph(st, e, xs[0])
        seed, rows, cols = (self.cell_of(st, x) for x in xs[1:4])
        variant = self.strval(st, xs[5])
        if variant not in ('STAR', 'ACYCLIC_FOR_INDIRECT_RECOVERY'): raise Broken('unknown colouring %s at %s' % (variant, self.where(e[1])))
        n, R = g['n'], g['rows']
        adj = {j: set() for j in range(n)}
        for i, r in enumerate(R):
            for a in r:
                adj[i].add(a); adj[a].add(i)
        two = {v: {w for u in adj[v] | {v} for w in adj[u]} - {v} for v in adj}
        c = g['right'] = self.colour(n, lambda v: two[v] | adj[v] - {v})
        p = max(c, default=-1) + 1
        for b in g['own']: self.state[b] = 'freed'
        g['own'] = []
        g['seed'] = S = [[1 if c[j] == k else 0 for k in range(p)] for j in range(n)]
        g['kind'] = 'Direct' if variant == 'STAR' else 'Indirect'
        self.variant = variant
        self.store(st, seed, self.seedblock(st, S, g, own))
        self.store(st, rows, num(n)); self.store(st, cols, num(p))
        return ONE
    def c_hess(self, st, e, xs, kind, user):
        vals = [self.ev_val(x, st) for x in xs[1:]]
        gp = vals[0]
        gp = gp if not isP(gp) else T.unP(gp)
        if self.null(gp) or gp[1] not in self.graphs: raise Broken('Hessian recovery without a graph at ' + self.where(e[1]))
        g = self.graphs[gp[1]]
        if not g['live']: raise Broken('use of a destroyed ColPack graph at ' + self.where(e[1]))
        if g.get('seed') is None: raise Broken('Hessian recovery without a colouring at ' + self.where(e[1]))
        if g['kind'] != kind: raise Broken('%s recovery from a colouring for %s recovery at %s' % (kind, g['kind'], self.where(e[1])))
        n, S = g['n'], g['seed']
        p = len(S[0]) if S else 0
        for i in range(n):
            k = self.word(self.get(st, vals[2], i, 0))
            row = [self.word(self.get(st, vals[2], i, 1 + j)) for j in range(k)]
            if row != g['rows'][i]: raise Broken('Hessian recovery with another pattern than that of the graph')
        failed = any(rc < 0 for _, rc in self.used[-2:])
        for i in range(n if not failed else 0):
            for l in range(p):
                want = self.sum(mul(F.D(self.tag, 0, (i, j), self.x0), num(S[j][l])) for j in range(n))
                if toP(self.get(st, vals[1], i, l)) != want:
                    raise Broken('the compressed Hessian given to ColPack is not Hessian times seed at [%d][%d]: %s' % (i, l, T.show(toP(self.get(st, vals[1], i, l)))))
        ent = [(i, j) for i in range(n) for j in g['rows'][i] if j >= i]
        if user: outs = [self.load(st, self.deref(v)) for v in vals[3:6]]
        else:
            outs = [self.alloc(st, max(len(ent), 1), 'm') for _ in range(3)]
            for v, o in zip(vals[3:6], outs):
                self.store(st, self.deref(v), o)
                self.state[o[1]] = 'given'
        for k, (i, j) in enumerate(ent):
            self.put(st, outs[0], (k,), num(i)); self.put(st, outs[1], (k,), num(j))
            self.put(st, outs[2], (k,), F.D(self.tag, 0, tuple(sorted((i, j))), self.x0))
        return num(len(ent))
    # ------------------------------------------------------------ pattern sweeps
    def pat(self, name, tag, m, n):
        p = self.pats.get(name)
        self.called.append(name)
        if p is None: raise Broken('unexpected sweep %s' % name)
        if (m, n) != (p.m, p.n): raise Broken('dimensions %d x %d of a function of %d x %d' % (m, n, p.m, p.n))
        if tag != self.tag: raise Broken('another tape')
        return p
    def at_point(self, st, x, n):
        if [toP(self.get(st, x, i)) for i in range(n)] != list(self.x0): raise Broken('at another point')
    def words(self, st, p, a, b): return [[self.word(self.get(st, p, i, j)) for j in range(b)] for i in range(a)]
    def int_forward(self, st, rc, name, tag, m, n, p, X, Y):
        P = self.pat(name, tag, m, n)
        S = self.words(st, X, n, p)
        for i in range(m):
            for w in range(p):
                v = 0
                for j in P.rows[i]: v |= S[j][w]
                self.put(st, Y, (i, w), num(v) if rc >= 0 else atom(('undef', 'bits', num(i))))
    def w_int_forward_tight(self, st, rc, tag, m, n, p, x, X, y, Y):
        self.at_point(st, x, n)
        if not self.null(y if not isinstance(y, int) else num(y)):
            for i in range(m): self.put(st, y, (i,), F.D(tag, i, (), self.x0))
        self.tapes.pop(tag, None)
        self.int_forward(st, rc, 'int_forward_tight', tag, m, n, p, X, Y)
    def w_int_forward_safe(self, st, rc, tag, m, n, p, X, Y): self.int_forward(st, rc, 'int_forward_safe', tag, m, n, p, X, Y)
    def int_reverse(self, st, rc, name, tag, m, n, q, U, Z):
        P = self.pat(name, tag, m, n)
        S = self.words(st, U, q, m)
        for w in range(q):
            for j in range(n):
                v = 0
                for i in range(m):
                    if j in P.rows[i]: v |= S[w][i]
                self.put(st, Z, (w, j), num(v) if rc >= 0 else atom(('undef', 'bits', num(j))))
    def w_int_reverse_tight(self, st, rc, tag, m, n, q, U, Z):
        k = self.need(tag, 0, m, n)
        if list(k['x0']) != list(self.x0): raise Broken('at another point')
        self.int_reverse(st, rc, 'int_reverse_tight', tag, m, n, q, U, Z)
    def w_int_reverse_safe(self, st, rc, tag, m, n, q, U, Z): self.int_reverse(st, rc, 'int_reverse_safe', tag, m, n, q, U, Z)
    def w_zos_forward(self, st, rc, tag, m, n, keep, x, y):
        if not isinstance(y, int) and not self.null(y): return super().w_zos_forward(st, rc, tag, m, n, keep, x, y)
        x0 = self.vec(st, x, n)
        if keep and rc >= 0: self.keep(tag, deg=0, q=1, x0=x0, X=[[] for _ in x0], m=m)
        else: self.tapes.pop(tag, None)
    def domains(self, st, rc, name, tag, m, n, x, crs, tight, rows=None):
        P = self.pat(name, tag, m, n)
        if tight: self.at_point(st, x, n)
        if rc < 0: return
        for i, r in enumerate(P.rows):
            b = self.alloc(st, len(r) + 1, 'm')
            self.store(st, self.deref(self.ptr_add(b, ZERO)), num(len(r)))
            for k, j in enumerate(r): self.to_(st, b, 1 + k, num(j))
            self.put(st, crs, (i,), b)
    def w_indopro_forward_tight(self, st, rc, tag, m, n, x, crs): self.domains(st, rc, 'indopro_forward_tight', tag, m, n, x, crs, True)
    def w_indopro_forward_safe(self, st, rc, tag, m, n, x, crs): self.domains(st, rc, 'indopro_forward_safe', tag, m, n, x, crs, False)
    def w_indopro_forward_absnormal(self, st, rc, tag, m, n, s, x, crs):
        if s != self.nsw: raise Broken('%d switches, the tape has %d' % (s, self.nsw))
        self.domains(st, rc, 'indopro_forward_absnormal', tag, m + s, n + s, x, crs, False)
    def hess_domains(self, st, rc, name, tag, m, n, x, crs, tight):
        if m != 1: raise Broken('%d dependents' % m)
        self.domains(st, rc, name, tag, n, n, x, crs, tight)
    def w_nonl_ind_forward_tight(self, st, rc, tag, m, n, x, crs): self.hess_domains(st, rc, 'nonl_ind_forward_tight', tag, m, n, x, crs, True)
    def w_nonl_ind_forward_safe(self, st, rc, tag, m, n, x, crs): self.hess_domains(st, rc, 'nonl_ind_forward_safe', tag, m, n, x, crs, False)
    def w_nonl_ind_old_forward_tight(self, st, rc, tag, m, n, x, crs): self.hess_domains(st, rc, 'nonl_ind_old_forward_tight', tag, m, n, x, crs, True)
    def w_nonl_ind_old_forward_safe(self, st, rc, tag, m, n, x, crs): self.hess_domains(st, rc, 'nonl_ind_old_forward_safe', tag, m, n, x, crs, False)
    def w_fov_pl_reverse(self, st, rc, tag, m, n, s, q, u, us, Z, Zs):
        """adjoints of the abs-normal form: entries of its pattern only"""
        k = self.kept(tag, 0)
        if not k.get('pl'): raise Broken('no piecewise linear forward sweep before it')
        if s != self.nsw: raise Broken('%d switches, the tape has %d' % (s, self.nsw))
        if list(k['x0']) != list(self.x0): raise Broken('at another point')
        U = [a + b for a, b in zip(self.mat(st, u, q, m), self.mat(st, us, q, s))]
        if rc < 0: return
        P = self.pats['indopro_forward_absnormal']
        for r in range(q):
            for out, o, w in ((Z, 0, n), (Zs, n, s)):
                for j in range(w):
                    self.put(st, out, (r, j), self.sum(mul(U[r][i], atom(('pl', i, o + j))) for i in range(m + s) if o + j in P.rows[i]))
