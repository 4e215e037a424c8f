"""C21: external functions.

The recorders of external function calls and the sweeps that replay them are
interpreted completely over short tapes with several calls -- of the same and of
different functions, with other variables and other shapes.  The user's
callbacks are formal: a callback reports what it was given and yields values of
its own.  The variables, the adjoints and the Taylor stack are followed by a
model of what a call means.
"""
import itertools
from concurrent.futures import ProcessPoolExecutor
import ctx as CX
import terms as T
from terms import num, const_of, toP, ZERO, ONE, atom, isP, add
from load import AnalysisBroken
from report import Report
from absint import State, Unsupported, Dead, cell, NULL
from drive import Broken, Drive
from checks.nonlin import Ind

OUTER, INNER = 1, 2
SWEEPS = ('zos_forward', 'fos_forward', 'fov_forward', 'fos_reverse', 'fov_reverse')
FILES = ('externfcts.cpp', 'externfcts2.cpp')
OP = {'v1': 'ext_diff', 'iarr': 'ext_diff_iArr', 'v2': 'ext_diff_v2'}

# parameters of the callbacks, as documented with their types
V1 = {'function': 'tape m n x y', 'zos_forward': 'tape m n keep x y', 'fos_forward': 'tape m n keep x X y Y', 'fov_forward': 'tape m n p x X y Y',
      'fos_reverse': 'tape m n u z x y', 'fov_reverse': 'tape m n q u z x y'}
V2 = {'function': 'tape len iarr nin nout insz x outsz y ctx', 'zos_forward': 'tape len iarr nin nout insz x outsz y ctx',
      'fos_forward': 'tape len iarr nin nout insz x X outsz y Y ctx', 'fov_forward': 'tape len iarr nin nout insz x p X outsz y Y ctx',
      'fos_reverse': 'tape len iarr nout nin outsz u insz z x y ctx', 'fov_reverse': 'tape len iarr nout nin outsz q u insz z x y ctx'}

class Call:
    """one call on the tape: kind, number of its function object, groups of variables (first location, length), integers"""
    def __init__(self, kind, obj, xs, ys, iarr=(), rc=3):
        self.kind, self.obj, self.xs, self.ys, self.iarr, self.rc = kind, obj, xs, ys, iarr, rc
    def xlocs(self): return [b + i for b, n in self.xs for i in range(n)]
    def ylocs(self): return [b + i for b, n in self.ys for i in range(n)]

def unset(c):
    """the local variable without a value a condition depends on, if there is one"""
    if isinstance(c, tuple):
        if len(c) == 3 and c[0] == 'var' and isinstance(c[1], str): return c[1]
        for x in c:
            n = unset(x)
            if n: return n
    return None

class World(Ind):
    """the recorder or a sweep with formal callbacks"""
    def stray(self, c, s):
        n = unset(c)
        if n: raise Broken('the branch at %s depends on %s, which has no value' % (self.where(s[1]), n))
    def __init__(self, ctx, tu, calls, nloc, xchg, yprior, rows, own=False):
        super().__init__(ctx, tu)
        self.ctx_, self.calls, self.nloc, self.xchg, self.yprior, self.nr = ctx, calls, nloc, xchg, yprior, rows
        self.V = [atom(('in', 'v', l)) for l in range(nloc)]
        self.X = [[atom(('in', 'dv', l, r)) for r in range(rows)] for l in range(nloc)]
        self.A, self.own = None, own
        self.tays, self.ntays, self.keep, self.keepval = [], 0, 0, ZERO
        self.cur, self.cidx = 0, ZERO
        self.order = list(range(len(calls)))
        self.rec, self.base = [], {}
        self.backward = False
        self.params = NULL
        P, V = self.prims, 'ValueTape::'
        for nm, h in (('get_op_r', self.r_op), ('get_locint_r', self.r_loc), ('get_val_r', self.r_val), ('get_taylor', self.r_tay), ('write_scaylor', self.t_push),
                      ('put_op', self.m_op), ('put_loc', self.m_loc), ('add_numTays_Tape', self.m_ntays), ('ext_diff_fct_index', self.m_index),
                      ('init_for_taping', self.nothing), ('taylor_begin', self.t_begin), ('taylor_close', self.nothing), ('taylor_back', self.nothing), ('discard_params_r', self.nothing)):
            P[V + nm] = h
        for nm, v in (('deg_save', lambda: ZERO), ('tay_numDeps', lambda: num(self.nloc)), ('tay_numInds', lambda: num(self.nloc)), ('nestedReverseEval', lambda: ZERO),
                      ('tapeId', lambda: num(OUTER)), ('keepTaylors', lambda: self.keepval), ('storeSize', lambda: num(self.nloc))):
            P[V + nm] = (lambda v: lambda I, st, e, xs: self.on_outer(st, e, xs) or v())(v)
        P['memset'] = P['std::memset'] = self.a_memset
        P['memcpy'] = P['std::memcpy'] = self.a_memcpy
        P[V + 'store'] = lambda I, st, e, xs: ('ptr', ('store',), ZERO)
        P['get_ext_diff_fct'] = P['get_ext_diff_fct_v2'] = self.m_get
        P['adouble::loc'] = self.a_loc
        P['adouble::value'] = self.a_value
        P['std::operator=='] = P['std::operator!='] = self.isnull
    # ---------------------------------------------------------------- the tape
    def nothing(self, I, st, e, xs): return ZERO
    def on_outer(self, st, e, xs):
        """the object is the tape the call is recorded on"""
        lv = self.deref(self.ev_val(xs[0], st)) if e[5] else self.lval(xs[0], st)
        r = lv[1]
        if isinstance(r, tuple) and r[:2] == ('obj', 'tape'):
            t = r[2]
            c = const_of(toP(t)) if t != 0 else None
            if c is not None and c != OUTER: raise Broken('uses tape %d at %s: the call belongs to tape %d' % (c, self.where(e[1]), OUTER))
        return None
    def t_begin(self, I, st, e, xs):
        self.keep = 1
        return ZERO
    def t_push(self, I, st, e, xs):
        self.on_outer(st, e, xs)
        self.tays.append(toP(self.ev_val(xs[1], st)))
        return ZERO
    def r_tay(self, I, st, e, xs):
        if not self.tays: raise Broken('takes more Taylor coefficients than the forward sweep stored')
        return self.tays.pop()
    def r_op(self, I, st, e, xs):
        k = self.pos['op']
        if not k: k = len(self.tape)
        else: self.done(k)
        k -= 1
        if k < 0: raise Broken('reads operations before the start of the tape')
        self.pos = {'op': k, 'L': 0, 'V': 0}
        return num(self.tape[k][0])
    def back(self, s, xs):
        i = len(xs) - 1 - self.pos[s]
        self.pos[s] += 1
        if i < 0: raise Broken('reads past the record of an operation')
        return num(xs[i])
    def r_loc(self, I, st, e, xs): return self.back('L', self.tape[self.pos['op']][1])
    def r_val(self, I, st, e, xs): return self.back('V', self.tape[self.pos['op']][2])
    def m_op(self, I, st, e, xs):
        self.on_outer(st, e, xs)
        vs = [const_of(toP(self.ev_val(x, st))) for x in xs[1:]]
        if vs[0] is None: raise Unsupported('operation code')
        self.rec.append([int(vs[0]), [], int(vs[1]) if len(vs) > 1 and vs[1] is not None else 0])
        return ZERO
    def m_loc(self, I, st, e, xs):
        self.on_outer(st, e, xs)
        c = const_of(toP(self.ev_val(xs[1], st)))
        if c is None: raise Unsupported('location %s' % (xs[1],))
        if not self.rec: raise Broken('a location before any operation')
        self.rec[-1][1].append(int(c))
        return ZERO
    def m_ntays(self, I, st, e, xs):
        self.ntays += int(const_of(toP(self.ev_val(xs[1], st))))
        return ZERO
    def m_index(self, I, st, e, xs):
        self.on_outer(st, e, xs)
        if len(xs) > 1:
            self.cidx = self.ev_val(xs[1], st)
            return ZERO
        return self.cidx
    def m_get(self, I, st, e, xs):
        t, i = (const_of(toP(self.ev_val(x, st))) for x in xs)
        if t != OUTER: raise Broken('looks for the function object on tape %s' % t)
        v2 = e[2].endswith('v2')
        for c in self.calls:
            if c.obj == i and (c.kind == 'v2') == v2: return self.edf(c)
        raise Broken('function object %s is not the one of the call' % i)
    def edf(self, c): return ('ptr', ('edf2' if c.kind == 'v2' else 'edf', c.obj), ZERO)
    # ---------------------------------------------------------------- variables of the caller
    def adouble(self, xs, e, st):
        lv = self.deref(self.ev_val(xs[0], st)) if e[5] else self.lval(xs[0], st)
        r, i = lv[1], const_of(lv[2])
        if r not in self.base or i is None: raise Unsupported('adouble at ' + self.where(e[1]))
        self.touch(lv, False)
        return self.base[r] + int(i)
    def a_loc(self, I, st, e, xs): return num(self.adouble(xs, e, st))
    def a_value(self, I, st, e, xs):
        l = self.adouble(xs, e, st)
        if len(xs) > 1:
            self.store(st, cell(('store',), num(l)), self.ev_val(xs[1], st))
            return ZERO
        return self.load(st, cell(('store',), num(l)))
    # ---------------------------------------------------------------- function objects
    def setup(self, st):
        """the registered function objects, all callbacks set"""
        objs = {(c.kind == 'v2', c.obj) for c in self.calls}
        for v2, k in objs:
            b = cell(('edf2' if v2 else 'edf', k))
            put = lambda f, v: st.mem.__setitem__(self.field(st, b, f)[1:3], v)
            for f, v in (('tapeId', OUTER), ('extTapeId', INNER), ('index', k), ('nestedAdolc', 1), ('dp_x_changes', self.xchg), ('dp_y_priorRequired', self.yprior), ('user_allocated_mem', 0 if self.own else 1), ('max_nin', 0), ('max_nout', 0), ('max_insz', 0), ('max_outsz', 0)):
                put(f, num(v))
            for f in ('firstIndLocation', 'firstDepLocation', 'p', 'q'): put(f, num(971))
            for f in V1:
                put(f, ('ptr', ('cb', v2, k, f), ZERO))
                if not v2: put(f + '_iArr', ('ptr', ('cb', v2, k, f + '_iArr'), ZERO))
            if v2:
                put('context', ('ptr', ('context', k), ZERO))
                if self.own:
                    for f in ('x', 'xp', 'Xp', 'zp', 'Zp', 'y', 'yp', 'Yp', 'up', 'Up', 'allmem'): put(f, NULL)
                    continue
                cs = [c for c in self.calls if c.kind == 'v2' and c.obj == k]
                n, m = max(len(c.xs) for c in cs), max(len(c.ys) for c in cs)
                ni, mi = max(s for c in cs for _, s in c.xs), max(s for c in cs for _, s in c.ys)
                for f, a, w in (('x', n, ni), ('xp', n, ni), ('Xp', n, ni), ('zp', n, ni), ('Zp', n, ni), ('y', m, mi), ('yp', m, mi), ('Yp', m, mi), ('up', m, mi), ('Up', m, mi)):
                    put(f, self.arr(st, 'edf%d.%s' % (k, f), (a, w), val=lambda *ix, f=f: atom(('undef', f) + ix)))
        for l in range(self.nloc): st.mem[(('store',), num(l))] = self.V[l]
        self.kind[('store',)] = 'p'; self.size[('store',)] = self.nloc
    def e_mcall(self, e, st, want_lv=False):
        if e[2].startswith('std::function<') and e[2].endswith('operator()'):
            fv = self.ev_val(e[7], st)
            return self.invoke(fv, [self.ev_val(x, st) for x in e[8:]], st, e)
        if e[2].startswith('std::function<') and e[2].endswith('operator bool'):
            return ONE if self.cbname(self.ev_val(e[7], st)) else ZERO
        return super().e_mcall(e, st, want_lv)
    def cbname(self, v):
        if isP(v): v = T.unP(v) if v != ZERO else v
        return v[1] if isinstance(v, tuple) and v and v[0] == 'ptr' and v[1][0] == 'cb' else None
    def isnull(self, I, st, e, xs):
        v = None
        for x in xs:
            if x[0] == 'null': continue
            v = self.ev_val(x, st)
        full = self.cbname(v) is not None
        return ONE if full == e[2].endswith('!=') else ZERO
    def e_pcall(self, e, st, want_lv=False):
        fv = self.ev_val(e[3], st)
        if self.cbname(fv): return self.invoke(fv, [self.ev_val(x, st) for x in e[4:]], st, e)
        return super().e_pcall(e, st, want_lv)
    def vec_hook(self, st, lv, t, vals):
        if 'std::vector' in t and len(vals) >= 2 and not isP(vals[0]) and vals[0][0] == 'ptr' and not isP(vals[1]) and vals[1][0] == 'ptr':
            n = self.span(vals[0], vals[1])
            v = ('vec', lv[1], lv[2])
            self.size[v], self.kind[v] = n, 'z'
            st.mem[(('vecsize', lv[1], lv[2]), ZERO)] = num(n)
            for i in range(n): st.mem[(v, num(i))] = self.at_(st, vals[0], i)
            return
        super().vec_hook(st, lv, t, vals)
    def opaque_call(self, e, st, q, rt, vals):
        if q == 'std::vector<double>::resize':
            lv = self.deref(vals[0])
            v = ('vec', lv[1], lv[2])
            self.size[v], self.kind[v] = int(const_of(toP(vals[1]))), 'z'
            st.mem[(('vecsize', lv[1], lv[2]), ZERO)] = toP(vals[1])
            return ZERO
        return super().opaque_call(e, st, q, rt, vals)
    # blocks of cells of eight bytes, whatever the pointers to them are called
    def e_bin(self, e, st):
        if e[2] in '+-' and len(e) > 5 and e[5] == 'char *':
            a, b = self.ev_val(e[3], st), self.ev_val(e[4], st)
            if isP(a) and not isP(b): a, b = b, a
            n = const_of(toP(b))
            if n is None or n % 8: raise Unsupported('arithmetic on bytes at ' + self.where(e[1]))
            return self.ptr_add(a, num(n / 8 if e[2] == '+' else -n / 8))
        return super().e_bin(e, st)
    def a_memset(self, I, st, e, xs):
        p = self.ev_val(xs[0], st)
        v, n = (const_of(toP(self.ev_val(x, st))) for x in xs[1:3])
        if v != 0 or n is None or n % 8: raise Unsupported('memset at ' + self.where(e[1]))
        if p[1] in self.bytes: self.size[p[1]] = self.bytes[p[1]] // 8
        for i in range(int(n) // 8): self.to_(st, p, i, ZERO)
        return p
    def a_memcpy(self, I, st, e, xs):
        d, s = self.ev_val(xs[0], st), self.ev_val(xs[1], st)
        n = const_of(toP(self.ev_val(xs[2], st)))
        if n is None or n % 8: raise Unsupported('memcpy of an unknown size at ' + self.where(e[1]))
        vs = [self.at_(st, s, i) for i in range(int(n) // 8)]
        for i, v in enumerate(vs): self.to_(st, d, i, v)
        return d
    # ---------------------------------------------------------------- a callback runs
    def invoke(self, fv, vals, st, e):
        nm = self.cbname(fv)
        if nm is None: raise Broken('calls a callback that is not set at ' + self.where(e[1]))
        if self.cur >= len(self.order): raise Broken('calls external functions more often than the tape does')
        no = self.order[self.cur]
        self.cur += 1
        c = self.calls[no]
        _, v2, k, f = nm
        at = self.where(e[1])
        def bad(what): raise Broken('%s: the callback %s of call %d (%s) gets %s' % (at, f, no, OP[c.kind], what))
        if (v2, k) != (c.kind == 'v2', c.obj): bad('called though it belongs to another function object')
        if f != self.mode + ('_iArr' if c.kind == 'iarr' else ''): bad('called where %s is due' % (self.mode + ('_iArr' if c.kind == 'iarr' else '')))
        sig = (V2 if v2 else V1)[self.mode].split()
        if c.kind == 'iarr': sig = sig[:1] + ['len', 'iarr'] + sig[1:]
        if len(sig) != len(vals): raise Unsupported('callback with %d arguments' % len(vals))
        a = dict(zip(sig, vals))
        n = len(c.xlocs()); m = len(c.ylocs())
        want = {'tape': INNER if self.mode == 'function' else OUTER, 'n': n, 'm': m, 'len': len(c.iarr), 'nin': len(c.xs), 'nout': len(c.ys), 'p': self.nr, 'q': self.nr, 'keep': self.keep}
        for w, x in want.items():
            if w in a and const_of(toP(a[w])) != x: bad('%s = %s instead of %s' % (w, T.show(a[w]), x))
        for w, xs in (('iarr', c.iarr), ('insz', [s for _, s in c.xs]), ('outsz', [s for _, s in c.ys])):
            if w in a:
                g = [const_of(toP(self.get(st, a[w], i))) for i in range(len(xs))]
                if g != list(xs): bad('%s = %s instead of %s' % (w, g, list(xs)))
        if 'ctx' in a and a['ctx'] != ('ptr', ('context', k), ZERO): bad('another context')
        grp = lambda g: [(j, i) for j, (_, s) in enumerate(g) for i in range(s)]
        if v2: xi, yi = grp(c.xs), grp(c.ys)
        else: xi, yi = [(i,) for i in range(n)], [(i,) for i in range(m)]
        rd = lambda w, ix: toP(self.get(st, a[w], *ix))
        def cmp(w, ix, locs, exp):
            for j, (i, l) in enumerate(zip(ix, locs)):
                v = rd(w, i)
                if v != toP(exp(j, l)): bad('%s[%s] = %s instead of %s' % (w, ']['.join(map(str, i)), T.show(v)[:60], T.show(exp(j, l))[:60]))
        xl, yl = c.xlocs(), c.ylocs()
        res = lambda *w: atom(('r', no) + w)
        R = range(self.nr)
        cmp('x', xi, xl, lambda j, l: self.V[l])
        if self.mode.endswith('reverse'):
            cmp('y', yi, yl, lambda j, l: self.V[l])
            if self.mode == 'fos_reverse': U, Z = (lambda i, r: i), (lambda i, r: i)
            else: U = Z = (lambda i, r: i + (r,)) if v2 else (lambda i, r: (r,) + i)
            u = {l: list(self.A[l]) for l in yl}
            for r in R: cmp('u', [U(i, r) for i in yi], yl, lambda j, l: u[l][r])
            for l in yl: self.A[l] = [ZERO] * self.nr
            for r in R: cmp('z', [Z(i, r) for i in xi], xl, lambda j, l: self.A[l][r])
            for j, l in enumerate(xl): self.A[l] = [res('z', j, r) for r in R]
            for r in R:
                for j, i in enumerate(xi): self.put(st, a['z'], Z(i, r), self.A[xl[j]][r])
            for g, ls in (('y', yl), ('x', xl)):
                if (self.yprior if g == 'y' else self.xchg):
                    for l in ls: self.V[l] = self.pre[no][l]
        else:
            if self.yprior: cmp('y', yi, yl, lambda j, l: self.V[l])
            tan = {'fos_forward': lambda i, r: i, 'fov_forward': lambda i, r: i + (r,)}.get(self.mode)
            if tan:
                for r in R: cmp('X', [tan(i, r) for i in xi], xl, lambda j, l: self.X[l][r])
                if self.yprior:
                    for r in R: cmp('Y', [tan(i, r) for i in yi], yl, lambda j, l: self.X[l][r])
            for g, G, ix, ls in ((('x', 'X', xi, xl),) if self.xchg else ()) + (('y', 'Y', yi, yl),):
                for j, (i, l) in enumerate(zip(ix, ls)):
                    self.V[l] = res(g, j)
                    self.put(st, a[g], i, self.V[l])
                    if tan:
                        self.X[l] = [res(G, j, r) for r in R]
                        for r in R: self.put(st, a[G], tan(i, r), self.X[l][r])
        self.nested(st)
        return num(c.rc)
    def nested(self, st):
        """a callback that uses ADOL-C itself: what it registers or calls is no business of the caller"""
        self.cidx = num(555)
        if self.mode == 'function':
            for l in range(self.nloc): st.mem[(('store',), num(l))] = atom(('nested', l))

# ------------------------------------------------------------------ scripts
def pushed(calls, V, xchg, yprior):
    """Taylor stack entries of the calls and the values around them"""
    V, out, pre = list(V), [], []
    for no, c in enumerate(calls):
        pre.append(list(V))
        if xchg: out += [V[l] for l in c.xlocs()]
        if yprior: out += [V[l] for l in c.ylocs()]
        if xchg:
            for j, l in enumerate(c.xlocs()): V[l] = atom(('r', no, 'x', j))
        for j, l in enumerate(c.ylocs()): V[l] = atom(('r', no, 'y', j))
    return out, pre, V

def scripts():
    """(name, calls, flags): several calls, other variables, other shapes, results used again"""
    C = Call
    out = []
    def sc(name, *calls, flags=((1, 1), (1, 0), (0, 1), (0, 0)), nloc=16): out.append((name, list(calls), flags, nloc))
    for kind, w in (('v1', ()), ('iarr', (7, 0, 9)), ('v2', (4, 8))):
        arr = w
        sc(kind + ' once', C(kind, 3, [(2, 3)], [(7, 2)], arr))
        sc(kind + ' no integers', C(kind, 3, [(2, 3)], [(7, 2)], ()))
        sc(kind + ' twice, other variables', C(kind, 3, [(2, 3)], [(7, 2)], arr), C(kind, 3, [(9, 3)], [(0, 2)], arr[::-1]))
        sc(kind + ' twice, other shape', C(kind, 3, [(2, 3)], [(7, 1)], arr), C(kind, 3, [(8, 1)], [(10, 4)], arr[:1]))
        sc(kind + ' twice, smaller last', C(kind, 3, [(2, 4)], [(7, 3)], arr), C(kind, 3, [(8, 1)], [(11, 1)], arr[1:]))
        sc(kind + ' result into argument', C(kind, 3, [(2, 2)], [(7, 2)], arr), C(kind, 3, [(7, 2)], [(10, 2)], arr), C(kind, 3, [(10, 2)], [(2, 2)], arr), flags=((1, 1), (0, 1)))
        sc(kind + ' same result twice', C(kind, 3, [(2, 2)], [(7, 2)], arr), C(kind, 3, [(4, 2)], [(7, 2)], arr), flags=((1, 1), (0, 1)))
        sc(kind + ' two functions', C(kind, 3, [(2, 2)], [(7, 2)], arr), C(kind, 5, [(4, 3)], [(9, 2)], arr[:1]), C(kind, 3, [(0, 1)], [(12, 3)], arr))
        for rcs in ((2, 1), (0, 3), (1, 2), (-1, 2), (3, -2), (3, 3)):
            sc(kind + ' codes %d, %d' % rcs, C(kind, 3, [(2, 2)], [(7, 2)], arr, rcs[0]), C(kind, 3, [(9, 3)], [(0, 2)], arr, rcs[1]), flags=((1, 1),))
    sc('v1 in place', C('v1', 3, [(4, 3)], [(4, 3)]), C('v1', 3, [(4, 3)], [(4, 3)]), flags=((0, 1),))
    sc('v2 groups', C('v2', 3, [(2, 3), (9, 1)], [(5, 2), (0, 1), (12, 3)], (4, 8)))
    sc('v2 groups, other shape', C('v2', 3, [(2, 3), (9, 1)], [(5, 2), (0, 1)], (4, 8)), C('v2', 3, [(11, 1)], [(12, 3)], ()), C('v2', 3, [(1, 1), (6, 1), (8, 2)], [(14, 1), (10, 1), (3, 1)], (9,)))
    G = {'small': ([(2, 1)], [(5, 1)]), 'wide': ([(2, 1), (9, 1), (12, 1)], [(4, 1), (5, 1)]), 'long': ([(0, 4)], [(5, 3)]), 'large': ([(0, 3), (8, 2)], [(4, 2), (11, 4), (15, 1)]), 'results': ([(1, 1)], [(3, 2), (9, 1), (12, 3)])}
    for a, b in itertools.permutations(G, 2):
        sc('v2 %s, %s, own memory' % (a, b), C('v2', 3, G[a][0], G[a][1], (4,)), C('v2', 3, G[b][0], G[b][1], ()), flags=((1, 1),))
    sc('v2 two functions, own memory', C('v2', 3, *G['small']), C('v2', 4, *G['large']), C('v2', 3, *G['long']), C('v2', 4, *G['wide']))
    for kind in ('iarr', 'v2'):
        sc(kind + ' many integers', C(kind, 3, [(2, 3)], [(7, 2)], tuple((5 * i) % 17 for i in range(24))), C(kind, 3, [(9, 1)], [(0, 1)], tuple(range(12))), flags=((1, 1), (0, 1)))
    sc('v2 many groups', C('v2', 3, [(i, 1) for i in range(8)], [(15 - i, 1) for i in range(8)], (6,)), C('v2', 4, [(0, 1)], [(3, 2)], ()), flags=((1, 1), (0, 1)))
    sc('mixed', C('v1', 3, [(2, 2)], [(7, 2)]), C('iarr', 4, [(7, 2)], [(10, 2)], (5, 6)), C('v2', 3, [(10, 1), (0, 2)], [(12, 2)], (1,)), flags=((1, 1), (0, 1)))
    return out

def find(cx, q, n, file=None):
    for path, tu in sorted(cx.prog.tus.items()):
        if file and not path.endswith(file): continue
        for f in tu.funcs:
            if f['q'] == q and f['body'] is not None and len(f['ps']) == n: return dict(f, tu=tu) if 'tu' not in f else f
    raise AnalysisBroken('%s with %d parameters not found' % (q, n))

NARGS = {'v1': 5, 'iarr': 7, 'v2': 9}
def record(cx, calls, nloc, xchg, yprior, keep, own=False):
    """tape records, Taylor entries and counts left by the recorders"""
    f0 = find(cx, 'call_ext_fct', NARGS[calls[0].kind])
    W = World(cx, f0['tu'], calls, nloc, xchg, yprior, 1, own)
    W.mode, W.keepval = 'function', num(keep)
    st = State()
    W.setup(st)
    for no, c in enumerate(calls):
        f = find(cx, 'call_ext_fct', NARGS[c.kind])
        n0, t0 = len(W.rec), len(W.tays)
        def ad(name, b, n):
            r = ('par', '%s%d' % (name, no))
            W.kind[r], W.state[r], W.size[r] = 'p', 'live', n
            W.base[r] = b
            return ('ptr', r, ZERO)
        ints = lambda name, xs: W.arr(st, '%s%d' % (name, no), (len(xs),), val=lambda i: num(xs[i]))
        if c.kind == 'v2':
            grp = lambda name, g: W.arr(st, '%ss%d' % (name, no), (len(g),), val=lambda i: ad('%s%d.' % (name, i), *g[i]))
            args = [W.edf(c), num(len(c.iarr)), ints('iArr', c.iarr), num(len(c.xs)), num(len(c.ys)), ints('insz', [s for _, s in c.xs]), grp('x', c.xs), ints('outsz', [s for _, s in c.ys]), grp('y', c.ys)]
        else:
            (bx, n), (by, m) = c.xs[0], c.ys[0]
            args = [W.edf(c)] + ([num(len(c.iarr)), ints('iArr', c.iarr)] if c.kind == 'iarr' else []) + [num(n), ad('xa', bx, n), num(m), ad('ya', by, m)]
        s, v = W.run(st, f, args)
        if s != 'ok': raise Broken('call %d is refused while recording' % no)
        if W.cur != no + 1: raise Broken('call %d: the function is called %d times while recording' % (no, W.cur - no))
        if const_of(toP(v)) != c.rc: raise Broken('call %d returns %s, the function returned %d' % (no, T.show(v), c.rc))
        if len(W.rec) != n0 + 1: raise Broken('call %d records %d operations' % (no, len(W.rec) - n0))
        r = W.rec[-1]
        if r[0] != cx.codes[OP[c.kind]]: raise Broken('call %d is recorded as %s' % (no, cx.names.get(r[0])))
        if len(r[1]) > MAXLOCS + r[2]: raise Broken('call %d records %d locations and reserves room for %d' % (no, len(r[1]), MAXLOCS + r[2]))
        for l in range(nloc):
            g = toP(st.mem[(('store',), num(l))])
            if g != toP(W.V[l]): raise Broken('call %d leaves %s in location %d instead of %s' % (no, T.show(g)[:60], l, T.show(W.V[l])[:60]))
    mem = {v[1] for (r, o), v in st.mem.items() if isinstance(r, tuple) and r[0] == 'fld' and r[-1] == 'allmem' and not isP(v) and v[0] == 'ptr'}
    lk = [r for r in W.leaks() if r not in mem]
    if lk: raise Broken('%d blocks stay allocated after recording' % len(lk))
    want, pre, V = pushed(calls, [atom(('in', 'v', l)) for l in range(nloc)], xchg, yprior)
    if W.ntays != len(want): raise Broken('%d Taylor entries counted while recording, %d are due' % (W.ntays, len(want)))
    if W.tays != ([toP(v) for v in want] if keep else []): raise Broken('Taylor entries stored while recording differ from those of the calls')
    W.st = st
    return W

def tape_of(cx, rec, nloc):
    C = cx.codes
    t = [(C['start_of_tape'], [], [])]
    for l in range(nloc): t.append((C['assign_ind'], [l], []))
    for r in rec: t.append((r[0], list(r[1]), []))
    for l in range(nloc): t.append((C['assign_dep'], [l], []))
    t.append((C['death_not'], [0, nloc - 1], []))
    t.append((C['end_of_tape'], [], []))
    return t

def sweep(cx, name, R, calls, nloc, xchg, yprior, rows, keep=0, tays=None):
    tu, f = cx.sweep_fn(name)
    f = dict(f, tu=tu) if 'tu' not in f else f
    W = World(cx, tu, calls, nloc, xchg, yprior, rows, R.own)
    W.mode = name
    W.tape = tape_of(cx, R.rec, nloc)
    W.stats = {'NUM_INDEPENDENTS': nloc, 'NUM_DEPENDENTS': nloc, 'NUM_MAX_LIVES': nloc + 1, 'NUM_OPERATIONS': len(W.tape), 'NUM_EQ_PROD': 0, 'NO_MIN_MAX': 0, 'NUM_SWITCHES': 0, 'NUM_PARAM': 0,
               'TAY_BUFFER_SIZE': 1000, 'OP_BUFFER_SIZE': 1000}
    st = State()
    W.setup(st)
    if R.own:
        # the function objects as recording left them
        for k, v in R.st.mem.items():
            r = k[0]
            while isinstance(r, tuple) and r[0] == 'fld': r = r[1]
            if r[0] in ('edf2', 'blk'): st.mem[k] = v
        for r in R.size:
            if r[0] == 'blk': W.size[r], W.kind[r], W.state[r] = R.size[r], 'p', R.state[r]
        W.nblk = R.nblk
    v0 = lambda l: atom(('in', 'v', l))
    A = {'tnum': num(OUTER), 'depcheck': num(nloc), 'indcheck': num(nloc), 'depen': num(nloc), 'indep': num(nloc), 'keep': num(keep), 'p': num(rows), 'nrows': num(rows)}
    rev = name.endswith('reverse')
    if not rev:
        A['basepoint'] = W.arr(st, 'x', (nloc,), val=v0)
        A['valuepoint'] = W.arr(st, 'y', (nloc,))
        if name != 'zos_forward':
            d = (nloc, rows) if name == 'fov_forward' else (nloc,)
            A['argument'] = W.arr(st, 'X', d, val=lambda l, r=0: atom(('in', 'dv', l, r)))
            A['taylors'] = W.arr(st, 'Y', d)
    else:
        d = (rows, nloc) if name == 'fov_reverse' else (nloc,)
        W.A = [[atom(('in', 'u', l, r)) for r in range(rows)] for l in range(nloc)]
        A['lagrange'] = W.arr(st, 'u', d, val=(lambda r, l: W.A[l][r]) if len(d) == 2 else (lambda l: W.A[l][0]))
        A['results'] = W.arr(st, 'z', d)
        W.order.reverse()
        W.tays = list(tays)
        _, W.pre, W.V = pushed(calls, [v0(l) for l in range(nloc)], xchg, yprior)
    names = [tu.decls[p]['n'] for p in f['ps']]
    if any(n not in A for n in names): raise Unsupported('parameters of %s: %s' % (name, names))
    s, v = W.run(st, f, [A[n] for n in names])
    if s != 'ok': raise Broken('the sweep is refused')
    if W.cur != len(calls): raise Broken('%d external functions called, %d are on the tape' % (W.cur, len(calls)))
    if W.open: raise Broken('the sweep is not ended')
    lk = W.leaks()
    if lk: raise Broken('%d blocks stay allocated' % len(lk))
    rc = min([3] + [c.rc for c in calls])
    if const_of(toP(v)) != rc: raise Broken('returns %s, the least code of the callbacks is %d' % (T.show(v), rc))
    def same(w, ix, e):
        g = toP(W.get(st, A[w], *ix))
        if g != toP(e): raise Broken('%s[%s] = %s instead of %s' % (w, ']['.join(map(str, ix)), T.show(g)[:60], T.show(e)[:60]))
    for l in range(nloc):
        if rev:
            for r in range(rows): same('results', (r, l) if name == 'fov_reverse' else (l,), W.A[l][r])
        else:
            same('valuepoint', (l,), W.V[l])
            if name != 'zos_forward':
                for r in range(rows): same('taylors', (l, r) if name == 'fov_forward' else (l,), W.X[l][r])
    if rev and W.tays: raise Broken('%d Taylor entries of the forward sweep are left over' % len(W.tays))
    if not rev and keep:
        want, _, _ = pushed(calls, [v0(l) for l in range(nloc)], xchg, yprior)
        if W.tays[nloc:nloc + len(want)] != [toP(v) for v in want] or len(W.tays) != 2 * nloc + len(want): raise Broken('the Taylor entries stored differ from those stored while recording')
    return W

MAXLOCS = 10
def job(i):
    name, calls, flags, nloc = SCRIPTS[i]
    cx, out = CX_, []
    for xchg, yprior in flags:
        kind = '%s, %s' % (name, ('x changes' if xchg else 'x kept') + (', y needed' if yprior else ''))
        def attempt(what, f):
            key = '%s:%s' % (what, kind)
            try:
                r = f()
                out.append((key, what, 'ok', ''))
                return r
            except Broken as ex: out.append((key, what, 'bad', str(ex)))
            except Unsupported as ex: out.append((key, what, 'undecided', str(ex)))
        ok = [c.rc >= 0 for c in calls]
        own = name.endswith('own memory')
        rec = attempt('recorder', lambda: record(cx, calls, nloc, xchg, yprior, 0, own))
        if rec is None: continue
        attempt('recorder, keeping', lambda: record(cx, calls, nloc, xchg, yprior, 1, own))
        a = (rec, calls, nloc, xchg, yprior)
        attempt('zos_forward', lambda: sweep(cx, 'zos_forward', *a, 1))
        Z = attempt('zos_forward, keeping', lambda: sweep(cx, 'zos_forward', *a, 1, keep=1))
        attempt('fos_forward', lambda: sweep(cx, 'fos_forward', *a, 1))
        K = attempt('fos_forward, keeping', lambda: sweep(cx, 'fos_forward', *a, 1, keep=1))
        for p in (1, 3): attempt('fov_forward, %d directions' % p, lambda: sweep(cx, 'fov_forward', *a, p))
        for W, w in ((Z, 'zos'), (K, 'fos')):
            if W is None: continue
            attempt('fos_reverse after ' + w, lambda: sweep(cx, 'fos_reverse', *a, 1, tays=W.tays))
            for q in (1, 3): attempt('fov_reverse, %d rows after %s' % (q, w), lambda: sweep(cx, 'fov_reverse', *a, q, tays=W.tays))
    return i, out

# ------------------------------------------------------------------ objects
class Obj(World):
    """what the registration of an object leaves in its function object"""
    def __init__(self, ctx, tu, cls, inner):
        super().__init__(ctx, tu, [Call({'EDFobject': 'v1', 'EDFobject_iArr': 'iarr', 'EDFobject_v2': 'v2'}[cls], 3, [(0, 1)], [(1, 1)])], 4, 1, 1, 1)
        self.cls, self.inner, self.got = cls, inner, []
        self.cidx = num(3)
        V = 'ValueTape::'
        self.prims[V + 'ext_diff_append'] = self.prims[V + 'ext_diff_v2_append'] = self.m_append
        self.prims['currentTape'] = lambda I, st, e, xs: ('lv', cell(('obj', 'tape', num(OUTER))))
    def m_append(self, I, st, e, xs):
        self.on_outer(st, e, xs)
        if e[2].endswith('v2_append') != (self.cls == 'EDFobject_v2'): raise Broken('registers a function object of the other kind')
        return self.edf(self.calls[0])
    def m_get(self, I, st, e, xs):
        t, i = (const_of(toP(self.ev_val(x, st))) for x in xs)
        if t != OUTER: raise Broken('looks for the function object on tape %s: it is registered on tape %s' % (t, OUTER))
        if i != 3 or e[2].endswith('v2') != (self.cls == 'EDFobject_v2'): raise Broken('looks for another function object')
        return self.edf(self.calls[0])
    def closure(self, v, st): return ('closure', v, dict(st.env), self.tu) if isinstance(v, tuple) and v and v[0] == 'lambda' else v
    def e_mcall(self, e, st, want_lv=False):
        if e[2].startswith('std::function<') and e[2].endswith('::operator='):
            lv = self.deref(self.ev_val(e[7], st)) if e[5] else self.lval(e[7], st)
            st.mem[lv[1:3]] = self.closure(self.ev_val(e[8], st), st)
            return ('lv', lv)
        if e[2].split('::')[0] in ('EDFobject', 'EDFobject_iArr', 'EDFobject_v2') and e[2].split('::')[-1] in V1:
            o = self.ev_val(e[7], st) if e[5] else self.addr(self.lval(e[7], st))
            self.got.append((o, e[2], [self.ev_val(x, st) for x in e[8:]]))
            return atom(('code',))
        return super().e_mcall(e, st, want_lv)

def objects(cls, inner):
    cx, out = CX_, []
    f = next((dict(f, tu=tu) for p, tu in sorted(cx.prog.tus.items()) for f in tu.funcs if f['q'] == cls + '::init_edf' and f['body'] is not None), None)
    if f is None: raise AnalysisBroken(cls + '::init_edf not found')
    what = '%s, %s' % (cls, 'inner tape' if inner != OUTER else 'same tape')
    W = Obj(cx, f['tu'], cls, inner)
    st = State()
    me = ('ptr', ('object', cls), ZERO)
    W.exits, W.tu = [], f['tu']
    try:
        W.call_body(f, st, [('val', v) for v in [me, num(OUTER), num(inner)][:len(f['ps'])]], this=me)
        b = W.deref(W.edf(W.calls[0]))
        rd = lambda n: st.mem.get(W.field(st, b, n)[1:3])
        bad = []
        if rd('obj') != me: bad.append('the object is not remembered')
        for n, v in (('tapeId', OUTER), ('extTapeId', inner)):
            if rd(n) is None or const_of(toP(rd(n))) != v: bad.append('%s = %s instead of %d' % (n, T.show(rd(n)) if rd(n) is not None else 'never set', v))
        out.append((what + ':ids', 'bad' if bad else 'ok', '; '.join(bad)))
    except (Unsupported, Dead) as ex: return [(what, 'undecided', str(ex))]
    except Broken as ex: return [(what, 'bad', str(ex))]
    for n in V1:
        key = '%s:%s' % (what, n)
        try:
            v = rd(n + ('_iArr' if cls == 'EDFobject_iArr' else ''))
            if v is None: raise Broken('the callback is never set')
            if isP(v): v = T.unP(v)
            s2 = st.copy()
            if v[0] == 'closure': s2.env, W.tu, m = dict(v[2]), v[3], v[1][1]
            elif v[0] == 'fnref': W.tu, m = f['tu'], v[2]
            else: raise Unsupported('callback %s' % (v[0],))
            g = cx.prog.resolve(W.tu, m)
            if g is None: raise Unsupported('callback without a body')
            sig = (V2 if cls == 'EDFobject_v2' else V1)[n].split()
            if cls == 'EDFobject_iArr': sig = sig[:1] + ['len', 'iarr'] + sig[1:]
            if len(g['ps']) != len(sig): raise Broken('the callback takes %d arguments instead of %d' % (len(g['ps']), len(sig)))
            args = [num(inner if n == 'function' else OUTER)] + [atom(('sym', 'arg%d' % i)) for i in range(1, len(sig))]
            W.got, W.exits = [], []
            r = W.call_body(g, s2, [('val', a) for a in args])
            if len(W.got) != 1: raise Broken('the callback calls %d methods of objects' % len(W.got))
            o, q, xs = W.got[0]
            if isP(o): o = T.unP(o)
            if q.split('::')[-1] != n: raise Broken('the callback runs %s' % q)
            if o != me: raise Broken('the callback runs the method of another object')
            if [toP(x) for x in xs] != args: raise Broken('the method gets %s' % ', '.join(T.show(x) for x in xs))
            if toP(r) != atom(('code',)): raise Broken('the callback does not return the code of the method')
            out.append((key, 'ok', ''))
        except (Unsupported, Dead) as ex: out.append((key, 'undecided', str(ex)))
        except Broken as ex: out.append((key, 'bad', str(ex)))
    return out

def c21():
    global CX_, SCRIPTS
    rep = Report('C21', 'interpretation of the recorders and of the sweeps over tapes with external function calls, callbacks formal, everything else decided by constant propagation')
    rep.rule('call', 'every callback is called once per recorded call and in order, with the values, directions and adjoints of the variables of its own call, its integers, its shape and its context')
    rep.rule('result', 'what a callback yields is in the variables of its own call afterwards, and nothing else changed; the adjoints of the results are taken out')
    rep.rule('history', 'recorder and forward sweeps store the same previous values, the reverse sweeps restore exactly these; the room reserved on the tape suffices, the integers are released, the least code is returned')
    CX_ = cx = CX.Ctx(SWEEPS, extra=FILES, rec=False)
    SCRIPTS = scripts()
    for n in set(NARGS.values()): find(cx, 'call_ext_fct', n)
    with ProcessPoolExecutor(8) as ex:
        for i, out in ex.map(job, range(len(SCRIPTS))):
            for key, what, s, why in out:
                if s == 'undecided': rep.skip(key, why)
                else:
                    rep.count(what.split(',')[0].split(' after')[0])
                    rep.check(s == 'ok', key, '%s with %s: %s' % (what, key.split(':', 1)[1], why), sample=key)
    rep.rule('object', 'the callbacks an EDFobject registers run the method of the same name of this very object with the arguments they were given, and return its code')
    for cls in ('EDFobject', 'EDFobject_iArr', 'EDFobject_v2'):
        for inner in (OUTER, INNER) if cls != 'EDFobject_iArr' else (OUTER,):
            for key, s, why in objects(cls, inner):
                if s == 'undecided': rep.skip(key, why)
                else:
                    rep.count('callbacks of objects')
                    rep.check(s == 'ok', key, '%s: %s' % (key.replace(':', ', '), why), sample=key)
    rep.floor(500, 'external function runs')
    return rep.finish()

CHECKS = {'C21': c21}
