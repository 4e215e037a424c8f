"""Drivers interpreted against contracts of the sweeps.

A driver is interpreted with representative dimensions and symbolic data.  The
sweeps it calls are replaced by their contracts (established for the sweeps
themselves by C01-C11): F is a vector of formal functions, a forward sweep
yields its Taylor coefficients at the point and along the directions it is
given, a reverse sweep the adjoint coefficients at the point of the forward
sweep that filled the Taylor stack.  All branches and trip counts are decided
by constant propagation; every access to an array whose extent is known is
bounds checked, every block must be released exactly once.
"""
from fractions import Fraction
import itertools, math
import terms as T
from terms import (ZERO, ONE, num, atom, isP, toP, add, sub, mul, neg, const_of, TRUE, FALSE, c_not)
from algos import Algos
from absint import Interp, State, Flow, Unsupported, Dead, cell, NULL

class Broken(Exception):
    """the driver violates its contract on this path"""

SIZES = {'double': 8, 'int': 4, 'short': 2, 'char': 1, 'unsigned int': 4, 'uint': 4, 'long': 8, 'unsigned long': 8,
         'size_t': 8, 'long double': 16, 'float': 4, 'short *': 8, 'bool': 1}

# ------------------------------------------------------------------ formal functions
class F:
    """value and derivatives of component i of the traced function"""
    zero = None         # (i, alpha) -> the derivative vanishes identically
    def D(tag, i, alpha, x):
        if F.zero and alpha and F.zero(i, tuple(sorted(alpha))): return ZERO
        return atom(('D', tag, i, tuple(sorted(alpha)), tuple(x)))

    def coef(tag, i, pre, x0, X, k):
        """k-th Taylor coefficient of d^pre F_i along x0 + sum X[j][l] t^(l+1)"""
        if k == 0: return F.D(tag, i, pre, x0)
        n = len(x0)
        tot = ZERO
        for r in range(1, k + 1):
            inv = num(Fraction(1, math.factorial(r)))
            for ks in compositions(k, r):
                for js in itertools.product(range(n), repeat=r):
                    t = inv
                    for j, kk in zip(js, ks):
                        t = mul(t, X[j][kk - 1])
                        if t == ZERO: break
                    if t != ZERO: tot = add(tot, mul(t, F.D(tag, i, pre + js, x0)))
        return tot

def compositions(k, r):
    if r == 1:
        yield (k,)
        return
    for a in range(1, k - r + 2):
        for b in compositions(k - a, r - 1): yield (a,) + b

class Drive(Algos, Interp):
    """interpreter of drivers: everything is decided"""
    LIMIT = 4000
    def __init__(self, prog, tu, codes=(), switches=2, prims=None):
        super().__init__(prog, tu, max_inline=30)
        self.size = {}          # region -> number of elements (None: unknown)
        self.kind = {}          # region -> 'z' zeroed, 'm' undefined, 'p' caller's
        self.bytes = {}
        self.state = {}         # region -> 'live' / 'freed'
        self.rows = {}
        self.blocks = []
        self.tapes = {}         # tag -> what the Taylor stack holds
        self.codes = list(codes)
        self.used = []
        self.nsw = switches
        self.nblk = 0
        self.calls = []
        P = self.prims
        for nm in ('myalloc1', 'myalloc2', 'myalloc3', 'malloc', 'calloc', 'free', 'myfree1', 'myfree2', 'myfree3'):
            P[nm] = getattr(self, 'p_' + nm)
        P['std::malloc'] = self.p_malloc; P['std::calloc'] = self.p_calloc; P['std::free'] = self.p_free
        P['myalloc1_uint'] = lambda I, st, e, xs: self.alloc(st, self.cint(xs[0], st), 'z')
        P['myalloc1_ulong'] = P['myalloc1_uint']
        P['myfree1_uint'] = P['myfree1_ulong'] = self.p_myfree1
        for nm in ('findTape', 'currentTape'):
            P[nm] = self.p_tape
        P['get_num_switches'] = lambda I, st, e, xs: num(self.nsw)
        P['ADOLCError::fail'] = self.p_fail
        for nm in dir(self):
            if nm.startswith('w_'): P[nm[2:]] = (lambda h: lambda I, st, e, xs: self.sweep(h, st, e, xs))(getattr(self, nm))
        for nm in ('round', 'ceil', 'floor', 'trunc', 'fabs', 'abs'):
            P[nm] = P['std::' + nm] = (lambda nm: lambda I, st, e, xs: self.rounding(nm, st, xs))(nm)
        self.install_algos()
        for nm in ('sort', 'max', 'min'):
            P['std::' + nm] = getattr(self, 'a_' + nm)
        for nm in ('memset', 'memcpy', 'memmove'):
            P[nm] = P['std::' + nm] = getattr(self, 'a_' + nm)
        self.prefix = ''
        self.bits, self.nbit, self.singular = (), 0, False
        if prims: P.update(prims)

    # -------------------------------------------------------------- library algorithms
    def a_sort(self, I, st, e, xs):
        if len(xs) != 2: raise Unsupported('std::sort with an order')
        p, q = (self.ev_val(x, st) for x in xs)
        n = self.span(p, q)
        vs = [self.at_(st, p, i) for i in range(n)]
        cs = [const_of(toP(v)) for v in vs]
        if None in cs: raise Unsupported('sorting unknown values')
        for i, c in enumerate(sorted(cs)): self.to_(st, p, i, num(c))
        return ZERO
    def a_max(self, I, st, e, xs, up=True):
        vs = [toP(self.ev_val(x, st)) for x in xs[:2]]
        c = [const_of(v) for v in vs]
        if len(xs) > 2: raise Unsupported('std::max with an order')
        if None in c: return T.fn('max' if up else 'min', *sorted(vs, key=T.key))
        return num((max if up else min)(c))
    def a_min(self, I, st, e, xs): return self.a_max(I, st, e, xs, False)
    def elsize(self, x):
        """element size of the pointee before the implicit cast to void*"""
        while x[0] == 'cast': x = x[4]
        return x
    def a_memset(self, I, st, e, xs): raise Unsupported('memset at ' + self.where(e[1]))
    a_memcpy = a_memmove = a_memset
    HARMLESS = ('fprintf', 'printf', 'fflush', 'perror', 'std::operator<<', 'puts', 'fputs')
    def opaque_call(self, e, st, q, rt, vals):
        if q in self.HARMLESS or q.split('<')[0] in self.HARMLESS or 'operator<<' in q: return ZERO
        raise Unsupported('call of %s at %s' % (q, self.where(e[1])))
    # -------------------------------------------------------------- generic position
    def decide(self, c):
        """an undecided condition on symbolic reals: different values differ, no
        value is near zero, order relations are chosen by the bits of the instance"""
        if c in (TRUE, FALSE): return c
        if c[0] == 'not':
            d = self.decide(c[1])
            return c_not(d) if d in (TRUE, FALSE) else None
        if c[0] == 'and':
            ds = [self.decide(x) for x in c[1]]
            if FALSE in ds: return FALSE
            return None if None in ds else TRUE
        if c[0] == 'eq' and self.reals(c[1]): return FALSE
        if c[0] == 'lt' and self.reals(c[1]):
            k = [cf for m, cf in c[1][1] if m]
            ab = all(len(m) == 1 and m[0][1] == 1 and m[0][0][:2] == ('fn', 'fabs') for m, cf in c[1][1] if m)
            if ab and len(k) == 1: return FALSE if (k[0] > 0) != self.singular else TRUE
            if ab:
                b = self.bits[self.nbit] if self.nbit < len(self.bits) else 0
                self.nbit += 1
                return TRUE if b else FALSE
        return None
    def reals(self, p):
        for a in T.atoms(p):
            if a[0] not in ('in', 'D', 'fn', 'inv', 'seed'): return False
        return True

    def rounding(self, nm, st, xs):
        v = toP(self.ev_val(xs[0], st))
        c = const_of(v)
        if c is None: return T.fn('fabs' if nm == 'abs' else nm, v)
        return num({'round': lambda c: math.floor(abs(c) + Fraction(1, 2)) * (1 if c >= 0 else -1), 'ceil': math.ceil, 'floor': math.floor,
                    'trunc': int, 'fabs': abs, 'abs': abs}[nm](c))

    # -------------------------------------------------------------- memory
    def cint(self, x, st):
        c = const_of(toP(self.ev_val(x, st)))
        if c is None or c.denominator != 1: raise Unsupported('allocation of unknown size at ' + self.where(x[1]))
        return int(c)
    def alloc(self, st, n, kind, bytes=False):
        self.nblk += 1
        r = ('blk', self.nblk)
        self.kind[r] = kind
        if bytes: self.bytes[r] = n
        else: self.size[r] = n
        self.state[r] = 'live'
        return ('ptr', r, ZERO)
    def rowptrs(self, st, n, data, stride):
        p = self.alloc(st, n, 'z')
        for i in range(n): st.mem[(p[1], num(i))] = ('ptr', data, num(i * stride))
        self.rows[p[1]] = data
        return p
    def p_myalloc1(self, I, st, e, xs):
        n = self.cint(xs[0], st)
        if n <= 0: return NULL
        return self.alloc(st, n, 'z')
    def p_myalloc2(self, I, st, e, xs):
        n, m = self.cint(xs[0], st), self.cint(xs[1], st)
        if n <= 0 or m <= 0: return NULL
        d = self.alloc(st, n * m, 'z'); self.state[d[1]] = 'part'
        p = self.rowptrs(st, n, d[1], m)
        return p
    def p_myalloc3(self, I, st, e, xs):
        n, m, q = (self.cint(x, st) for x in xs)
        if n <= 0 or m <= 0 or q <= 0: return NULL
        d = self.alloc(st, n * m * q, 'z'); self.state[d[1]] = 'part'
        r = self.rowptrs(st, n * m, d[1], q); self.state[r[1]] = 'part'
        return self.rowptrs(st, n, r[1], m)
    def p_malloc(self, I, st, e, xs): return self.alloc(st, self.cint(xs[0], st), 'm', bytes=True)
    def p_calloc(self, I, st, e, xs): return self.alloc(st, self.cint(xs[0], st) * self.cint(xs[1], st), 'z', bytes=True)
    def release(self, st, v, e):
        if isP(v) and v == ZERO or v == NULL: return ZERO
        a = v if not isP(v) else T.unP(v)
        if a[0] != 'ptr' or a[1] not in self.state:
            raise Broken('release of something not allocated here (%s) at %s' % (T.show(v), self.where(e[1])))
        if self.kind[a[1]] == 'p': raise Broken('releases an array of the caller at ' + self.where(e[1]))
        if self.state[a[1]] == 'freed': raise Broken('block released twice at ' + self.where(e[1]))
        if self.state[a[1]] == 'part' or a[2] != ZERO:
            raise Broken('release of a pointer that is not the start of a block at ' + self.where(e[1]))
        r = a[1]
        while r is not None:
            self.state[r] = 'freed'
            r = self.rows.get(r)
        return ZERO
    def p_free(self, I, st, e, xs): return self.release(st, self.ev_val(xs[0], st), e)
    p_myfree1 = p_myfree2 = p_myfree3 = p_free
    def p_fail(self, I, st, e, xs):
        self.exits.append(('fail', self.where(e[1]), st.assume, 'ADOLCError::fail'))
        raise Dead()
    def p_tape(self, I, st, e, xs):
        return ('lv', cell(('obj', 'tape', T.unP(toP(self.ev_val(xs[0], st))) if xs else 0)))
    def psize(self, t):
        t = t.replace('const ', '').replace('struct ', '').strip()
        if t.endswith('*'): return 8
        if t in SIZES: return SIZES[t]
        c = self.prog.classes.get(t)
        if c is None: return None
        off, al = 0, 1
        for nm, ft, _ in c[0]['fields']:
            s = self.psize(ft)
            if s is None: return None
            off = (off + s - 1) // s * s + s
            al = max(al, s)
        return (off + al - 1) // al * al
    def e_cast(self, e, st):
        v = super().e_cast(e, st)
        if not isP(v) and v[0] == 'ptr' and v[1] in self.bytes and v[1] not in self.size and e[3].rstrip().endswith('*'):
            s = self.psize(e[3].rstrip()[:-1].strip())
            if s and e[3].replace('const ', '').strip() not in ('void *', 'char *'):
                self.size[v[1]] = self.bytes[v[1]] // s
        return v
    def e_new(self, e, st):
        n = self.ev_val(e[4], st) if e[4] else ONE
        c = const_of(toP(n))
        if c is None: raise Unsupported('new of unknown extent at ' + self.where(e[1]))
        return self.alloc(st, int(c), 'z' if e[5] is not None and e[5][0] in ('zero', 'init') and len(e[5]) <= 3 else 'm')
    def e_delete(self, e, st): return self.release(st, self.ev_val(e[3], st), e)
    def touch(self, lv, write):
        r, o = lv[1], lv[2]
        while isinstance(r, tuple) and r and r[0] == 'fld': r, o = r[1], r[2]
        if r == ('null',) or isinstance(r, tuple) and r and r[0] == 'at' and (r[1] == NULL or isP(r[1]) and const_of(r[1]) is not None):
            raise Broken('null pointer dereferenced')
        if r not in self.state and r not in self.size: return
        if self.state.get(r) == 'freed': raise Broken('use of a released block')
        n = self.size.get(r)
        c = const_of(o)
        if c is None and any(a[0] == 'undef' for a in T.atoms(o)): raise Broken('uses a value that was never written as an index')
        if c is None: raise Unsupported('access at an unknown index')
        if n is not None and not 0 <= c < n:
            raise Broken('%s element %d of an array of %d (%s)' % ('writes' if write else 'reads', c, n, self.name(r)))
    def name(self, r): return r[1] if self.kind.get(r) == 'p' else 'allocated block'
    def load(self, st, lv):
        if lv[0] == 'cell': self.touch(lv, False)
        return super().load(st, lv)
    def store(self, st, lv, v):
        if lv[0] == 'cell': self.touch(lv, True)
        return super().store(st, lv, v)
    def init_hook(self, st, lv):
        r = lv[1]
        k = self.kind.get(r)
        if k == 'z': return ZERO
        if k == 'm': return atom(('undef', r, lv[2]))
        root = r
        while isinstance(root, tuple) and root and root[0] in ('fld', 'arr', 'vec', 'vecsize') and len(root) > 1: root = root[1]
        if root and root[0] == 'glob' or root[:2] == ('obj', 'tape'): return ZERO
        if self.kind.get(root) == 'm': return atom(('undef', r, lv[2]))
        return None
    def vec_hook(self, st, lv, t, vals):
        """std::vector<T> v(n[, value])"""
        if 'std::vector' not in t: return
        v = ('vec', lv[1], lv[2])
        if vals and isP(vals[0]) and const_of(vals[0]) is not None:
            n = int(const_of(vals[0]))
            self.size[v] = n; self.kind[v] = 'z'
            if len(vals) > 1 and isP(vals[1]) and vals[1] != ZERO:
                for i in range(n): st.mem[(v, num(i))] = vals[1]

    def ev_val(self, e, st, want_lv=False):
        v = super().ev_val(e, st, want_lv)
        if not want_lv and e[0] in ('call', 'mcall') and isinstance(v, tuple) and v and v[0] == 'lv':
            x = st.mem.get((v[1][1], v[1][2])) if v[1][0] == 'cell' else None
            rt = e[4].replace('const ', '').rstrip('& ')
            if x is not None or rt in SIZES or rt.endswith('*') or rt.endswith('reference'): return self.load(st, v[1])
        return v
    # -------------------------------------------------------------- control
    def s_if(self, s, st):
        c = self.cond(s[2], st)
        if c == TRUE: return self.exec(s[3], st)
        if c == FALSE: return self.exec(s[4], st)
        d = self.decide(c)
        if d is not None: return self.exec(s[3] if d == TRUE else s[4], st)
        self.stray(c, s)
        raise Unsupported('undecided branch %s at %s' % (T.show(c), self.where(s[1])))
    def stray(self, c, s): pass
    def e_cond(self, e, st, want_lv=False):
        c = self.cond(e[2], st)
        if c == TRUE: return self.ev_val(e[3], st)
        if c == FALSE: return self.ev_val(e[4], st)
        return super().e_cond(e, st, want_lv)
    def loop(self, s, st, cond, inc, body, post, forceN=None):
        cur, brk, exs = st, None, []
        for it in range(self.LIMIT):
            if cond is not None and not (post and it == 0):
                c = self.cond(cond, cur)
                if c == FALSE: return Flow(cur, exs)
                if c != TRUE: raise Unsupported('undecided loop condition %s at %s' % (T.show(c), self.where(s[1])))
            if forceN is not None:
                n = const_of(forceN)
                if n is None: raise Unsupported('range of unknown length at ' + self.where(s[1]))
                if it >= n: return Flow(cur, exs)
            f = self.exec(body, cur)
            n = f.n
            for kind, g, x, v in f.ex:
                if kind == 'continue': n = x
                elif kind == 'break': return Flow(x, exs)
                else: exs.append((kind, g, x, v))
            if n is None: return Flow(None, exs)
            if inc is not None: self.ev_val(inc, n)
            cur = n
        raise Unsupported('more than %d iterations at %s' % (self.LIMIT, self.where(s[1])))
    def s_rfor(self, s, st):
        r = self.rfor_listed(s, st)
        if r is not None: return r
        vd, rng, body = s[2], s[3], s[4]
        lv = self.lval(rng, st)
        n = const_of(self.size_of(st, lv))
        if n is None: raise Unsupported('range of unknown length at ' + self.where(s[1]))
        exs = []
        for i in range(int(n)):
            el = cell(('vec', lv[1], lv[2]), num(i))
            st.env[self.dkey(vd[0])] = el
            f = self.exec(body, st)
            nn = f.n
            for kind, g, x, v in f.ex:
                if kind == 'continue': nn = x
                elif kind == 'break': return Flow(x, exs)
                else: exs.append((kind, g, x, v))
            if nn is None: return Flow(None, exs)
            st = nn
        return Flow(st, exs)
    def arith(self, op, a, b):
        if op == '%':
            ca, cb = const_of(toP(a)), const_of(toP(b))
            if ca is not None and cb: return num(int(ca) - int(ca / cb) * int(cb))
        return super().arith(op, a, b)

    # -------------------------------------------------------------- arrays at the interface
    def arr(self, st, name, dims, val=None):
        """an array of the caller with the documented extents"""
        name = self.prefix + name
        r = ('par', name)
        self.kind[r] = 'p'; self.state[r] = 'live'; self.size[r] = dims[0]
        for i in range(dims[0]):
            if len(dims) == 1:
                st.mem[(r, num(i))] = val(i) if val else atom(('in', name, i))
            else:
                f = (lambda i: lambda *ix: val(i, *ix) if val else atom(('in', name, i) + ix))(i)
                st.mem[(r, num(i))] = self.arr(st, '%s[%d]' % (name[len(self.prefix):], i), dims[1:], f)
        return ('ptr', r, ZERO)
    def get(self, st, p, *ix):
        for k, i in enumerate(ix):
            lv = self.deref(self.ptr_add(p, num(i)))
            p = self.load(st, lv)
        return p
    def put(self, st, p, ix, v):
        for i in ix[:-1]: p = self.get(st, p, i)
        self.store(st, self.deref(self.ptr_add(p, num(ix[-1]))), v)

    # -------------------------------------------------------------- sweeps
    def sweep(self, h, st, e, xs):
        nm = e[2]
        vals = [self.ev_val(x, st) for x in xs]
        k = len(self.used)
        rc = self.codes[k] if k < len(self.codes) else 3
        self.used.append((nm, rc))
        a = []
        for v in vals:
            c = const_of(v) if isP(v) else None
            a.append(int(c) if c is not None and c.denominator == 1 else v)
        self.at = self.where(e[1])
        try:
            h(st, rc, *a)
        except Broken as ex:
            raise Broken('%s at %s: %s' % (nm, self.at, ex))
        return num(rc)
    def keep(self, tag, **kw): self.tapes[tag] = kw
    def kept(self, tag, what):
        k = self.tapes.get(tag)
        if not k: raise Broken('no forward sweep with keep before it')
        return k
    def vec(self, st, p, n): return [toP(self.get(st, p, i)) for i in range(n)]
    def mat(self, st, p, n, m): return [[toP(self.get(st, p, i, j)) for j in range(m)] for i in range(n)]
    def ten(self, st, p, n, m, q): return [[[toP(self.get(st, p, i, j, k)) for k in range(q)] for j in range(m)] for i in range(n)]

    def w_zos_forward(self, st, rc, tag, m, n, keep, x, y):
        x0 = self.vec(st, x, n)
        if keep not in (0, 1): raise Broken('keep %s' % keep)
        if keep: self.keep(tag, deg=0, q=1, x0=x0, X=[[] for _ in x0], m=m)
        else: self.tapes.pop(tag, None)
        if rc < 0: return
        for i in range(m): self.put(st, y, (i,), F.D(tag, i, (), x0))
    def w_zos_forward_nk(self, st, rc, tag, m, n, x, y): self.w_zos_forward(st, rc, tag, m, n, 0, x, y)
    def w_fos_forward(self, st, rc, tag, m, n, keep, x, xd, y, yd):
        x0 = self.vec(st, x, n); X = [[v] for v in self.vec(st, xd, n)]
        if keep not in (0, 1, 2): raise Broken('keep %s' % keep)
        if keep: self.keep(tag, deg=keep - 1, q=1, x0=x0, X=X, m=m)
        else: self.tapes.pop(tag, None)
        if rc < 0: return
        for i in range(m):
            self.put(st, y, (i,), F.D(tag, i, (), x0))
        for i in range(m):
            self.put(st, yd, (i,), F.coef(tag, i, (), x0, X, 1))
    def w_hos_forward(self, st, rc, tag, m, n, d, keep, x, Xp, y, Yp):
        x0 = self.vec(st, x, n); X = self.mat(st, Xp, n, d)
        if not 0 <= keep <= d + 1: raise Broken('keep %s with degree %s' % (keep, d))
        if keep: self.keep(tag, deg=keep - 1, q=1, x0=x0, X=X, m=m)
        else: self.tapes.pop(tag, None)
        if rc < 0: return
        for i in range(m):
            self.put(st, y, (i,), F.D(tag, i, (), x0))
            for k in range(d): self.put(st, Yp, (i, k), F.coef(tag, i, (), x0, X, k + 1))
    def w_fov_forward(self, st, rc, tag, m, n, p, x, Xp, y, Yp): self.w_fov_offset_forward(st, rc, tag, m, n, p, 0, x, Xp, y, Yp)
    def w_fov_offset_forward(self, st, rc, tag, m, n, p, off, x, Xp, y, Yp):
        if p < 0 or off < 0: raise Broken('%d directions from offset %d' % (p, off))
        x0 = self.vec(st, x, n); X = [[toP(self.get(st, Xp, i, off + j)) for j in range(p)] for i in range(n)]
        self.tapes.pop(tag, None)
        if rc < 0: return
        for i in range(m):
            self.put(st, y, (i,), F.D(tag, i, (), x0))
            for j in range(p): self.put(st, Yp, (i, off + j), F.coef(tag, i, (), x0, [[r[j]] for r in X], 1))
    def w_hov_forward(self, st, rc, tag, m, n, d, p, x, Xp, y, Yp): self.hov(st, rc, tag, m, n, d, 0, p, x, Xp, y, Yp)
    def w_hov_wk_forward(self, st, rc, tag, m, n, d, keep, p, x, Xp, y, Yp): self.hov(st, rc, tag, m, n, d, keep, p, x, Xp, y, Yp)
    def hov(self, st, rc, tag, m, n, d, keep, p, x, Xp, y, Yp):
        x0 = self.vec(st, x, n); X = self.ten(st, Xp, n, p, d)
        if not 0 <= keep <= d + 1: raise Broken('keep %s with degree %s' % (keep, d))
        if keep: self.keep(tag, deg=keep - 1, q=p, x0=x0, Xv=[[X[j][l] for j in range(n)] for l in range(p)], m=m)
        else: self.tapes.pop(tag, None)
        if rc < 0: return
        for i in range(m):
            self.put(st, y, (i,), F.D(tag, i, (), x0))
            for l in range(p):
                for k in range(d): self.put(st, Yp, (i, l, k), F.coef(tag, i, (), x0, [X[j][l] for j in range(n)], k + 1))
    def need(self, tag, deg, m, n, vector=None):
        k = self.kept(tag, deg)
        if k['deg'] != deg: raise Broken('the forward sweep kept degree %d, needed %d' % (k['deg'], deg))
        if len(k['x0']) != n or k['m'] != m: raise Broken('dimensions differ from those of the forward sweep')
        if ('Xv' in k) != (vector is not None): raise Broken('the forward sweep before it was %s vector sweep' % ('a' if 'Xv' in k else 'no'))
        if vector is not None and k['q'] != vector: raise Broken('the forward sweep before it had %d directions' % k['q'])
        return k
    def w_fos_reverse(self, st, rc, tag, m, n, u, z):
        k = self.need(tag, 0, m, n); U = self.vec(st, u, m)
        if rc < 0: return
        for j in range(n):
            self.put(st, z, (j,), T.addn([mul(U[i], F.D(tag, i, (j,), k['x0'])) for i in range(m)]) if hasattr(T, 'addn') else self.sum(mul(U[i], F.D(tag, i, (j,), k['x0'])) for i in range(m)))
    def sum(self, xs):
        t = ZERO
        for x in xs: t = add(t, x)
        return t
    def w_fov_reverse(self, st, rc, tag, m, n, q, Up, Zp):
        k = self.need(tag, 0, m, n); U = self.mat(st, Up, q, m)
        if rc < 0: return
        for r in range(q):
            for j in range(n): self.put(st, Zp, (r, j), self.sum(mul(U[r][i], F.D(tag, i, (j,), k['x0'])) for i in range(m)))
    def adj(self, k, tag, Ui, j, l, X):
        """coefficient l of sum_i u_i(t) d_j F_i(x(t)); Ui[i] list of coefficients"""
        return self.sum(mul(Ui[i][a], F.coef(tag, i, (j,), k['x0'], X, l - a)) for i in range(len(Ui)) for a in range(min(l + 1, len(Ui[i]))))
    def w_hos_reverse(self, st, rc, tag, m, n, d, u, Z):
        k = self.need(tag, d, m, n); U = [[v] for v in self.vec(st, u, m)]
        if rc < 0: return
        for j in range(n):
            for l in range(d + 1): self.put(st, Z, (j, l), self.adj(k, tag, U, j, l, k['X']))
    def w_hos_ti_reverse(self, st, rc, tag, m, n, d, u, Z):
        k = self.need(tag, d, m, n); U = self.mat(st, u, m, d + 1)
        if rc < 0: return
        for j in range(n):
            for l in range(d + 1): self.put(st, Z, (j, l), self.adj(k, tag, U, j, l, k['X']))
    def w_hos_ov_reverse(self, st, rc, tag, m, n, d, p, u, Z):
        k = self.need(tag, d, m, n, vector=p); U = self.mat(st, u, m, d + 1)
        if rc < 0: return
        for r in range(p):
            for j in range(n):
                for l in range(d + 1): self.put(st, Z, (r, j, l), self.adj(k, tag, U, j, l, k['Xv'][r]))
    def nz(self, st, nzp, q, n):
        if nzp == NULL or isP(nzp) and const_of(nzp) == 0 or nzp == 0: return
        for r in range(q):
            for j in range(n): self.put(st, nzp, (r, j), num(4))
    def w_hov_reverse(self, st, rc, tag, m, n, d, q, u, Z, nz=NULL):
        k = self.need(tag, d, m, n); U = self.mat(st, u, q, m)
        if rc < 0: return
        for r in range(q):
            for j in range(n):
                for l in range(d + 1): self.put(st, Z, (r, j, l), self.adj(k, tag, [[U[r][i]] for i in range(m)], j, l, k['X']))
        self.nz(st, nz, q, n)
    def w_hov_ti_reverse(self, st, rc, tag, m, n, d, q, u, Z, nz=NULL):
        k = self.need(tag, d, m, n); U = self.ten(st, u, q, m, d + 1)
        if rc < 0: return
        for r in range(q):
            for j in range(n):
                for l in range(d + 1): self.put(st, Z, (r, j, l), self.adj(k, tag, U[r], j, l, k['X']))
        self.nz(st, nz, q, n)
    # piecewise smooth
    def w_zos_pl_forward(self, st, rc, tag, m, n, keep, x, y, z):
        x0 = self.vec(st, x, n)
        if keep: self.keep(tag, deg=0, q=1, x0=x0, X=[[] for _ in x0], m=m, pl=True)
        else: self.tapes.pop(tag, None)
        if rc < 0: return
        for i in range(m): self.put(st, y, (i,), F.D(tag, i, (), x0))
        for i in range(self.nsw): self.put(st, z, (i,), atom(('z', tag, i, tuple(x0))))
    def w_fov_pl_reverse(self, st, rc, tag, m, n, s, q, u, us, Z, Zs):
        k = self.kept(tag, 0)
        if not k.get('pl'): raise Broken('no piecewise linear forward sweep before it')
        if s != self.nsw: raise Broken('%d switches, the tape has %d' % (s, self.nsw))
        U, V = self.mat(st, u, q, m), self.mat(st, us, q, s)
        x0 = tuple(k['x0'])
        for r in range(q):
            for blk, w, out in (('n', n, Z), ('s', s, Zs)):
                for j in range(w):
                    self.put(st, out, (r, j), add(self.sum(mul(U[r][i], atom(('pl', tag, 'y', i, blk, j, x0))) for i in range(m)),
                                                  self.sum(mul(V[r][i], atom(('pl', tag, 'z', i, blk, j, x0))) for i in range(s))))

    # -------------------------------------------------------------- a call
    def run(self, st, f, args):
        """interpret f with the given argument values; (status, value)"""
        self.exits = []
        self.tu = f['tu']
        tu = f['tu']
        al = []
        for pid, v in zip(f['ps'], args):
            al.append(v if isinstance(v, tuple) and v and v[0] in ('ref', 'val') else ('val', v))
        try:
            v = self.call_body(f, st, al)
        except Dead:
            return 'fail', None
        return 'ok', v
    def leaks(self):
        return [r for r, s in self.state.items() if s == 'live' and self.kind[r] != 'p']
