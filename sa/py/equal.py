"""Equality of value numbers under the conditions they are gated by.

Two terms are compared region by region: the sign of every polynomial a term
is gated by (ite, min, max, fabs) is fixed to <0, ==0, >0 in turn, the term is
simplified, and normal forms are compared.  `equal` answers True, or a witness
(region, left, right), or None when a term contains a value the analysis does
not model (then nothing is claimed).
"""
import terms as T
from terms import num, ZERO, ONE, atom, atom_of, isP, toP, add, sub, mul, neg, inv, const_of, TRUE, FALSE, ite, c_lt0, fn, c_not, c_eq0

OK = {'fn', 'loc', 'sym', 'ite', 'lt', 'eq', 'not', 'and', 'bool', 'inv', 'ad', 'pd', 'newloc', 'newploc', 'true', 'false', 'or', 'nan', 'inf', 'pos', 'zero', 'neg', 'param', 'rec'}
def unknown(t, ok=()):
    """an atom the analysis does not model (the identity of a location is opaque)"""
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, tuple) or not x or id(x) in seen: continue
        seen.add(id(x))
        if isP(x):
            for m, c in x[1]: st.extend(a for a, e in m)
            continue
        h = x[0]
        if not isinstance(h, str):
            st.extend(x); continue
        if h in ('loc', 'newloc', 'newploc'): continue
        if not (h in OK or h in ok or (h.startswith('tc') and h[2:].isdigit())): return x
        st.extend(x[1:])
    return None

def expand(t):
    """min/max/fabs as gated terms, even powers of square roots"""
    def f(a):
        if is_place(a): return atom(a)
        if a[0] == 'fn' and a[1] in ('min', 'fmin'):
            x, y = expand(a[2]), expand(a[3]); return ('ite', c_lt0(sub(x, y)), x, y)
        if a[0] == 'fn' and a[1] in ('max', 'fmax'):
            x, y = expand(a[2]), expand(a[3]); return ('ite', c_lt0(sub(x, y)), y, x)
        if a[0] == 'fn' and a[1] in ('fabs', 'abs'):
            x = expand(a[2]); return ('ite', c_lt0(x), neg(x), x)
        return None
    return T.rewrite(t, f)

def roots(t):
    """sqrt(x)^2 = x, cbrt(x)^3 = x, 1/sqrt(x) = sqrt(x)/x"""
    if not isP(t): return t
    def one(p):
        acc = ZERO; ch = False
        for m, c in p[1]:
            r = num(c)
            for a, e in m:
                if a[0] == 'fn' and a[1] in ('sqrt', 'cbrt') and (e < 0 or e > (1 if a[1] == 'sqrt' else 2)):
                    n = 2 if a[1] == 'sqrt' else 3
                    q, rem = divmod(e, n)
                    ch = True
                    x = a[2]
                    f = num(1)
                    for _ in range(abs(q)): f = mul(f, x if q > 0 else inv(x))
                    for _ in range(rem): f = mul(f, atom(a))
                    r = mul(r, f)
                else:
                    b = atom(a)
                    for _ in range(abs(e)): r = mul(r, b if e > 0 else inv(b))
            acc = add(acc, r)
        return acc if ch else p
    for _ in range(4):
        n = one(t)
        if n == t: break
        t = n
    return t

def pows(t):
    """pow(x, e + k) with an integral k is pow(x, e) * x^k"""
    def f(a):
        if a[0] != 'fn' or a[1] != 'pow': return None
        x, e = pows(toP(a[2])), pows(toP(a[3]))
        k = dict((m, c) for m, c in e[1]).get((), 0)
        n = int(k // 1) if len(e[1]) > 1 else 0
        r = fn('pow', x, sub(e, num(n)))
        for _ in range(abs(n)): r = mul(r, x if n > 0 else inv(x))
        return r
    return T.rewrite(t, f) if any(a[0] == 'fn' and a[1] == 'pow' for a in T.atoms(t)) else t

def norm(t):
    t = roots(toP(t))
    # clear reciprocals of sums: multiply numerators over a common denominator
    return t

def same(a, b):
    a, b = toP(a), toP(b)
    if a == b: return True
    d = roots(pows(sub(a, b)))
    if d == ZERO: return True
    # reciprocals 1/(sum): multiply out
    for _ in range(6):
        den = None; k = 0
        for m, c in d[1]:
            for x, e in m:
                if x[0] == 'inv' and e > 0: den = x; k = max(k, e)
        if den is None: break
        acc = ZERO
        for m, c in d[1]:
            e0 = 0; rest = []
            for x, e in m:
                if x == den: e0 = e
                else: rest.append((x, e))
            t = T.mk(((tuple(rest), c),))
            for _ in range(k - e0): t = mul(t, den[1])
            acc = add(acc, t)
        d = roots(acc)
        if d == ZERO: return True
    return False

def gates(t, out):
    for a in T.atoms(t):
        if a[0] == 'ite': conds(a[1], out)
        elif a[0] == 'bool': conds(a[1], out)
    return out

def conds(c, out):
    if c[0] in ('lt', 'eq') and isP(c[1]):
        p = c[1]
        if p[1][0][1] < 0: p = neg(p)
        out.add(T._content(p))
    elif c[0] == 'not': conds(c[1], out)
    elif c[0] == 'and':
        for x in c[1]: conds(x, out)
    elif c[0] in ('true', 'false'): pass
    else: out.add(('cond', c))

def assume(p, s):
    """rewriting that fixes the sign of p"""
    if not isP(p):
        return lambda a: (TRUE if s else FALSE) if a == p[1] else None
    n = neg(p)
    lin = None
    if s == 0:
        for m, c in p[1]:
            if len(m) == 1 and m[0][1] in (1, -1) and m[0][0][0] in ('ad', 'pd', 'sym', 'fn'):
                x = m[0][0]
                rest = sub(p, mul(num(c), atom(x) if m[0][1] == 1 else inv(atom(x))))
                if x not in T.atoms(rest):
                    v = mul(num(-1 / c), rest)
                    if m[0][1] == -1 and const_of(v) == 0: continue
                    lin = (x, v if m[0][1] == 1 else inv(v)); break
    def f(a):
        if a[0] == 'lt':
            q = T._content(a[1]) if isP(a[1]) else None
            if q == p: return TRUE if s < 0 else FALSE
            if q == n: return TRUE if s > 0 else FALSE
        if a[0] == 'eq' and isP(a[1]):
            q = T._content(a[1])
            if q == p or q == n: return TRUE if s == 0 else FALSE
        if lin is not None and a == lin[0]: return lin[1]
        return None
    return f

def assume_cond(c):
    """rewritings implied by a recording condition"""
    if callable(c): return [c]
    if c[0] == 'and':
        return [f for x in c[1] for f in assume_cond(x)]
    if c[0] == 'eq' and isP(c[1]): return [assume(T._content(c[1]), 0)]
    if c[0] == 'lt' and isP(c[1]): return [assume(T._content(c[1]), -1)]
    n = c_not(c)
    return [lambda a: TRUE if a == c else FALSE if a == n else None]

def simp(t, f):
    def g(a):
        v = f(a)
        if v is not None: return v
        if a[0] == 'ite':
            c = T.rewrite(a[1], f)
            if c == TRUE: return simp(a[2], f)
            if c == FALSE: return simp(a[3], f)
        return None
    return T.rewrite(t, g)

def is_place(a):
    return a[0] in ('loc', 'newloc', 'newploc') or (a[0] == 'fn' and a[1] == 'trunc')

def root(r):
    while isinstance(r, tuple) and r and r[0] == 'fld': r = r[1]
    return r[1] if isinstance(r, tuple) and r and r[0] == 'obj' else None

def distinct(a):
    """different location terms name different locations, different operand objects have different addresses"""
    if a[0] == 'eq' and isinstance(a[1], tuple) and a[1] and a[1][0] == 'pp':
        rs = [root(y[1]) for y in a[1][1:] if isinstance(y, tuple) and y and y[0] == 'ptr']
        if len(rs) == 2 and None not in rs and rs[0] != rs[1]: return FALSE
        if len(a[1]) == 3 and a[1][1] == a[1][2]: return TRUE
        return None
    if a[0] == 'eq' and isP(a[1]):
        for m, c in a[1][1]:
            if m == (): continue
            if len(m) != 1 or m[0][1] != 1 or not is_place(m[0][0]): return None
        return FALSE
    return None

def distinct_locs(a):
    """two different operand locations of a record are different"""
    if a[0] != 'eq' or not isP(a[1]) or len(a[1][1]) != 2: return None
    for m, c in a[1][1]:
        if len(m) != 1 or m[0][1] != 1 or not is_place(m[0][0]): return None
    return FALSE

def settle(t, fs):
    """expand gates and apply the assumptions until nothing changes"""
    def f(a):
        if is_place(a): return atom(a)
        for g in fs:
            v = g(a)
            if v is not None: return v
        return None
    for _ in range(12):
        n = toP(expand(t))
        if fs: n = toP(simp(n, f))
        if n == t: break
        t = n
    return t

def singular(t):
    """the term divides by zero"""
    for m, c in toP(t)[1]:
        for a, e in m:
            if a[0] == 'inv0': return True
            if e < 0:
                v = T.closed(atom(a))
                if v is not None and abs(v) < 1e-12: return True
            if a[0] == 'inv':
                v = T.closed(a[1])
                if v is not None and abs(v) < 1e-12: return True
    for a in T.atoms(t):
        if a[0] == 'inv0' or (a[0] == 'fn' and a[1] == 'pow' and const_of(a[2]) == 0): return True
    return False

def equal(a, b, given=(), depth=8, ok=(), ties=True, regular=False):
    """True | None (unmodelled value) | (region, a, b)
    ties=False leaves out regions where a gating polynomial vanishes;
    regular=True leaves out regions where b divides by zero"""
    fs = (distinct,) + tuple(f for c in given for f in assume_cond(c))
    return _eq(toP(a), toP(b), (), fs, depth, ok, ties, regular)

def empty(reg):
    """the signs assumed contradict each other"""
    zs = tuple(assume(p, s) for p, s in reg if isP(p) and s == 0)
    if not zs: return False
    for p, s in reg:
        if not isP(p) or s == 0: continue
        k = const_of(settle(p, zs))
        if k is not None and (k > 0) - (k < 0) != s: return True
    return False

def _eq(a, b, reg, fs, depth, ok=(), ties=True, regular=False):
    if len(reg) > 1 and empty(reg): return True
    a, b = settle(a, fs), settle(b, fs)
    if same(a, b): return True
    if regular and singular(b): return True
    g = set()
    gates(a, g); gates(b, g)
    if not g:
        if unknown((a, b), ok) is not None: return None
        return (reg, a, b)
    if depth == 0: return None
    # innermost gate first
    flat = [p for p in g if not any(x[0] in ('ite', 'bool') or (x[0] == 'fn' and x[1] in ('min', 'max', 'fabs', 'abs')) for x in T.atoms(p[1]))]
    p = min(flat or g, key=T.key)
    if isP(p): cases = (-1, 0, 1) if ties else (-1, 1)
    else: cases = (True, False)
    res = True
    for s in cases:
        r = _eq(a, b, reg + ((p, s),), fs + (assume(p, s),), depth - 1, ok, ties, regular)
        if r is None: res = None
        elif r is not True: return r
    return res

def show_region(reg):
    if not reg: return 'always'
    return ', '.join('%s %s' % (T.show(p if isP(p) else p[1]), ({-1: '< 0', 0: '== 0', 1: '> 0'} if isP(p) else {True: 'holds', False: 'fails'})[s]) for p, s in reg)

def regions(ts, given=(), ties=True, depth=6):
    """the sign regions of the conditions gating the terms: [(region, terms simplified in it)]; None when there are too many"""
    fs = (distinct,) + tuple(f for c in given for f in assume_cond(c))
    out = []
    def go(ts, reg, fs, depth):
        if len(reg) > 1 and empty(reg): return True
        ts = [settle(t, fs) for t in ts]
        g = set()
        for t in ts: gates(t, g)
        if not g:
            out.append((reg, ts)); return True
        if depth == 0: return False
        flat = [p for p in g if not any(x[0] in ('ite', 'bool') or (x[0] == 'fn' and x[1] in ('min', 'max', 'fabs', 'abs')) for x in T.atoms(p[1]))]
        p = min(flat or g, key=T.key)
        cases = ((-1, 0, 1) if ties else (-1, 1)) if isP(p) else (True, False)
        for s in cases:
            if not go(ts, reg + ((p, s),), fs + (assume(p, s),), depth - 1): return False
        return True
    return out if go([toP(t) for t in ts], (), fs, depth) else None
