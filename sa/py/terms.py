"""Hash-consed symbolic terms with a canonical Laurent-polynomial normal form.

Scalars are ('P', ((monomial, coef), ...)); a monomial is a sorted tuple of
(atom, exponent).  Everything that is not arithmetic is an opaque atom.  This is
the value domain of the value-numbering analyses: two program expressions get
the same number iff their normal forms coincide.
"""
from fractions import Fraction
from functools import lru_cache

class N(tuple):
    """interned normal form with cached hash and text (terms are shared DAGs)"""
    def __hash__(self):
        try: return self.h
        except AttributeError:
            self.h = h = tuple.__hash__(self)
            return h
    def __repr__(self):
        try: return self.r
        except AttributeError:
            self.r = r = tuple.__repr__(self)
            return r

_tab = {}
def mk(t):
    n = N(('P', t))
    return _tab.setdefault(n, n)

_key = {}
def key(x):
    k = _key.get(x)
    if k is None:
        k = repr(x)
        _key[x] = k
    return k

def _norm(d):
    return mk(tuple(sorted(((m, c) for m, c in d.items() if c != 0), key=lambda mc: key(mc[0]))))

def num(v):
    v = Fraction(v)
    return mk((((), v),)) if v != 0 else mk(())
ZERO = num(0)
ONE = num(1)

def atom(a):
    return mk(((((a, 1),), Fraction(1)),))

def isP(t):
    return isinstance(t, tuple) and len(t) == 2 and t[0] == 'P'

def toP(t):
    return t if isP(t) else atom(t)

def const_of(t):
    """Fraction if constant else None"""
    if isP(t):
        if not t[1]:
            return Fraction(0)
        if len(t[1]) == 1 and t[1][0][0] == ():
            return t[1][0][1]
    return None

def atom_of(t):
    """the atom if t is exactly one atom, else None"""
    if isP(t):
        if len(t[1]) == 1 and t[1][0][1] == 1 and len(t[1][0][0]) == 1 and t[1][0][0][0][1] == 1:
            return t[1][0][0][0][0]
        return None
    return t

def unP(t):
    a = atom_of(t)
    return a if a is not None else t

@lru_cache(maxsize=200000)
def add(a, b):
    a, b = toP(a), toP(b)
    d = dict(a[1])
    for m, c in b[1]:
        d[m] = d.get(m, 0) + c
    return _norm(d)

def neg(a):
    a = toP(a)
    return mk(tuple((m, -c) for m, c in a[1]))

def sub(a, b):
    return add(a, neg(b))

def _mm(m1, m2):
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda x: key(x[0])))

@lru_cache(maxsize=200000)
def mul(a, b):
    a, b = toP(a), toP(b)
    d = {}
    for m1, c1 in a[1]:
        for m2, c2 in b[1]:
            m = _mm(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return _norm(d)

@lru_cache(maxsize=100000)
def inv(a):
    a = toP(a)
    if len(a[1]) == 1:
        m, c = a[1][0]
        return mk(((tuple((x, -e) for x, e in m), 1 / c),))
    if not a[1]:
        return atom(('inv0',))
    # pull out content so that 1/(2x+2y) and 0.5/(x+y) coincide
    c = a[1][0][1]
    n = mk(tuple((m, cc / c) for m, cc in a[1]))
    return mul(num(1 / c), atom(('inv', n)))

def div(a, b):
    return mul(a, inv(b))

def fn(name, *args):
    """pure function application (as a P)"""
    args = tuple(toP(x) if not isinstance(x, str) else x for x in args)
    if name in ('fabs', 'trunc') and len(args) == 1:
        a = atom_of(args[0])          # location numbers are natural numbers
        if a is not None and a[0] in ('loc', 'newloc', 'newploc'): return args[0]
    return atom(('fn', name) + args)

# ---- conditions ---------------------------------------------------------
TRUE = ('true',)
FALSE = ('false',)

def _content(p):
    """positive scaling: make the leading coefficient +-1"""
    if not p[1]:
        return p
    c = abs(p[1][0][1])
    return mk(tuple((m, k / c) for m, k in p[1]))

import math as _math
_NUMFN = {'sqrt': _math.sqrt, 'exp': _math.exp, 'log': _math.log, 'sin': _math.sin, 'cos': _math.cos, 'tan': _math.tan,
          'acos': _math.acos, 'asin': _math.asin, 'atan': _math.atan, 'fabs': abs, 'abs': abs, 'log10': _math.log10, 'pow': _math.pow, 'cbrt': lambda x: _math.copysign(abs(x) ** (1 / 3), x)}
@lru_cache(maxsize=20000)
def closed(p):
    """float value of a term without unknowns, or None"""
    if not isP(p): return None
    r = 0.0
    for m, c in p[1]:
        v = float(c)
        for a, e in m:
            if a[0] == 'fn' and a[1] in _NUMFN:
                xs = [closed(x) for x in a[2:]]
                if any(x is None for x in xs): return None
                try: b = _NUMFN[a[1]](*xs)
                except (ValueError, OverflowError): return None
            elif a[0] == 'inv':
                b = closed(a[1])
                if not b: return None
                b = 1 / b
            else: return None
            try: v *= b ** e
            except (ZeroDivisionError, OverflowError): return None
        r += v
    return r

def c_lt0(p):
    k = const_of(p)
    if k is not None:
        return TRUE if k < 0 else FALSE
    k = closed(p)
    if k is not None and abs(k) > 1e-9: return TRUE if k < 0 else FALSE
    return ('lt', _content(p))

def c_eq0(p):
    k = const_of(p)
    if k is not None:
        return TRUE if k == 0 else FALSE
    k = closed(p)
    if k is not None and abs(k) > 1e-9: return FALSE
    p = _content(p)
    if p[1][0][1] < 0:
        p = neg(p)
    return ('eq', p)

def c_not(c):
    if c == TRUE: return FALSE
    if c == FALSE: return TRUE
    if c[0] == 'not': return c[1]
    return ('not', c)

def _flat(op, cs):
    out = []
    for c in cs:
        if c[0] == op: out += list(c[1])
        else: out.append(c)
    return out

def c_and(*cs):
    cs = [c for c in _flat('and', cs) if c != TRUE]
    if any(c == FALSE for c in cs): return FALSE
    s = sorted(set(cs), key=key)
    for c in s:
        if c_not(c) in s: return FALSE
    if not s: return TRUE
    if len(s) == 1: return s[0]
    return ('and', tuple(s))

def c_or(*cs):
    return c_not(c_and(*[c_not(c) for c in cs]))

def cmp(op, a, b):
    if op == '<': return c_lt0(sub(a, b))
    if op == '>': return c_lt0(sub(b, a))
    if op == '<=': return c_not(c_lt0(sub(b, a)))
    if op == '>=': return c_not(c_lt0(sub(a, b)))
    if op == '==': return c_eq0(sub(a, b))
    if op == '!=': return c_not(c_eq0(sub(a, b)))
    raise ValueError(op)

def truth(t):
    """condition for a scalar used as a truth value"""
    if not isP(t):
        if t[0] in ('true', 'false', 'lt', 'eq', 'not', 'and'):
            return t
        if t[0] == 'null':
            return FALSE
        if t[0] == 'ptr':
            return TRUE
    k = const_of(t) if isP(t) else None
    if k is not None:
        return TRUE if k != 0 else FALSE
    a = atom_of(t)
    if a is not None and a[0] == 'bool':
        return a[1]
    return c_not(c_eq0(toP(t)))

def boolval(c):
    if c == TRUE: return ONE
    if c == FALSE: return ZERO
    return atom(('bool', c))

def ite(c, a, b):
    if a == b: return a
    if c == TRUE: return a
    if c == FALSE: return b
    if c[0] == 'not':
        c, a, b = c[1], b, a
    if isP(a) or isP(b):
        a, b = toP(a), toP(b)
        # max/min idiom: the tie does not matter
        if c[0] == 'lt':
            d = sub(a, b)
            pos = _content(d)
            if c[1] == pos:      # (a-b<0)? a : b
                return fn('min', *sorted((a, b), key=key))
            if c[1] == neg(pos):
                return fn('max', *sorted((a, b), key=key))
        return atom(('ite', c, a, b))
    return ('ite', c, a, b)

# ---- traversal ------------------------------------------------------------
def atoms(t, out=None):
    """all atoms (recursively, including inside function arguments and conditions)"""
    if out is None: out = set()
    _walk(t, out)
    return out

def _walk(t, out):
    if not isinstance(t, tuple):
        return
    if isP(t):
        for m, _ in t[1]:
            for a, _e in m:
                if a not in out:
                    out.add(a)
                    for x in a[1:]:
                        _walk(x, out)
        return
    if t and isinstance(t[0], str):
        if t not in out:
            out.add(t)
            for x in t[1:]:
                _walk(x, out)
        return
    for x in t:
        _walk(x, out)

_SUBST_CACHE = {}
def rewrite(t, f, memo=None):
    """bottom-up rewrite; f(atom) -> replacement term (P or non-P) or None"""
    if memo is None: memo = {}
    return _rw(t, f, memo)

def _rw(t, f, memo):
    if not isinstance(t, tuple) or not t:
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if isP(t):
        changed = False
        keep, rest = [], []
        for mc in t[1]:
            same = True
            for a, e in mc[0]:
                if _rw(a, f, memo) != a: same = False
            (keep if same else rest).append(mc)
        if not rest: r = t
        else:
            acc = mk(tuple(keep))
            for m, c in rest:
                term = num(c)
                for a, e in m:
                    na = _rw(a, f, memo)
                    base = atom(a) if na == a else toP(na)
                    for _ in range(abs(e)):
                        term = mul(term, base if e > 0 else inv(base))
                acc = add(acc, term)
            r = acc
        memo[t] = r
        return r
    if not isinstance(t[0], str):
        r = tuple(_rw(x, f, memo) for x in t)
        memo[t] = r
        return r
    h = t[0]
    v = f(t)
    if v is not None:
        memo[t] = v
        return v
    args = tuple(_rw(x, f, memo) if isinstance(x, tuple) else x for x in t[1:])
    if args == t[1:]:
        memo[t] = t
        return t
    r = rebuild(h, args)
    memo[t] = r
    return r

def table_row(v):
    """row pointer of a table the function allocated itself (never null)"""
    if not isP(v): v = toP(v)
    for m, c in v[1]:
        if len(m) == 1 and m[0][1] == 1 and c == 1:
            a = m[0][0]
            if a[0] == 'ld' and isinstance(a[1], tuple) and a[1][0] == 'heap' and a[1][-1] in ('myalloc2', 'myalloc3'): return True
    return False

def rebuild(h, args):
    if h == 'ite': return ite(*args) if not (isP(args[1]) and isP(args[2])) else unP(ite(*args))
    if h == 'lt': return c_lt0(toP(args[0]))
    if h == 'eq':
        if isP(args[0]): return c_eq0(toP(args[0]))
        if args[0][0] == 'pp' and ('null',) in args[0][1:]:
            for y in args[0][1:]:
                if y != ('null',) and (y[0] == 'ptr' or table_row(y)): return FALSE
                if y != ('null',) and isP(y) and len(y[1]) == 2 and any(len(m) == 1 and m[0][0][0] == 'ptr' for m, c in y[1]): return FALSE
        return ('eq',) + args
    if h == 'not': return c_not(args[0])
    if h == 'and': return c_and(*args[0])
    if h == 'bool': return unP(boolval(args[0]))
    if h == 'inv': return unP(inv(args[0]))
    if h == 'fn' and args[0] in ('min', 'max'):
        a = sorted((toP(args[1]), toP(args[2])), key=key)
        if a[0] == a[1]: return unP(a[0])
        return ('fn', args[0], a[0], a[1])
    if h == 'or': return unP(bor(*args[0]))
    if h == 'fn' and args[0] in ('fabs', 'trunc'): return unP(fn(*args))
    return (h,) + args

def bor(*xs):
    s = set()
    for x in xs:
        x = unP(x)
        if isinstance(x, tuple) and x[0] == 'or':
            s |= set(x[1])
        elif isP(x) and const_of(x) == 0:
            pass
        else:
            s.add(x)
    if not s: return ZERO
    if len(s) == 1: return toP(next(iter(s)))
    return atom(('or', tuple(sorted(s, key=key))))

def subst(t, mp):
    """mp: atom -> term"""
    return rewrite(t, lambda a: mp.get(a))

def show(t, d=0):
    if not isinstance(t, tuple): return str(t)
    if d > 14: return '...'
    if isP(t):
        if not t[1]: return '0'
        out = []
        for m, c in t[1]:
            s = '*'.join((show(a, d + 1) + ('^%d' % e if e != 1 else '')) for a, e in m)
            if not s: s = str(c if c.denominator == 1 else float(c))
            elif c == -1: s = '-' + s
            elif c != 1: s = str(c if c.denominator == 1 else float(c)) + '*' + s
            out.append(s)
        return '(' + ' + '.join(out) + ')' if len(out) > 1 else out[0]
    if not t: return '()'
    h = t[0]
    if not isinstance(h, str): return '[' + ', '.join(show(x, d + 1) for x in t) + ']'
    if h == 'fn': return '%s(%s)' % (t[1], ', '.join(show(x, d + 1) for x in t[2:]))
    if h == 'ite': return '(%s ? %s : %s)' % tuple(show(x, d + 1) for x in t[1:])
    if h == 'lt': return '%s<0' % show(t[1], d + 1)
    if h == 'eq': return '%s==0' % show(t[1], d + 1)
    if h == 'not': return '!(%s)' % show(t[1], d + 1)
    if h == 'and': return '(' + ' && '.join(show(x, d + 1) for x in t[1]) + ')'
    if h == 'or': return '(' + ' | '.join(show(x, d + 1) for x in t[1]) + ')'
    if h == 'inv': return '1/%s' % show(t[1], d + 1)
    if h == 'ld': return '%s[%s]' % (show(t[1], d + 1), show(t[2], d + 1))
    if h == 'at': return '*%s' % show(t[1], d + 1)
    if h == 'ptr': return '&%s[%s]' % (show(t[1], d + 1), show(t[2], d + 1))
    if len(t) == 1: return h
    return h + '(' + ','.join(show(x, d + 1) for x in t[1:]) + ')'
