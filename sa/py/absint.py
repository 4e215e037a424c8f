"""Gated value numbering over the resolved syntax tree.

A structured abstract interpretation: straight-line code is value-numbered,
conditionals merge into gated (phi) values, loops are summarised by one generic
iteration (induction variables in closed form, reductions as sums, everything
else as a mu-term).  No path enumeration and no solver: each statement is
transferred once per enclosing-loop pass.
"""
import re
from fractions import Fraction
import terms as T
from terms import (ZERO, ONE, num, atom, atom_of, isP, toP, add, sub, mul, div, neg, ite,
                   const_of, c_not, c_and, TRUE, FALSE, truth, boolval, unP)

class Unsupported(Exception):
    pass

NULL = ('null',)
SELF_TU = ('tu',)

class State:
    __slots__ = ('mem', 'env', 'events', 'assume', 'wlog', 'rng', 'prefix', 'news')
    def __init__(self):
        self.mem = {}
        self.env = {}
        self.events = []
        self.assume = ()
        self.wlog = set()
        self.rng = {}
        self.prefix = ()
        self.news = set()
    def copy(self):
        s = State()
        s.mem = dict(self.mem); s.env = dict(self.env); s.events = list(self.events)
        s.assume = self.assume; s.wlog = set(self.wlog); s.rng = dict(self.rng)
        s.prefix = self.prefix; s.news = set(self.news)
        return s

class Flow:
    """outcomes of a statement: n (fallthrough state), others: list of (kind, gate, state, value)"""
    __slots__ = ('n', 'ex')
    def __init__(self, n, ex=()):
        self.n = n
        self.ex = list(ex)

def cell(region, off=ZERO):
    return ('cell', region, toP(off))

MATH = {'sin', 'cos', 'tan', 'exp', 'log', 'sqrt', 'cbrt', 'asin', 'acos', 'atan', 'asinh', 'acosh',
        'atanh', 'erf', 'erfc', 'ceil', 'floor', 'fabs', 'abs', 'pow', 'trunc', 'log10', 'sinh', 'cosh',
        'tanh', 'fmin', 'fmax', 'atan2', 'ldexp', 'hypot', 'isnan', 'isinf', 'round'}

table_row = T.table_row

def split_gate(p):
    """(condition, p when it holds, p when not) for the first gated summand of p"""
    for m, c in p[1]:
        if len(m) == 1 and m[0][1] == 1 and m[0][0][0] == 'ite':
            a = m[0][0]
            if not (isP(a[2]) and isP(a[3])): continue
            r = sub(p, mul(num(c), atom(a)))
            return a[1], add(r, mul(num(c), a[2])), add(r, mul(num(c), a[3]))
    return None

class Interp:
    folds = ()           # functions from a condition to its known truth or None (see equal.distinct)
    def __init__(self, prog, tu, prims=None, max_inline=24, opaque=None):
        self.prog, self.tu = prog, tu
        self.prims = prims or {}
        self.stack = []
        self.seq = 0
        self.depth = 0       # loop depth
        self.loopN = {}
        self.max_inline = max_inline
        self.recursion = 2
        self.opaque = opaque or (lambda q: False)
        self.cur = None
        self.notes = []
        self.exits = []      # (kind, line, assume, info)
        self.fresh_n = 0

    # ---------------------------------------------------------------- memory
    def load(self, st, lv):
        if lv[0] == 'itelv':
            return ite(lv[1], self.load(st, lv[2]), self.load(st, lv[3]))
        k = (lv[1], lv[2])
        v = st.mem.get(k)
        if v is not None:
            N = st.rng.get(k)
            if N is not None:
                d, n = N
                if self.loopN.get(d) is not None and self.loopN[d] != n:
                    return atom(('mixld', lv[1], lv[2]))
            return v
        return self.initial(st, lv)

    def initial(self, st, lv):
        h = getattr(self, 'init_hook', None)
        if h is not None:
            v = h(st, lv)
            if v is not None:
                return v
        return atom(('ld', lv[1], lv[2]))

    def store(self, st, lv, v):
        if lv[0] == 'itelv':
            self.store(st, lv[2], ite(lv[1], v, self.load(st, lv[2])))
            self.store(st, lv[3], ite(lv[1], self.load(st, lv[3]), v))
            return
        k = (lv[1], lv[2])
        st.mem[k] = v
        st.wlog.add(k)
        st.rng.pop(k, None)
        h = getattr(self, 'store_hook', None)
        if h is not None:
            h(st, lv, v)

    def deref(self, v):
        """pointer value -> lvalue"""
        if isP(v):
            a = atom_of(v)
            if a is None:
                s = split_gate(v)
                if s is not None: return ('itelv', s[0], self.deref(s[1]), self.deref(s[2]))
                # atom + offset: pointer arithmetic on an opaque pointer
                ptrs = [(m, c) for m, c in v[1] if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0][0] in ('ld', 'call', 'ite', 'mcall', 'phi', 'sym', 'mu')]
                if len(ptrs) >= 1:
                    m = ptrs[0][0]
                    b = m[0][0]
                    return cell(('at', b), sub(v, atom(b)))
                return cell(('at', v), ZERO)
            v = a
        if v[0] == 'ptr':
            return cell(v[1], v[2])
        if v[0] == 'lv':
            return v[1]
        if v[0] == 'ite':
            return ('itelv', v[1], self.deref(v[2]), self.deref(v[3]))
        return cell(('at', v), ZERO)

    def ptr_add(self, v, off):
        if not isP(v):
            if v[0] == 'ptr':
                return ('ptr', v[1], add(v[2], off))
            if v[0] == 'ite':
                return ite(v[1], self.ptr_add(v[2], off), self.ptr_add(v[3], off))
            v = toP(v)
        return add(v, off)

    def newseq(self):
        self.seq += 1
        return self.seq

    # ---------------------------------------------------------------- helpers
    def decl(self, id):
        return self.tu.decls[id]
    def dkey(self, id):
        return (self.tu.path, id)
    def where(self, l):
        return self.tu.loc(l)

    def ev(self, st, e):
        st.events.append(e)

    def lv_of_var(self, st, id):
        k = self.dkey(id)
        lv = st.env.get(k)
        if lv is None:
            d = self.decl(id)
            if d['k'] in ('global', 'static'):
                lv = cell(('glob', d['q']))
            else:
                lv = cell(('unbound', d['n']))
            st.env[k] = lv
        return lv

    def is_array(self, t):
        return t is not None and '[' in t and '(' not in t and '<' not in t.split('[')[0]

    def lval(self, e, st):
        k = e[0]
        if k == 'ref':
            return self.lv_of_var(st, e[2])
        if k == 'bindref':
            return self.lval(e[3], st)
        if k == 'mem':
            if e[5]:
                b = self.deref(self.ev_val(e[2], st))
            else:
                b = self.lval(e[2], st)
            return self.field(st, b, e[3], e[6])
        if k == 'idx':
            p = self.ev_val(e[2], st)
            i = toP(self.ev_val(e[3], st))
            return self.deref(self.ptr_add(p, i))
        if k == 'un':
            if e[2] == '*':
                return self.deref(self.ev_val(e[3], st))
            if e[2] in ('++', '--'):
                lv = self.lval(e[3], st)
                v = self.load(st, lv)
                self.store(st, lv, self.ptr_add(v, num(1 if e[2] == '++' else -1)))
                return lv
        if k == 'asg':
            self.ev_val(e, st)
            return self.lval_pure(e[3], st)
        if k == 'cast':
            return self.lval(e[4], st)
        if k == 'cond':
            c = self.cond(e[2], st)
            if c == TRUE: return self.lval(e[3], st)
            if c == FALSE: return self.lval(e[4], st)
            return ('itelv', c, self.lval(e[3], st), self.lval(e[4], st))
        if k == 'bin' and e[2] == ',':
            self.ev_val(e[3], st)
            return self.lval(e[4], st)
        if k == 'this':
            return self.deref(self.ev_val(e, st))
        v = self.ev_val(e, st, want_lv=True)
        if isinstance(v, tuple) and v and v[0] == 'lv':
            return v[1]
        if isinstance(v, tuple) and v and v[0] == 'objv':
            return v[1]
        # materialise
        r = cell(('tmp', self.newseq()))
        st.news.add(r[1])
        st.mem[(r[1], r[2])] = v
        return r

    def lval_pure(self, e, st):
        """lvalue of an already evaluated assignment target, without repeating ++"""
        if e[0] == 'un' and e[2] in ('++', '--'):
            return self.lval(e[3], st)
        if e[0] == 'un' and e[2] == '*' and e[3][0] == 'un' and e[3][2] in ('p++', 'p--'):
            lv = self.lval(e[3][3], st)
            v = self.load(st, lv)
            return self.deref(self.ptr_add(v, num(-1 if e[3][2] == 'p++' else 1)))
        return self.lval(e, st)

    def field(self, st, b, name, t=None):
        if b[0] == 'itelv':
            return ('itelv', b[1], self.field(st, b[2], name, t), self.field(st, b[3], name, t))
        r = cell(('fld', b[1], b[2], name))
        if t and t.endswith('&'):
            return self.deref_ref(st, r)
        return r

    def deref_ref(self, st, r):
        v = st.mem.get((r[1], r[2]))
        if v is not None and not isP(v) and v[0] == 'lv':
            return v[1]
        return cell(('at', ('ld', r[1], r[2])))

    # ---------------------------------------------------------------- conditions
    def cond(self, e, st):
        v = self.cond0(e, st)
        return self.simp(v, st)

    def positive(self, p, st):
        """p > 0 because it is a maximum with something positive"""
        k = const_of(p)
        if k is not None: return k > 0
        if T.c_lt0(T.neg(p)) in st.assume: return True
        a = atom_of(p)
        if a is not None and a[0] == 'fn' and a[1] in ('max', 'fmax'): return any(self.positive(toP(x), st) for x in a[2:])
        return False
    def simp(self, c, st):
        if c in (TRUE, FALSE): return c
        if c in st.assume: return TRUE
        if c_not(c) in st.assume: return FALSE
        if c[0] == 'eq' and self.positive(c[1], st): return FALSE
        if c[0] == 'lt' and (self.positive(c[1], st) or T.c_lt0(T.neg(c[1])) in st.assume or T.c_eq0(c[1]) in st.assume): return FALSE
        for f in self.folds:
            v = f(c)
            if v is not None: return v
        if c[0] in ('eq', 'lt') and isP(c[1]):
            s = split_gate(c[1])
            if s is not None:
                mk = T.c_eq0 if c[0] == 'eq' else T.c_lt0
                x, y = self.simp(mk(s[1]), st), self.simp(mk(s[2]), st)
                if x == y and x in (TRUE, FALSE): return x
                if x == TRUE and y == FALSE: return self.simp(s[0], st)
                if x == FALSE and y == TRUE: return self.simp(c_not(s[0]), st)
        if c[0] == 'and':
            out = []
            for x in c[1]:
                y = self.simp(x, st)
                if y == FALSE: return FALSE
                if y != TRUE: out.append(y)
            return c_and(*out)
        if c[0] == 'not' and c[1][0] in ('and', 'eq', 'lt'):
            return c_not(self.simp(c[1], st))
        return c

    def cond0(self, e, st):
        if e[0] == 'bin' and e[2] in ('&&', '||'):
            a = self.cond(e[3], st)
            op = e[2]
            if op == '&&' and a == FALSE: return FALSE
            if op == '||' and a == TRUE: return TRUE
            g = a if op == '&&' else c_not(a)
            if g == TRUE: return self.cond(e[4], st)
            s2 = st.copy()
            s2.assume = st.assume + (g,)
            b = self.cond(e[4], s2)
            if s2.wlog != st.wlog or len(s2.events) != len(st.events) or s2.mem != st.mem:
                s1 = st.copy()
                m = self.merge(g, s2, s1)
                self.assign_state(st, m)
            return c_and(a, b) if op == '&&' else T.c_or(a, b)
        if e[0] == 'un' and e[2] == '!':
            return c_not(self.cond(e[3], st))
        if e[0] == 'bin' and e[2] in ('<', '>', '<=', '>=', '==', '!='):
            a = self.ev_val(e[3], st); b = self.ev_val(e[4], st)
            return self.compare(e[2], a, b)
        if e[0] == 'cast' and e[2] in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean', 'IntegralCast'):
            return self.cond(e[4], st)
        return self.truth(self.ev_val(e, st))

    def truth(self, v):
        if table_row(v): return TRUE
        a = atom_of(v) if isP(v) else v
        if a is not None and a[0] == 'ite' and any(x == NULL or (not isP(x) and x[0] in ('ptr', 'ite')) or table_row(x) for x in a[2:]):
            return self.compare('!=', v, NULL)
        return truth(v)

    def compare(self, op, a, b):
        def isptr(x): return not isP(x) and x[0] in ('ptr', 'null', 'ite', 'lv', 'objv', 'fnref', 'lambda', 'str')
        if isptr(a) or isptr(b):
            if a == b:
                return TRUE if op in ('==', '<=', '>=') else FALSE
            for x, y in ((a, b), (b, a)):
                if x == NULL and op in ('==', '!='):
                    if isP(y) and len(y[1]) == 2:
                        # (c ? p : q) + k
                        for m, c in y[1]:
                            if len(m) == 1 and m[0][1] == 1 and c == 1 and m[0][0][0] == 'ite':
                                i, k = m[0][0], sub(y, atom(m[0][0]))
                                if const_of(k) is not None:
                                    arms = [v if v == NULL else ('ptr', v[1], add(v[2], k)) if not isP(v) and v[0] == 'ptr' else add(v, k) if isP(v) else None for v in (T.unP(i[2]), T.unP(i[3]))]
                                    if None not in arms: y = ('ite', i[1], arms[0], arms[1])
                                break
                    z = atom_of(y) if isP(y) else y
                    if z is not None and z[0] == 'ite' and any(v == NULL or (not isP(v) and v[0] in ('ptr', 'ite')) or table_row(v) for v in z[2:]):
                        c1, c2 = self.compare(op, z[2], NULL), self.compare(op, z[3], NULL)
                        return T.c_or(c_and(z[1], c1), c_and(c_not(z[1]), c2))
                    if table_row(y): return TRUE if op == '!=' else FALSE
                if x == NULL and not isP(y) and y[0] in ('ptr', 'str', 'fnref'):
                    return TRUE if op == '!=' else FALSE
            if not isP(a) and not isP(b) and a[0] == 'ptr' and b[0] == 'ptr' and a[1] == b[1]:
                return T.cmp(op, a[2], b[2])
            x, y = sorted((unP(a), unP(b)), key=T.key)
            if op == '==': return ('eq', ('pp', x, y))
            if op == '!=': return c_not(('eq', ('pp', x, y)))
            return ('lt', ('pp', op, unP(a), unP(b)))
        return T.cmp(op, toP(a), toP(b))

    def assign_state(self, st, m):
        for s in State.__slots__:
            setattr(st, s, getattr(m, s))

    # ---------------------------------------------------------------- merge
    def merge(self, c, a, b):
        if c == TRUE: return a
        if c == FALSE: return b
        m = State()
        for k in a.mem.keys() | b.mem.keys():
            va = a.mem.get(k); vb = b.mem.get(k)
            if va is None: va = self.load(a, ('cell',) + k) if self._live(a, k) else vb
            if vb is None: vb = self.load(b, ('cell',) + k) if self._live(b, k) else va
            m.mem[k] = va if va == vb else ite(c, va, vb)
            if k in a.rng or k in b.rng:
                m.rng[k] = a.rng.get(k) or b.rng.get(k)
        m.env = dict(b.env); m.env.update(a.env)
        for k in a.env.keys() & b.env.keys():
            if a.env[k] != b.env[k]:
                m.env[k] = ('itelv', c, a.env[k], b.env[k])
        i = 0
        ea, eb = a.events, b.events
        while i < len(ea) and i < len(eb) and ea[i] == eb[i]:
            i += 1
        ta, tb = tuple(ea[i:]), tuple(eb[i:])
        # common suffix
        m.events = list(ea[:i])
        if ta or tb:
            m.events.append(('br', c, ta, tb))
        aset = set(b.assume)
        m.assume = tuple(x for x in a.assume if x in aset)
        m.wlog = a.wlog | b.wlog
        m.prefix = a.prefix
        m.news = a.news | b.news
        return m

    def _live(self, st, k):
        r = k[0]
        # a local created only on the other side has no meaning here
        while isinstance(r, tuple) and r and r[0] == 'fld':
            r = r[1]
        if isinstance(r, tuple) and r and r[0] in ('var', 'tmp'):
            return r in st.news
        return True

    # ---------------------------------------------------------------- expressions
    def ev_val(self, e, st, want_lv=False):
        k = e[0]
        m = getattr(self, 'e_' + k, None)
        if m is None:
            raise Unsupported('expression kind %s at %s' % (k, self.where(e[1])))
        return m(e, st) if k not in ('call', 'mcall', 'pcall', 'ctor', 'cond') else m(e, st, want_lv)

    def e_int(self, e, st): return num(e[2])
    def e_enum(self, e, st): return num(e[3])
    def e_sizeof(self, e, st): return num(e[3])
    def e_flt(self, e, st):
        try:
            return num(Fraction(e[2]))
        except Exception:
            return atom(('fltlit', e[2]))
    def e_str(self, e, st): return ('str', e[2])
    def e_null(self, e, st): return NULL
    def e_zero(self, e, st): return ZERO
    def e_fn(self, e, st): return ('fnref', e[2], e[3])
    def e_this(self, e, st):
        return st.env.get('this', atom(('this',)))
    def e_lambda(self, e, st): return ('lambda', e[2])
    def e_throw(self, e, st):
        if e[2] is not None: self.ev_val(e[2], st)
        self.exits.append(('throw', self.where(e[1]), st.assume, None))
        raise Dead()
    def e_ref(self, e, st):
        d = self.decl(e[2])
        if 'cv' in d:
            return num(d['cv'])
        lv = self.lv_of_var(st, e[2])
        if self.is_array(d['t']) and d['k'] != 'param':
            return ('ptr', lv[1], lv[2])
        return self.load(st, lv)
    def e_bindref(self, e, st): return self.load(st, self.lval(e, st))
    def e_mem(self, e, st):
        lv = self.lval(e, st)
        if self.is_array(e[6]) and lv[0] == 'cell':
            return ('ptr', ('arr', lv[1], lv[2]), ZERO)
        return self.load(st, lv)
    def e_idx(self, e, st):
        lv = self.lval(e, st)
        return self.load(st, lv)
    def e_un(self, e, st):
        op = e[2]
        if op == '*': return self.load(st, self.deref(self.ev_val(e[3], st)))
        if op == '&':
            if e[3][0] == 'fn': return self.ev_val(e[3], st)
            lv = self.lval(e[3], st)
            return self.addr(lv)
        if op == '-': return neg(toP(self.ev_val(e[3], st)))
        if op == '+': return self.ev_val(e[3], st)
        if op == '!': return boolval(c_not(self.cond(e[3], st)))
        if op == '~': return T.fn('~', toP(self.ev_val(e[3], st)))
        if op in ('++', '--', 'p++', 'p--'):
            lv = self.lval(e[3], st)
            v = self.load(st, lv)
            n = self.ptr_add(v, num(1 if '+' in op else -1))
            self.store(st, lv, n)
            return v if op[0] == 'p' else n
        if op == '__extension__': return self.ev_val(e[3], st)
        raise Unsupported('unary ' + op)
    def addr(self, lv):
        if lv[0] == 'itelv':
            return ('ite', lv[1], self.addr(lv[2]), self.addr(lv[3]))
        if lv[1][0] == 'at' and lv[2] == ZERO:
            return toP(lv[1][1]) if not isP(lv[1][1]) and lv[1][1][0] not in ('ptr',) else lv[1][1]
        return ('ptr', lv[1], lv[2])
    def arith(self, op, a, b):
        if op in ('+', '-'):
            pa = not isP(a) and a[0] in ('ptr', 'ite'); pb = not isP(b) and b[0] in ('ptr', 'ite')
            if pa and not pb:
                return self.ptr_add(a, toP(b) if op == '+' else neg(toP(b)))
            if pb and not pa and op == '+':
                return self.ptr_add(b, toP(a))
            if pa and pb and op == '-':
                if a[0] == 'ptr' and b[0] == 'ptr' and a[1] == b[1]:
                    return sub(a[2], b[2])
                return atom(('ptrdiff', a, b))
            return add(toP(a), toP(b)) if op == '+' else sub(toP(a), toP(b))
        a, b = toP(a), toP(b)
        if op == '*': return mul(a, b)
        if op == '|': return T.bor(a, b)
        if op in ('&', '^'):
            x, y = sorted((a, b), key=T.key)
            return T.fn(op, x, y)
        if op in ('<<', '>>', '%'): 
            ca, cb = const_of(a), const_of(b)
            if ca is not None and cb is not None and ca.denominator == 1 and cb.denominator == 1 and cb >= 0:
                if op == '<<': return num(int(ca) << int(cb))
                if op == '>>': return num(int(ca) >> int(cb))
                if cb: return num(int(ca) % int(cb))
            return T.fn(op, a, b)
        raise Unsupported('binary ' + op)
    def e_bin(self, e, st):
        op = e[2]
        if op == ',':
            self.ev_val(e[3], st)
            return self.ev_val(e[4], st)
        if op in ('&&', '||', '<', '>', '<=', '>=', '==', '!='):
            return boolval(self.cond(e, st))
        a = self.ev_val(e[3], st)
        b = self.ev_val(e[4], st)
        if op == '/':
            if len(e) > 5 and e[5] in ('int', 'unsigned int', 'long', 'unsigned long', 'short', 'size_t', 'unsigned short', 'long long', 'unsigned long long'):
                ca, cb = const_of(toP(a)), const_of(toP(b))
                if ca is not None and cb: return num(int(ca / cb))
                return T.fn('idiv', toP(a), toP(b))
            return div(toP(a), toP(b))
        return self.arith(op, a, b)
    def e_asg(self, e, st):
        op = e[2]
        if op == '=':
            v = self.ev_val(e[4], st)
            lv = self.lval(e[3], st)
            if isinstance(v, tuple) and v and v[0] == 'objv':
                v = ('lv', v[1])
            self.store(st, lv, v)
            return v
        r = self.ev_val(e[4], st)
        lv = self.lval(e[3], st)
        old = self.load(st, lv)
        o = op[:-1]
        if o == '/':
            v = div(toP(old), toP(r))
        else:
            v = self.arith(o, old, r)
        self.store(st, lv, v)
        return v
    def e_cond(self, e, st, want_lv=False):
        c = self.cond(e[2], st)
        if c == TRUE: return self.ev_val(e[3], st)
        if c == FALSE: return self.ev_val(e[4], st)
        s1, s2 = st.copy(), st.copy()
        s1.assume += (c,); s2.assume += (c_not(c),)
        v1 = v2 = None
        try: v1 = self.ev_val(e[3], s1)
        except Dead: s1 = None
        try: v2 = self.ev_val(e[4], s2)
        except Dead: s2 = None
        if s1 is None and s2 is None: raise Dead()
        if s1 is None:
            self.assign_state(st, s2); return v2
        if s2 is None:
            self.assign_state(st, s1); return v1
        m = self.merge(c, s1, s2)
        self.assign_state(st, m)
        if v1 is None or v2 is None: return v1 if v2 is None else v2
        if any(isinstance(v, tuple) and v and v[0] in ('objv', 'lv') for v in (v1, v2)):
            g = lambda v, s: v[1] if v[0] in ('objv', 'lv') else self.lval_tmp(s, v)
            return ('objv', ('itelv', c, g(v1, st), g(v2, st)))
        return ite(c, v1, v2)
    def lval_tmp(self, st, v):
        r = cell(('tmp', self.newseq())); st.news.add(r[1])
        st.mem[(r[1], r[2])] = v
        return r
    def e_cast(self, e, st):
        v = self.ev_val(e[4], st)
        k = e[2]
        if k == 'FloatingToIntegral':
            p = toP(v)
            c = const_of(p)
            if c is not None: return num(int(c))
            a = atom_of(p)
            if a is not None and a[0] == 'fn' and a[1] in ('trunc', 'floor', 'ceil'): return p
            if a is not None and a[0] in ('bool',): return p
            return T.fn('trunc', p)
        if k in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'):
            return boolval(truth(v))
        if k == 'ToVoid': return ZERO
        return v
    def e_init(self, e, st):
        if len(e) == 4 and e[2] in ('double', 'int', 'unsigned long', 'bool', 'unsigned int', 'short', 'size_t', 'long'):
            return self.ev_val(e[3], st)
        if len(e) == 3 and not ('std::' in e[2]) and ('*' in e[2]):
            return NULL
        if len(e) == 3 and e[2] in ('double', 'int', 'unsigned long', 'bool', 'unsigned int', 'short'):
            return ZERO
        r = cell(('tmp', self.newseq())); st.news.add(r[1])
        c = self.prog.classes.get(e[2].replace('const ', ''))
        flds = c[0]['fields'] if c else None
        for i, x in enumerate(e[3:]):
            v = self.ev_val(x, st)
            if flds and i < len(flds):
                st.mem[(('fld', r[1], r[2], flds[i][0]), ZERO)] = v
            else:
                st.mem[(('arr', r[1], r[2]), num(i))] = v
        return ('objv', r)
    def e_stmtexpr(self, e, st):
        f = self.exec(e[2], st)
        if f.n is None: raise Dead()
        self.assign_state(st, f.n)
        return ZERO
    def e_new(self, e, st):
        n = self.ev_val(e[4], st) if e[4] else ONE
        i = self.newseq()
        self.ev(st, ('new', e[2], e[3], n, i)) if getattr(self, 'track_alloc', False) else None
        r = ('heap', i, e[2])
        if e[5] is not None and e[5][0] == 'ctor':
            f = self.prog.resolve(self.tu, e[5][3])
            if f is not None:
                self.construct(e[5], st, cell(r))
        return ('ptr', r, ZERO)
    def e_delete(self, e, st):
        v = self.ev_val(e[3], st)
        if getattr(self, 'track_alloc', False): self.ev(st, ('delete', e[2], v))
        return ZERO
    def e_other(self, e, st):
        vals = []
        for x in e[3:]:
            if isinstance(x, list):
                try: vals.append(self.ev_val(x, st))
                except Unsupported: pass
        return atom(('other', e[2]) + tuple(v for v in vals))

    # ---------------------------------------------------------------- calls
    def construct(self, e, st, lv):
        """run constructor expression e into object lv; True if interpreted"""
        if e[4] and len(e) == 6 and e[5][0] in ('call', 'mcall', 'ctor', 'cond'):
            # elidable copy
            return False
        f = self.prog.resolve(self.tu, e[3])
        q = None if f is None else f['q']
        if f is None or self.opaque(f['q']):
            return False
        p = self.prims.get(f['m']) or self.prims.get('ctor:' + f['q'])
        if p is not None:
            p(self, st, e, [lv] + e[5:])
            return True
        args = self.bind_args(f, e[5:], st)
        self.call_body(f, st, args, this=('ptr', lv[1], lv[2]) if lv[0] == 'cell' else ('ite', lv[1], self.addr(lv[2]), self.addr(lv[3])))
        return True

    def e_ctor(self, e, st, want_lv=False):
        if len(e) == 6 and (e[4] or e[2].replace('const ', '').startswith(self.ITER)):
            return self.ev_val(e[5], st, want_lv)
        lv = cell(('tmp', self.newseq()))
        st.news.add(lv[1])
        if self.construct(e, st, lv):
            return ('objv', lv)
        vals = [self.arg_val(x, st) for x in e[5:]]
        if len(vals) == 1 and vals[0] and isinstance(vals[0], tuple) and vals[0][0] in ('objv', 'lv'):
            return vals[0]
        return atom(('ctor', e[2]) + tuple(vals))

    def arg_val(self, x, st):
        return self.ev_val(x, st)

    def bind_args(self, f, xs, st):
        """evaluate args for callee f: list of ('ref', lv) / ('val', v)"""
        out = []
        ftu = f['tu']
        for i, x in enumerate(xs):
            if i < len(f['ps']):
                t = ftu.decls[f['ps'][i]]['t']
            else:
                t = ''
            if t.endswith('&'):
                out.append(('ref', self.lval(x, st)))
            else:
                v = self.ev_val(x, st)
                if isinstance(v, tuple) and v and v[0] == 'objv':
                    out.append(('ref', v[1]))
                elif isinstance(v, tuple) and v and v[0] == 'lv':
                    out.append(('ref', v[1]))
                else:
                    out.append(('val', v))
        return out

    def call_body(self, f, st, args, this=None):
        if len(self.stack) > self.max_inline or sum(1 for x in self.stack if x is f) >= self.recursion:
            raise Unsupported('inline depth at ' + f['q'])
        self.stack.append(f)
        savetu, savethis = self.tu, st.env.get('this')
        self.tu = f['tu']
        sassume = st.assume
        try:
            if this is not None:
                st.env['this'] = this
            for pid, a in zip(f['ps'], args):
                k = self.dkey(pid)
                if a[0] == 'ref':
                    st.env[k] = a[1]
                else:
                    lv = cell(('var', self.decl(pid)['n'], self.newseq()))
                    st.news.add(lv[1])
                    st.env[k] = lv
                    st.mem[(lv[1], lv[2])] = a[1]
            if 'inits' in f:
                tlv = self.deref(this)
                for nm, _w, ie in f['inits']:
                    if ie is None: continue
                    if nm == 'delegate' or nm.startswith('base:'):
                        if ie[0] == 'ctor': self.construct(ie, st, tlv)
                        continue
                    if self.ref_member(f['cls'], nm):
                        r = cell(('fld', tlv[1], tlv[2], nm))
                        st.mem[(r[1], r[2])] = ('lv', self.lval(ie, st))
                        continue
                    fl = self.field(st, tlv, nm)
                    if ie[0] == 'init' and len(ie) == 4: ie = ie[3]
                    if ie[0] == 'ctor':
                        if self.construct(ie, st, fl): continue
                        if len(ie) == 5: continue
                    v = self.ev_val(ie, st)
                    if isinstance(v, tuple) and v and v[0] == 'objv':
                        self.copy_obj(st, v[1], fl)
                    else:
                        self.store(st, fl, v)
            fl = self.exec(f['body'], st.copy())
            outs = []
            for kind, g, s, v in fl.ex:
                if kind == 'ret': outs.append((g, s, v))
            if fl.n is not None:
                outs.append((TRUE, fl.n, None))
            if not outs:
                raise Dead()
            g, s, v = outs[-1]
            for g2, s2, v2 in reversed(outs[:-1]):
                s = self.merge(g2, s2, s)
                v = self.merge_val(g2, v2, v, s)
            s.assume = tuple(x for x in s.assume) if len(outs) == 1 else sassume
            self.assign_state(st, s)
            return v
        finally:
            self.stack.pop()
            self.tu = savetu
            if savethis is not None: st.env['this'] = savethis
            else: st.env.pop('this', None)

    def ref_member(self, cls, name):
        """members of reference type are bound by constructors (only where an interpreter asks for it)"""
        return False

    def merge_val(self, g, a, b, st):
        if a is None: return b
        if b is None: return a
        if a == b: return a
        if isinstance(a, tuple) and a[0] in ('objv', 'lv') or isinstance(b, tuple) and b[0] in ('objv', 'lv'):
            x = a[1] if a[0] in ('objv', 'lv') else self.lval_tmp(st, a)
            y = b[1] if b[0] in ('objv', 'lv') else self.lval_tmp(st, b)
            return (a[0] if a[0] in ('objv', 'lv') else 'objv', ('itelv', g, x, y))
        return ite(g, a, b)

    def copy_obj(self, st, src, dst):
        if src[0] != 'cell' or dst[0] != 'cell':
            return
        for (r, o), v in list(st.mem.items()):
            nr = self._rebase(r, src, dst)
            if nr is not None:
                st.mem[(nr, o)] = v
        if (src[1], src[2]) in st.mem:
            st.mem[(dst[1], dst[2])] = st.mem[(src[1], src[2])]
    def _rebase(self, r, src, dst):
        if isinstance(r, tuple) and r and r[0] == 'fld':
            if r[1] == src[1] and r[2] == src[2]:
                return ('fld', dst[1], dst[2], r[3])
            x = self._rebase(r[1], src, dst)
            if x is not None: return ('fld', x, r[2], r[3])
        return None

    def e_call(self, e, st, want_lv=False):
        q, m, rt, xs = e[2], e[3], e[4], e[5:]
        p = self.prims.get(q) or self.prims.get(m)
        if p is not None:
            return p(self, st, e, xs)
        base = q.split('::')[-1]
        f = self.prog.resolve(self.tu, m)
        if f is not None and not self.opaque(q):
            if f.get('noreturn'):
                self.exits.append(('fail', self.where(e[1]), st.assume, q)); raise Dead()
            args = self.bind_args(f, xs, st)
            return self.retval(self.call_body(f, st, args), want_lv)
        if q.startswith('__gnu_cxx::operator') and q[19:] in ('==', '!=', '<', '>', '<=', '>=', '-', '+') and len(xs) == 2:
            a, b = self.ev_val(xs[0], st), self.ev_val(xs[1], st)
            if q[19:] == '+': return self.ptr_add(b, toP(a))
            if q[19:] == '-': return self.arith('-', a, b)
            return boolval(self.compare(q[19:], a, b))
        if q in ('__assert_fail', 'abort', 'exit', 'std::abort', 'std::exit', 'std::terminate', '__assert'):
            self.exits.append(('abort', self.where(e[1]), st.assume, q)); raise Dead()
        if q in ('std::move', 'std::forward', 'std::as_const'):
            return ('lv', self.lval(xs[0], st)) if want_lv else ('lv', self.lval(xs[0], st))
        if q.startswith('std::move<') or q.startswith('std::forward<'):
            return ('lv', self.lval(xs[0], st))
        if (q == base or q.startswith('std::') or q.startswith('__gnu')) and base in MATH and rt in ('double', 'float', 'long double', 'int', 'bool'):
            vs = [toP(self.ev_val(x, st)) for x in xs]
            if base == 'fmin': return T.fn('min', *sorted(vs, key=T.key))
            if base == 'fmax': return T.fn('max', *sorted(vs, key=T.key))
            if base == 'abs': base = 'fabs'
            if base == 'pow':
                c = const_of(vs[1])
                if c is not None and c.denominator == 1 and 0 <= c <= 4:
                    r = ONE
                    for _ in range(int(c)): r = mul(r, vs[0])
                    return r
            return T.fn(base, *vs)
        if q in ('std::max', 'std::min') or base.startswith(('max<', 'min<')) or q in ('std::max<unsigned long>',):
            vs = [toP(self.ev_val(x, st)) for x in xs[:2]]
            return T.fn('max' if 'max' in base else 'min', *sorted(vs, key=T.key))
        if q == 'to_size_t' or base == 'to_size_t':
            return self.ev_val(xs[0], st)
        return self.opaque_call(e, st, q, rt, [self.ev_val(x, st) for x in xs])

    def retval(self, v, want_lv=False):
        if v is None: return ZERO
        return v

    def opaque_call(self, e, st, q, rt, vals):
        h = getattr(self, 'call_hook', None)
        if h is not None:
            r = h(st, e, q, rt, vals)
            if r is not None:
                return r
        self.fresh_n += 1
        pure = rt not in ('void',) and getattr(self, 'pure_calls', ()) and q in self.pure_calls
        if pure:
            return atom(('call', q) + tuple(vals))
        n = sum(1 for x in st.events if x[0] == 'call')
        self.ev(st, ('call', q) + tuple(vals))
        if rt == 'void': return ZERO
        return atom(('call', q) + tuple(vals) + (('#', n),))

    def e_mcall(self, e, st, want_lv=False):
        q, m, rt, virt, obj, xs = e[2], e[3], e[4], e[6], e[7], e[8:]
        p = self.prims.get(q) or self.prims.get(m)
        if p is not None:
            return p(self, st, e, [obj] + xs)
        if q.startswith('__gnu_cxx::__normal_iterator'):
            r = self.iterator(e, st, q.split('::')[-1], obj, xs, e[5])
            if r is not None: return r
        f = self.prog.resolve(self.tu, m)
        if f is not None and not virt and not self.opaque(q):
            if f.get('noreturn'):
                self.exits.append(('fail', self.where(e[1]), st.assume, q)); raise Dead()
            if f.get('defaulted') and q.split('::')[-1] == 'operator=':
                args = self.bind_args(f, xs, st)
                lv = self.deref(self.ev_val(obj, st)) if e[5] else self.lval(obj, st)
                self.default_assign(f, st, lv, args[0][1])
                return ('lv', lv)
            if q.endswith('::operator()') and ('(anonymous class)' in q or '(lambda' in q):
                th = None                                        # inside a lambda, `this` is that of the enclosing function
            elif e[5]:
                th = self.ev_val(obj, st)
                th = th if not (isinstance(th, tuple) and th and th[0] == 'lv') else self.addr(th[1])
            else:
                th = self.addr(self.lval(obj, st))
            args = self.bind_args(f, xs, st)
            return self.retval(self.call_body(f, st, args, this=th), want_lv)
        base = q.split('::')[-1]
        lv = self.deref(self.ev_val(obj, st)) if e[5] else self.lval(obj, st)
        if q.startswith('std::'):
            r = self.std_method(e, st, q, base, rt, lv, xs)
            if r is not None: return r
        vals = [self.ev_val(x, st) for x in xs]
        return self.opaque_call(e, st, q, rt, [self.addr(lv)] + vals)

    ITER = '__gnu_cxx::__normal_iterator'
    def iterator(self, e, st, op, obj, xs, arrow=False):
        """iterators of vectors are pointers to their elements"""
        if op in ('operator++', 'operator--', 'operator+=', 'operator-=', 'operator='):
            lv = self.deref(self.ev_val(obj, st)) if arrow else self.lval(obj, st)
            old = self.load(st, lv)
            if op == 'operator=':
                self.store(st, lv, self.ev_val(xs[0], st)); return ('lv', lv)
            n = ONE if op in ('operator++', 'operator--') else toP(self.ev_val(xs[0], st))
            if op[8] == '-': n = neg(n)
            self.store(st, lv, self.ptr_add(old, n))
            return old if xs and op in ('operator++', 'operator--') else ('lv', lv)
        v = self.ev_val(obj, st)
        if op == 'base': return v
        if op in ('operator*', 'operator->'): return ('lv', self.deref(v)) if op == 'operator*' else v
        if op in ('operator[]', 'operator+', 'operator-'):
            n = toP(self.ev_val(xs[0], st))
            w = self.ptr_add(v, neg(n) if op == 'operator-' else n)
            return ('lv', self.deref(w)) if op == 'operator[]' else w
        return None

    def default_assign(self, f, st, dst, src):
        c = self.prog.classes.get(f['cls'])
        if c is None or src[0] != 'cell':
            self.store(st, dst, self.load(st, src)); return
        for nm, t, _ in c[0]['fields']:
            a, b = self.field(st, dst, nm), self.field(st, src, nm)
            self.store(st, a, self.load(st, b))

    def std_method(self, e, st, q, base, rt, lv, xs):
        data = ('vec', lv[1], lv[2]) if lv[0] == 'cell' else None
        if data is None: return None
        if base in ('operator[]', 'at'):
            i = toP(self.ev_val(xs[0], st))
            return ('lvload', cell(data, i)) if False else ('lv', cell(data, i)) if rt.endswith(('&',)) or True else None
        if base in ('data', 'begin', 'cbegin'):
            return ('ptr', data, ZERO)
        if base in ('end', 'cend'):
            return ('ptr', data, self.size_of(st, lv))
        if base == 'size':
            return self.size_of(st, lv)
        if base == 'empty':
            return boolval(T.c_eq0(self.size_of(st, lv)))
        if base in ('back',):
            return ('lv', cell(data, sub(self.size_of(st, lv), ONE)))
        if base in ('front',):
            return ('lv', cell(data, ZERO))
        if base in ('get',) and ('unique_ptr' in q or 'shared_ptr' in q):
            return self.load(st, lv)
        if base in ('operator->', 'operator*') and ('unique_ptr' in q or 'shared_ptr' in q):
            v = self.load(st, lv)
            return v if base == 'operator->' else ('lv', self.deref(v))
        return None

    def size_of(self, st, lv):
        k = (('vecsize', lv[1], lv[2]), ZERO)
        v = st.mem.get(k)
        return v if v is not None else atom(('ld', k[0], ZERO))

    def e_pcall(self, e, st, want_lv=False):
        fv = self.ev_val(e[3], st)
        if not isP(fv) and fv[0] == 'fnref':
            f = self.prog.resolve(self.tu, fv[2])
            if f is not None and not self.opaque(fv[1]):
                return self.retval(self.call_body(f, st, self.bind_args(f, e[4:], st)))
        vals = [self.ev_val(x, st) for x in e[4:]]
        return self.opaque_call(e, st, '(*)', e[2], [fv] + vals)

    # ---------------------------------------------------------------- statements
    def exec(self, s, st):
        """consumes st; returns Flow"""
        if s is None: return Flow(st)
        k = s[0]
        m = getattr(self, 's_' + k, None)
        if m is None:
            raise Unsupported('statement kind %s at %s' % (k, self.where(s[1])))
        try:
            return m(s, st)
        except Dead:
            return Flow(None)

    def s_null(self, s, st): return Flow(st)
    def s_case(self, s, st): return Flow(st)
    def s_default(self, s, st): return Flow(st)
    def s_label(self, s, st): return Flow(st)
    def s_expr(self, s, st):
        self.ev_val(s[2], st)
        return Flow(st)
    def s_blk(self, s, st):
        return self.seq_exec(s[2:], st)
    def seq_exec(self, stmts, st):
        ex = []
        cur = st
        for x in stmts:
            f = self.exec(x, cur)
            ex += f.ex
            cur = f.n
            if cur is None: break
        return Flow(cur, ex)
    def s_decl(self, s, st):
        for id, init, static in s[2:]:
            d = self.decl(id)
            k = self.dkey(id)
            if static:
                st.env[k] = cell(('glob', d['q'] or d['n']))
                continue
            t = d['t']
            if t.endswith('&') and init is not None:
                st.env[k] = self.lval(init, st)
                continue
            lv = cell(('var', d['n'], self.newseq()))
            st.news.add(lv[1])
            if init is not None:
                if init[0] == 'init' and self.is_array(t):
                    st.env[k] = lv
                    for i, x in enumerate(init[3:]):
                        st.mem[(lv[1], num(i))] = self.ev_val(x, st)
                    continue
                if init[0] == 'ctor' and not (len(init) == 6 and init[4]):
                    if self.construct(init, st, lv):
                        st.env[k] = lv
                        continue
                    if 'std::vector' in t or 'std::array' in t or 'unique_ptr' in t:
                        vals = []
                        for x in init[5:]:
                            if x[0] == 'ctor' and x[2].replace('const ', '').startswith('std::allocator'): continue
                            vals.append(self.ev_val(x, st))
                        if len(init) > 5 and vals and isP(vals[0]):
                            st.mem[(('vecsize', lv[1], lv[2]), ZERO)] = vals[0]
                        st.env[k] = lv
                        h = getattr(self, 'vec_hook', None)
                        if h: h(st, lv, t, vals)
                        continue
                v = self.ev_val(init, st)
                if isinstance(v, tuple) and v and v[0] in ('objv',):
                    st.env[k] = v[1]
                    continue
                if isinstance(v, tuple) and v and v[0] == 'lv':
                    if t.split(' ')[0] in ('const',) or True:
                        v2 = self.load(st, v[1]) if not self.classy(t) else None
                    if v2 is None:
                        st.env[k] = v[1]
                        continue
                    v = v2
                st.env[k] = lv
                self.store(st, lv, v)
            else:
                st.env[k] = lv
        return Flow(st)
    def classy(self, t):
        t = t.replace('const ', '')
        return t in self.prog.classes or t.startswith('std::')
    def s_return(self, s, st):
        v = None
        if s[2] is not None:
            rt = self.stack[-1]['rt'] if self.stack else ''
            if rt.endswith('&'):
                v = ('lv', self.lval(s[2], st))
            else:
                e = s[2]
                # named return value / implicit move of a local object
                if e[0] == 'ctor' and len(e) == 6 and e[5][0] == 'ref' and self.classy(rt) and self.decl(e[5][2])['k'] == 'local':
                    v = ('objv', self.lval(e[5], st))
                else:
                    v = self.ev_val(e, st)
                    if isinstance(v, tuple) and v and v[0] == 'lv' and not self.classy(rt):
                        v = self.load(st, v[1])
        if not self.stack:
            self.exits.append(('return', self.where(s[1]), st.assume, v))
        return Flow(None, [('ret', TRUE, st, v)])
    def s_break(self, s, st): return Flow(None, [('break', TRUE, st, None)])
    def s_continue(self, s, st): return Flow(None, [('continue', TRUE, st, None)])
    def s_if(self, s, st):
        c = self.cond(s[2], st)
        if c == TRUE: return self.exec(s[3], st)
        if c == FALSE: return self.exec(s[4], st)
        a, b = st.copy(), st.copy()
        a.assume += (c,)
        b.assume += (c_not(c),)
        fa = self.exec(s[3], a)
        fb = self.exec(s[4], b)
        ex = [(k, c_and(c, g), x, v) for k, g, x, v in fa.ex] + [(k, c_and(c_not(c), g), x, v) for k, g, x, v in fb.ex]
        if fa.n is not None and fb.n is not None:
            return Flow(self.merge(c, fa.n, fb.n), ex)
        return Flow(fa.n if fa.n is not None else fb.n, ex)
    def s_try(self, s, st):
        return self.exec(s[2], st)
    def s_otherstmt(self, s, st):
        return Flow(st)
    def s_switch(self, s, st):
        v = toP(self.ev_val(s[2], st))
        body = s[3][2:] if s[3][0] == 'blk' else [s[3]]
        groups = []   # (vals or None, index)
        cur = None
        for i, x in enumerate(body):
            if x[0] in ('case', 'default'):
                if cur is None or groups[-1][1] != i:
                    pass
                if groups and groups[-1][1] == i:
                    groups[-1][0].append(x[2] if x[0] == 'case' else None)
                    groups[-1][1] = i + 1
                else:
                    groups.append([[x[2] if x[0] == 'case' else None], i + 1])
        res = []
        default_c = []
        for vals, start in groups:
            cs = [T.c_eq0(sub(v, num(x))) for x in vals if x is not None]
            res.append((vals, cs, start))
        allc = [c for _, cs, _ in res for c in cs]
        out_n, ex = None, []
        have_default = False
        flows = []
        for vals, cs, start in res:
            if None in vals:
                have_default = True
                others = [c for vv, c2, ss in res if ss != start for c in c2]
                g = c_and(*[c_not(c) for c in others]) if others else TRUE
            else:
                g = T.c_or(*cs)
            g = self.simp(g, st)
            if g == FALSE: continue
            s1 = st.copy(); s1.assume += (g,)
            f = self.seq_exec(body[start:], s1)
            flows.append((g, f))
        if not have_default:
            g = c_and(*[c_not(c) for c in allc])
            s1 = st.copy(); s1.assume += (g,)
            flows.append((g, Flow(s1)))
        n = None
        for g, f in reversed(flows):
            outs = []
            for k, gg, x, v in f.ex:
                if k == 'break': outs.append((gg, x))
                else: ex.append((k, c_and(g, gg), x, v))
            m = f.n
            for gg, x in reversed(outs):
                m = x if m is None else self.merge(gg, x, m)
            if m is None: continue
            n = m if n is None else self.merge(g, m, n)
        return Flow(n, ex)

    # ---------------------------------------------------------------- loops
    def s_for(self, s, st):
        ex0 = []
        if s[2] is not None:
            f = self.exec(s[2], st)
            st = f.n
            if st is None: return f
        return self.loop(s, st, s[3], s[4], s[5], False)
    def s_while(self, s, st):
        return self.loop(s, st, s[2], None, s[3], False)
    def s_do(self, s, st):
        c = s[2]
        while c[0] == 'cast': c = c[4]
        if c[0] == 'int' and str(c[2]) in ('0', 'False', 'false'):    # the do { } while (0) idiom
            f = self.exec(s[3], st)
            n, ex = f.n, []
            for kind, g, x, v in f.ex:
                if kind in ('continue', 'break'): n = x if n is None else self.merge(g, x, n)
                else: ex.append((kind, g, x, v))
            return Flow(n, ex)
        return self.loop(s, st, s[2], None, s[3], True)
    def rfor_listed(self, s, st):
        """range-for over a braced list or an array with constant bound; None for other ranges"""
        vd, rng, body = s[2], s[3], s[4]
        while rng[0] == 'cast' or (rng[0] == 'init' and len(rng) == 4 and 'initializer_list' in rng[2]): rng = rng[-1]
        if rng[0] == 'init':
            if len(rng) > 40: return None
            els = [self.lval_tmp(st, self.ev_val(x, st)) for x in rng[3:]]
        elif rng[0] == 'ref' and re.search(r'\[\d+\]$', self.decl(rng[2])['t']):
            n = int(re.search(r'\[(\d+)\]$', self.decl(rng[2])['t']).group(1))
            if n > 40: return None
            els = [self.lval(['idx', rng[1], rng, ['int', rng[1], i]], st) for i in range(n)]
        else: return None
        exs, brk, k = [], [], self.dkey(vd[0])
        for el in els:
            st.env[k] = el
            f = self.exec(body, st)
            n = f.n
            for kind, g, x, v in f.ex:
                if kind == 'continue': n = x if n is None else self.merge(g, x, n)
                elif kind == 'break': brk.append((g, x))
                else: exs.append((kind, g, x, v))
            if n is None: st = None; break
            st = n
        for g, x in reversed(brk): st = x if st is None else self.merge(g, x, st)
        return Flow(st, exs)
    def s_rfor(self, s, st):
        r = self.rfor_listed(s, st)
        if r is not None: return r
        vd, rng, body = s[2], s[3], s[4]
        lv = self.lval(rng, st)
        N = self.size_of(st, lv)
        d = self.depth
        ix = atom(('ix', d))
        elem = cell(('vec', lv[1], lv[2]) if lv[0] == 'cell' else ('vec?',), ix)
        k = self.dkey(vd[0])
        st.env[k] = elem
        return self.loop(s, st, None, None, body, False, forceN=N)

    def one_iter(self, st, cond, inc, body, post):
        c = TRUE
        if cond is not None and not post:
            c = self.cond(cond, st)
            if c != TRUE: st.assume += (c,)
        f = self.exec(body, st)
        ex = []
        n = f.n
        brk = []
        for kind, g, x, v in f.ex:
            if kind == 'continue':
                n = x if n is None else self.merge(g, x, n)
            elif kind == 'break':
                brk.append((g, x))
            else:
                ex.append((kind, g, x, v))
        if n is not None and inc is not None:
            try:
                self.ev_val(inc, n)
            except Dead:
                n = None
        if n is not None and post and cond is not None:
            c = self.cond(cond, n)
        return c, n, brk, ex

    def loop(self, s, st, cond, inc, body, post, forceN=None):
        d = self.depth
        ixa = ('ix', d)
        ix = atom(ixa)
        # trivially false?
        if cond is not None and not post:
            probe0 = st.copy()
            if self.cond(cond, probe0) == FALSE:
                self.cond(cond, st)
                return Flow(st)
        u = self.unroll(st, cond, inc, body, post) if cond is not None else None
        if u is not None: return u
        saved_notes = len(self.exits)
        def run(pre):
            self.depth = d + 1
            try:
                x = pre.copy()
                x.wlog = set()
                x.events = []
                x.prefix = pre.prefix + (len(pre.events), ixa)
                return self.one_iter(x, cond, inc, body, post)
            finally:
                self.depth = d
        saveN = self.loopN.get(d)
        self.loopN[d] = None
        news0 = set(st.news)
        def outer(k):
            r = k[0]
            while isinstance(r, tuple) and r and r[0] in ('fld', 'vec', 'vecsize', 'arr'):
                r = r[1]
            if isinstance(r, tuple) and r and r[0] in ('var', 'tmp') and r not in news0:
                return False
            return True
        seq0 = self.seq
        c1, n1, brk1, ex1 = run(st)
        if n1 is None:
            # body never completes an iteration: at most one
            del self.exits[saved_notes:]
            self.seq = seq0
            x = st.copy(); x.assume = st.assume
            self.depth = d + 1
            c, n, brk, ex = self.one_iter(x, cond, inc, body, post)
            self.depth = d
            out = st if not post else None
            for g, y in brk:
                y.events = y.events
                out = y if out is None else self.merge(c_and(c, g), y, out)
            self.loopN[d] = saveN
            return Flow(out, [(k, c_and(c, g), y, v) for k, g, y, v in ex])
        ind = {}
        for k in n1.wlog:
            if not outer(k): continue
            v0 = self.load(st, ('cell',) + k)
            v1 = n1.mem.get(k)
            step = self.step(v0, v1)
            if step is not None and step != ZERO:
                ind[k] = (v0, step)
        for _ in range(4):
            # pass 2: find loop-invariant written cells
            pre = st.copy()
            for k, (v0, dd) in ind.items():
                pre.mem[k] = self.ptr_add(v0, mul(ix, dd))
            self.seq = seq0
            c2, n2, brk2, ex2 = run(pre)
            if n2 is None:
                raise Unsupported('loop shape at ' + self.where(s[1]))
            bad = [k for k, (v0, dd) in ind.items()
                   if n2.mem.get(k) != self.ptr_add(v0, mul(add(ix, ONE), dd))]
            inv = [k for k in n2.wlog if outer(k) and k not in ind and ixa not in T.atoms(k)]
            pre = st.copy()
            phis = {}
            for k, (v0, dd) in ind.items():
                pre.mem[k] = self.ptr_add(v0, mul(ix, dd))
            for i, k in enumerate(sorted(inv + bad, key=T.key)):
                a = ('phi', d, i)
                phis[k] = a
                pre.mem[k] = atom(a)
            self.seq = seq0
            del self.exits[saved_notes:]
            c3, n3, brk3, ex3 = run(pre)
            if n3 is None:
                raise Unsupported('loop shape at ' + self.where(s[1]))
            bad2 = [k for k, (v0, dd) in ind.items() if k not in phis and
                    n3.mem.get(k) != self.ptr_add(v0, mul(add(ix, ONE), dd))]
            missing = [k for k in n3.wlog if outer(k) and k not in ind and k not in phis and ixa not in T.atoms(k)]
            if not bad and not bad2 and not missing:
                break
            for k in bad + bad2:
                ind.pop(k, None)
        N = forceN if forceN is not None else self.trip(c3, ixa, post)
        if brk3:
            N = atom(('brk', N) + tuple(sorted((g for g, _ in brk3), key=T.key)))
        self.loopN[d] = saveN
        post_st = st.copy()
        if n3.events:
            post_st.events.append(('loop', N, tuple(n3.events)))
        def fin(t):
            return t
        for k in n3.wlog:
            if not outer(k): continue
            v = n3.mem[k]
            post_st.wlog.add(k)
            if k in ind:
                v0, dd = ind[k]
                post_st.mem[k] = self.ptr_add(v0, mul(N, dd))
                continue
            if k in phis:
                a = phis[k]
                v0 = self.load(st, ('cell',) + k)
                post_st.mem[k] = self.closed(v0, v, a, set(phis.values()), N, ixa)
                post_st.rng.pop(k, None)
                continue
            post_st.mem[k] = v
            post_st.rng[k] = (d, N)
        # values mentioning phi of other cells: leave as mu terms
        for g, y in brk3:
            pass
        ex = [(kk, ('exists', d, g), y, v) for kk, g, y, v in ex3]
        return Flow(post_st, ex)

    UNROLL = 8
    def unroll(self, st, cond, inc, body, post):
        """loops whose trip count is a small constant are transferred exactly"""
        if post:
            return None
        probe = st.copy()
        if self.cond(cond, probe) != TRUE: return None
        exits0, seq0 = len(self.exits), self.seq
        cur = st.copy()
        brks, exs = [], []
        for it in range(self.UNROLL + 1):
            c = self.cond(cond, cur)
            if c == FALSE:
                break
            if c != TRUE or it == self.UNROLL:
                del self.exits[exits0:]
                self.seq = seq0
                return None
            f = self.exec(body, cur)
            n = f.n
            for kind, g, x, v in f.ex:
                if kind == 'continue': n = x if n is None else self.merge(g, x, n)
                elif kind == 'break': brks.append((g, x))
                else: exs.append((kind, g, x, v))
            if n is None:
                cur = None
                break
            if inc is not None:
                try: self.ev_val(inc, n)
                except Dead:
                    cur = None
                    break
            cur = n
        for g, x in reversed(brks):
            cur = x if cur is None else self.merge(g, x, cur)
        return Flow(cur, exs)

    def step(self, v0, v1):
        if v0 is None or v1 is None: return None
        if isP(v0) and isP(v1):
            s = sub(v1, v0)
        elif not isP(v0) and not isP(v1) and v0[0] == 'ptr' and v1[0] == 'ptr' and v0[1] == v1[1]:
            s = sub(v1[2], v0[2])
        else:
            return None
        if const_of(s) is not None: return s
        # loop-invariant symbolic strides (verified by the second pass)
        if all(a[0] in ('ld', 'sym', 'fn') for m, _ in s[1] for a, _e in m): return s
        return None

    def closed(self, v0, v, a, allphis, N, ixa):
        if isP(v) or isP(v0):
            v = toP(v)
            ats = T.atoms(v)
            if not (ats & allphis):
                if ixa not in ats: return v
                return atom(('last', N, v))
            e = sub(v, atom(a))
            if not (T.atoms(e) & allphis) and isP(v0):
                if ixa not in T.atoms(e): return add(toP(v0), mul(N, e))
                return add(toP(v0), atom(('sum', N, e)))
            x = unP(v)
            if x[0] == 'or' and a in x[1]:
                rest = T.bor(*[y for y in x[1] if y != a])
                if not (T.atoms(rest) & allphis):
                    return T.bor(v0, atom(('bigor', N, rest)))
            return atom(('mu', N, v0, v))
        ats = T.atoms(v)
        if not (ats & allphis): return v
        return ('mu', N, v0, v)

    def trip(self, c, ixa, post):
        def lin(p):
            """p = a*ix + b with constant a"""
            a = Fraction(0); b = ZERO
            for m, k in p[1]:
                d = dict(m)
                e = d.get(ixa, 0)
                if e == 0:
                    b = add(b, T.mk(((m, k),)))
                elif e == 1 and len(m) == 1:
                    a += k
                else:
                    return None
            if any(ixa in T.atoms(x) for x in [b]): return None
            return a, b
        base = None
        if c[0] == 'lt' and isP(c[1]):
            r = lin(c[1])
            if r and r[0] != 0:
                a, b = r
                n = mul(b, num(-1 / a))    # a*ix + b < 0
                if a > 0: base = n if abs(a) == 1 else n
        elif c[0] == 'not' and c[1][0] == 'lt' and isP(c[1][1]):
            r = lin(c[1][1])               # a*ix+b >= 0
            if r and r[0] < 0:
                a, b = r
                base = add(mul(b, num(-1 / a)), ONE)
        elif c[0] == 'not' and c[1][0] == 'eq' and isP(c[1][1]):
            r = lin(c[1][1])
            if r and r[0] != 0:
                a, b = r
                base = mul(b, num(-1 / a))
        if base is None:
            base = atom(('trip', c))
        if post: base = add(base, ONE)
        return base

class Dead(Exception):
    """the current point is unreachable (noreturn call)"""
