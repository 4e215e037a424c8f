"""C16: index domains (sparsity patterns of Jacobians and Hessians).

The index-domain sweeps are interpreted completely -- prologue, dispatch loop,
every helper, epilogue -- over short tapes: independents, operands with chosen
sets of independents, the operations of one recorder, and uses of everything it
defined.  Set elements, list links, capacities and block extents are decided by
constant propagation.
"""
import itertools, math, os
from concurrent.futures import ProcessPoolExecutor
from fractions import Fraction
import ctx as CX, model, calc
import terms as T
from terms import num, const_of, toP, ZERO, ONE, atom, atom_of, isP, TRUE, FALSE
from load import AnalysisBroken
from report import Report
from absint import State, Flow, Unsupported, Dead, cell, NULL
from drive import Drive, Broken, F
from checks.tape import REFUSED
from checks.derivs import runs_of, is_leaf

JAC = ('indopro_forward_tight', 'indopro_forward_safe', 'indopro_forward_absnormal')
HESS = ('nonl_ind_forward_tight', 'nonl_ind_forward_safe', 'nonl_ind_old_forward_tight', 'nonl_ind_old_forward_safe')
SAFE = 'safe'

# ------------------------------------------------------------------ numbers
FN = {'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'exp': math.exp, 'log': math.log, 'log10': math.log10, 'sqrt': math.sqrt,
      'cbrt': lambda x: math.copysign(abs(x) ** (1 / 3), x), 'asin': math.asin, 'acos': math.acos, 'atan': math.atan, 'sinh': math.sinh,
      'cosh': math.cosh, 'tanh': math.tanh, 'asinh': math.asinh, 'acosh': math.acosh, 'atanh': math.atanh, 'erf': math.erf, 'erfc': math.erfc,
      'ceil': math.ceil, 'floor': math.floor, 'trunc': math.trunc, 'fabs': abs, 'abs': abs, 'pow': math.pow, 'min': min, 'max': max,
      'fmin': min, 'fmax': max, 'atan2': math.atan2, 'round': round}

class NoNumber(Exception): pass

def number(t, leaf, memo=None):
    """value of a term; leaf(atom) gives the value of an atom or None"""
    tot = 0
    for m, c in toP(t)[1]:
        p = c
        for a, e in m:
            v = natom(a, leaf)
            try: p = p * v ** e if e >= 0 else p / v ** (-e)
            except (ZeroDivisionError, OverflowError): raise NoNumber('division by zero')
        tot = tot + p
    return tot

def natom(a, leaf):
    v = leaf(a)
    if v is not None: return v
    if a[0] == 'fn':
        xs = [number(x, leaf) for x in a[2:]]
        if a[1] not in FN: raise NoNumber(a[1])
        try: return FN[a[1]](*xs)
        except (ValueError, OverflowError): return math.nan
    if a[0] == 'inv':
        x = number(a[1], leaf)
        if x == 0: raise NoNumber('division by zero')
        return 1 / x
    if a[0] == 'ite': return number(a[2] if truth(a[1], leaf) else a[3], leaf)
    if a[0] == 'bool': return 1 if truth(a[1], leaf) else 0
    raise NoNumber(T.show(a)[:80])

def truth(c, leaf):
    if c == TRUE: return True
    if c == FALSE: return False
    if c[0] == 'not': return not truth(c[1], leaf)
    if c[0] == 'and': return all(truth(x, leaf) for x in c[1])
    if c[0] == 'or': return any(truth(x, leaf) for x in c[1])
    if c[0] == 'eq': return number(c[1], leaf) == 0
    if c[0] == 'lt': return number(c[1], leaf) < 0
    raise NoNumber(str(c[0]))

# ------------------------------------------------------------------ the interpreter
class Ind(Drive):
    LIMIT = 100000
    def __init__(self, ctx, tu):
        super().__init__(ctx.prog, tu)
        self.tape, self.pos = [], {}
        self.tables = {}
        self.max_inline = self.recursion = 2000
        self.sig = NULL
        self.open = 0
        self.arrays = {}
        P = self.prims
        V = 'ValueTape::'
        P[V + 'init_sweep'] = self.t_init
        P[V + 'end_sweep'] = self.t_end
        P[V + 'get_op_f'] = self.t_op
        P[V + 'get_locint_f'] = self.t_loc
        P[V + 'get_val_f'] = self.t_val
        P[V + 'get_val_v_f'] = self.t_vals
        P[V + 'tapestats'] = self.t_stats
        P[V + 'branchSwitchWarning'] = lambda I, st, e, xs: ZERO
        P[V + 'paramstore'] = lambda I, st, e, xs: self.params
        P[V + 'signature'] = self.t_signature
        P['to_double'] = P['to_size_t'] = lambda I, st, e, xs: self.ev_val(xs[0], st)
        en = next((v for k, v in ctx.prog.enums.items() if 'NUM_EQ_PROD' in v), None)
        if en is None: raise AnalysisBroken('enumeration of the tape statistics not found')
        self.stat = {int(v): k for k, v in en.items()}
    def t_init(self, I, st, e, xs):
        self.pos = {'op': 0, 'L': 0, 'V': 0}
        self.open += 1
        return ZERO
    def t_end(self, I, st, e, xs):
        self.open -= 1
        return ZERO
    def t_op(self, I, st, e, xs):
        k = self.pos['op']
        if k: self.done(k - 1)
        if k >= len(self.tape): raise Broken('reads operations past the end of the tape')
        self.pos = {'op': k + 1, 'L': 0, 'V': 0}
        return num(self.tape[k][0])
    def done(self, k):
        code, locs, vals = self.tape[k]
        for s, w, x in (('L', 'locations', locs), ('V', 'constants', vals)):
            if self.pos[s] != len(x): raise Broken('operation %d of the tape (code %d): %d %s read, %d recorded' % (k, code, self.pos[s], w, len(x)))
    def take(self, s, xs):
        i = self.pos[s]
        self.pos[s] += 1
        if i >= len(xs): raise Broken('reads past the record of an operation')
        return xs[i]
    def t_loc(self, I, st, e, xs): return num(self.take('L', self.tape[self.pos['op'] - 1][1]))
    def t_val(self, I, st, e, xs): return num(self.take('V', self.tape[self.pos['op'] - 1][2]))
    def t_vals(self, I, st, e, xs):
        n = int(const_of(toP(self.ev_val(xs[1], st))))
        p = self.alloc(st, n, 'z'); self.kind[p[1]] = 'p'
        for i in range(n): st.mem[(p[1], num(i))] = num(self.take('V', self.tape[self.pos['op'] - 1][2]))
        return p
    def t_stats(self, I, st, e, xs):
        v = int(const_of(toP(self.ev_val(xs[1], st))))
        n = self.stat.get(v)
        if n not in self.stats: raise Unsupported('tape statistic %s' % n)
        return num(self.stats[n])
    def t_signature(self, I, st, e, xs):
        if len(xs) > 1:
            self.sig = self.ev_val(xs[1], st)
            return ZERO
        return self.sig
    # -------------------------------------------------------------- numbers, not formulas
    def decide(self, c):
        try: return TRUE if truth(c, lambda a: None) else FALSE
        except NoNumber:
            if any(a[0] == 'undef' for a in T.atoms(c)): raise Broken('branches on memory that was never written')
            return None
    def rounding(self, nm, st, xs):
        v = toP(self.ev_val(xs[0], st))
        if const_of(v) is None:
            try: v = num(Fraction(number(v, lambda a: None)))
            except (NoNumber, ValueError): raise Unsupported('rounding of ' + T.show(v)[:60])
        c = const_of(v)
        return num({'round': lambda c: math.floor(abs(c) + Fraction(1, 2)) * (1 if c >= 0 else -1), 'ceil': math.ceil, 'floor': math.floor,
                    'trunc': int, 'fabs': abs, 'abs': abs}[nm](c))
    def e_new(self, e, st):
        v = super().e_new(e, st)
        self.arrays[v[1]] = bool(e[3])
        return v
    def e_delete(self, e, st):
        v = self.ev_val(e[3], st)
        if not isP(v) and v[0] == 'ptr' and v[1] in self.arrays and self.arrays[v[1]] != bool(e[2]):
            raise Broken('block allocated by new%s released by delete%s at %s' % (' []' if self.arrays[v[1]] else '', ' []' if e[2] else '', self.where(e[1])))
        return self.release(st, v, e)
    def call_body(self, f, st, args, this=None):
        if not any(x is f for x in self.stack): return super().call_body(f, st, args, this)
        env = dict(st.env)              # an activation of its own
        v = super().call_body(f, st, args, this)
        st.env = env
        return v
    def s_switch(self, s, st):
        v = const_of(toP(self.ev_val(s[2], st)))
        if v is None:
            self.stray(toP(self.ev_val(s[2], st)), s)
            return super().s_switch(s, st)
        body = s[3][2:] if s[3][0] == 'blk' else [s[3]]
        tab = self.tables.get(id(s))
        if tab is None:
            tab = {}
            for i, x in enumerate(body):
                if x[0] == 'case': tab.setdefault(int(x[2]), i)
                elif x[0] == 'default': tab[None] = i
            self.tables[id(s)] = tab
        i = tab.get(int(v), tab.get(None))
        if i is None: return Flow(st)
        while i < len(body) and body[i][0] in ('case', 'default'): i += 1
        f = self.seq_exec(body[i:], st)
        n, ex = f.n, []
        for k, g, x, w in f.ex:
            if k == 'break': n = x
            else: ex.append((k, g, x, w))
        f.n, f.ex = n, ex
        return f

# ------------------------------------------------------------------ tapes
class Skip(Exception): pass

GAP = 4
class Tape:
    """one recorder's operations between operands of chosen index sets and uses of
    everything it defines"""
    def __init__(self, cx, ops, final, cond, alias, prods, sets, signs, hess, times=1, same=False, stock=False):
        C = cx.codes
        self.cx, self.ops, self.final, self.hess, self.times = cx, ops, final, hess, times
        # addresses
        atoms = set()
        terms = [x for o in ops for x in o.locs] + list(final) + list(final.values())
        for t in terms:
            for a in T.atoms(t):
                if a[0] in ('loc', 'newloc'): atoms.add(a)
        self.addr, nxt, self.params, self.flag = {}, 1, {}, 0
        for a in sorted(atoms, key=T.key):
            self.addr[a] = nxt
            nxt += GAP
        # references hold the location of their target
        self.value = {}
        self.fixed = {}
        stars = {y[1:]: x for x, y in alias if y.startswith('*')}
        for o in ops:
            n = cx.names[o.code]
            if not n.startswith('ref_'): continue
            r = o.locs[0] if n == 'ref_copyout' else o.locs[-1]
            ra = atom_of(r)
            if ra is None: raise Skip('reference at ' + T.show(r))
            if ra in self.fixed: continue
            nm = ra[1] if isinstance(ra[1], str) else None
            if nm in stars: tgt = self.addr[('loc', stars[nm])]
            else:
                tgt = nxt; nxt += GAP
            self.fixed[ra] = tgt
        idx = set()
        for o in ops:
            if cx.names[o.code] in ('subscript', 'subscript_ref'): idx.add(atom_of(o.locs[0]))
        # places: what is read, what is written
        for a, v in self.fixed.items(): self.value[self.addr[a]] = Fraction(v)
        for a in idx: self.value[self.addr[a]] = Fraction(13, 10)
        self.addr_values = set(self.value)
        fresh = {self.addr[a] for a in atoms if a[0] == 'newloc'}
        self.written = [self.place(l) for l in final]
        reads = []
        for l in list(final): reads.append(self.place(l))
        for F_ in final.values():
            for a in sorted(T.atoms(F_), key=T.key):
                if a[0] == 'ad': reads.append(self.place(a[1]))
        for o in ops:
            for x in o.locs:
                if const_of(x) is None: reads.append(self.place(x))
                n = cx.names[o.code]
                k = {'vec_copy': (0, 2), 'vec_dot': (0, 1), 'vec_axpy': (1, 2, 4), 'subscript': (1,), 'subscript_ref': (1,)}.get(n, ())
            for j in k:
                for i in range(3): reads.append(self.place(o.locs[j]) + i)
        places = []
        for p in reads:
            if p not in places: places.append(p)
        self.places = places
        self.refs = {self.addr[a] for a in self.fixed} | {self.addr[a] for a in atoms if a[0] == 'newloc' and any(cx.names[o.code] == 'subscript_ref' for o in ops)}
        # operand values and index sets
        oper = [p for p in places if p not in self.refs]
        self.dom = {}
        for k, p in enumerate(oper):
            self.dom[p] = frozenset(sets(k, len(oper)))
            if p not in self.value:
                v = Fraction(41, 97) if same else Fraction((37 * (k + 2)) % 61 + 11, 97)
                self.value[p] = -v if signs(k) else v
        for p in self.refs: self.dom[p] = frozenset()
        n = 1 + max([i for s in self.dom.values() for i in s] + [0])
        used = list(dict.fromkeys(self.written + oper))
        self.uses = [p for p in used if p not in self.refs]
        aux = {self.place(o.locs[1]) for o in ops if cx.names[o.code] in ('sin_op', 'cos_op')}
        self.uses = [p for p in self.uses if p not in aux]
        self.n0 = n
        self.temps = len(ops) > 2
        self.weights = {p: n + i for i, p in enumerate(self.uses)} if hess else {}
        self.n = n + len(self.weights)
        self.m = len(self.uses)
        base = nxt
        self.x = [Fraction((29 * i) % 53 + 7, 101) for i in range(self.n)]
        # parameters of the recorder
        self.sym(cond, [p for p in oper if p not in self.addr_values])
        # the tape
        tape = [(C['start_of_tape'], [], [])]
        if stock: tape.append((C['take_stock_op'], [base, 0], [self.value.get(p, Fraction(1)) for p in range(base)]))
        for i in range(self.n): tape.append((C['assign_ind'], [base + i], []))
        for p in places:
            d = sorted(self.dom[p], key=lambda i: (i * 7 + p) % 5)
            if stock and not d: pass
            elif p in self.refs or not d: tape.append((C['assign_d'], [p], [self.value[p] if p in self.value else Fraction(1)]))
            else:
                tape.append((C['assign_a'], [base + d[0], p], []))
                for i in d[1:]: tape.append((C['eq_plus_a'], [base + i, p], []))
                tape.append((C['eq_plus_d'], [p], [self.value[p] - sum(self.x[i] for i in d)]))
        for t in range(times):
            for p in places if t else ():
                tape.append((C['assign_d'], [p], [self.value.get(p, Fraction(1))]))
            for o in ops:
                tape.append((o.code, [self.num(x) for x in o.locs], [Fraction(self.num(v)) for v in o.vals]))
        self.abs = [x[1] for x in tape if x[0] == C['abs_val']]
        tmp = base + self.n
        for i, p in enumerate(self.uses):
            if hess: tape.append((C['mult_a_a'], [p, base + self.weights[p], tmp], []))
        for p in self.uses: tape.append((C['assign_dep'], [p], []))
        tape.append((C['death_not'], [0, tmp], []))
        tape.append((C['end_of_tape'], [], []))
        self.tape = tape
        self.stats = {'NUM_INDEPENDENTS': self.n, 'NUM_DEPENDENTS': self.m, 'NUM_MAX_LIVES': tmp + 1, 'NUM_OPERATIONS': len(tape),
                      'NUM_EQ_PROD': prods * times, 'NO_MIN_MAX': 0, 'NUM_SWITCHES': len(self.abs), 'NUM_PARAM': 8}
    def nameof(self, p):
        for a, b in self.addr.items():
            if b <= p < b + GAP: return T.show(a) + ('' if p == b else ' + %d' % (p - b))
        return 'the target'
    def leaf(self, a):
        if a in self.addr: return self.addr[a]
        if a[0] in ('loc', 'newloc'): raise NoNumber(str(a))
        if a[0] == 'ad':
            v = self.value.get(self.place(a[1]))
            if v is None: raise NoNumber('value of ' + T.show(a[1]))
            return v
        if a[0] == 'pd': return Fraction(5, 4)
        if a in self.params: return self.params[a]
        if a[0] == 'sym': return Fraction(7, 2)
        if a[0] == 'tapefld': return self.flag
        if a[0] == 'ld' and 'vecsize' in str(a[1]): return 3
        return None
    def place(self, l):
        v = number(l, self.leaf)
        if v != int(v): raise Skip('place ' + T.show(l))
        return int(v)
    def num(self, x): return number(x, self.leaf)
    def sym(self, cond, oper):
        cs = [c for c in cond if isinstance(c, tuple)]
        at = sorted({a for c in cs for a in T.atoms(c)}, key=T.key)
        names = [a for a in at if a[0] not in ('ad', 'pd', 'loc', 'newloc', 'fn', 'inv', 'ite', 'bool', 'tapefld')]
        free = [p for p in oper if any(a[0] == 'ad' and self.place(a[1]) == p for a in at)]
        self.params, self.flag = {}, 0
        V = (Fraction(7, 2), Fraction(1), Fraction(-1), Fraction(0), Fraction(-5, 2))
        had = {p: self.value[p] for p in free}
        for new in itertools.product(*[(had[p], Fraction(7, 2), Fraction(0), Fraction(-1)) for p in free]):
            for p, v in zip(free, new): self.value[p] = v
            for fl in (0, 1):
                for vs in itertools.product(V, repeat=len(names)):
                    self.params, self.flag = dict(zip(names, vs)), fl
                    try:
                        if all(truth(c, self.leaf) for c in cs): return
                    except NoNumber as ex: raise Skip('condition: %s' % ex)
        raise Skip('no such values')

LOOSE = {'vec_dot', 'vec_axpy', 'eq_min_prod'}      # all their factors are paired
INPLACE = {'eq_mult_a', 'ref_eq_mult_a'}            # the old method takes the factors after the assignment
def support(tp, F_, tight):
    """(locations a value depends on, pairs of locations it depends on nonlinearly) with the
    upper bounds: locations it is made of, whether any second derivative is not identically zero"""
    g = calc.grad(F_, is_leaf)
    dep, pair, may = set(), set(), set()
    def live(p):
        if p == ZERO: return False
        if not tight: return True
        v = number(p, tp.leaf)
        return v != v or abs(v) > 1e-12
    for a, p in g.items():
        l = tp.place(a[1])
        if live(p): dep.add(l)
        for b, q in calc.grad(p, is_leaf).items():
            if q != ZERO: may.add((l, tp.place(b[1])))
            if live(q): pair.add((l, tp.place(b[1])))
    return dep, pair, may

def made_of(tp, F_):
    return {tp.place(a[1]) for a in T.atoms(F_) if is_leaf(a)}

def indices(D, st, crs, i, n, what):
    row = D.get(st, crs, i)
    if row == NULL or isP(row): raise Broken('%s %d is not set' % (what, i))
    k = const_of(toP(D.get(st, crs, i, 0)))
    if k is None: raise Broken('%s %d: undefined number of entries' % (what, i))
    out = []
    for j in range(1, int(k) + 1):
        c = const_of(toP(D.get(st, crs, i, j)))
        if c is None: raise Broken('%s %d: undefined entry' % (what, i))
        if not 0 <= c < n: raise Broken('%s %d lists independent %s of %d' % (what, i, c, n))
        if int(c) in out: raise Broken('%s %d lists independent %s twice' % (what, i, c))
        out.append(int(c))
    return set(out)

def sweep_run(cx, name, tp):
    """interpret the sweep over the tape; rows of the pattern"""
    tu, f = cx.sweep_fn(name)
    D = Ind(cx, tu)
    D.tape, D.stats = tp.tape, tp.stats
    st = State()
    D.params = D.arr(st, 'parameters', [64], lambda i: num(Fraction(5, 4)))
    x = D.arr(st, 'basepoint', [tp.n], lambda i: num(tp.x[i]))
    switches = name.endswith('absnormal')
    if switches: D.stats = dict(tp.stats, NO_MIN_MAX=1)
    rows = tp.n if tp.hess else tp.m + len(tp.abs) * switches
    crs = D.arr(st, 'crs', [rows], lambda i: NULL)
    s, v = D.run(st, f, [num(1), num(tp.m), num(tp.n)] + [num(len(tp.abs))] * switches + [x, crs])
    if s != 'ok': raise Broken('%s fails' % name)
    if D.pos['op'] != len(tp.tape): raise Broken('leaves the tape at operation %d of %d' % (D.pos['op'], len(tp.tape)))
    if D.open: raise Broken('the sweep is not ended')
    rc = const_of(toP(v))
    out = [indices(D, st, crs, i, tp.n + len(tp.abs) * switches, 'row') for i in range(rows)]
    keep = set()
    for i in range(rows):
        r = D.get(st, crs, i)
        keep.add(r[1])
        if r[2] != ZERO: raise Broken('row %d does not start its block' % i)
        if D.arrays.get(r[1]) is False: raise Broken('row %d is not an array' % i)
    left = [r for r in D.leaks() if r not in keep]
    if left: raise Broken('%d blocks are never released' % len(left))
    return rc, out

def kinks(tp, rows):
    """every abs is a switch: a row of its argument and an independent for its result"""
    dom, bad, swt = dict(tp.dom), [], 0
    if any(tp.cx.names[o.code] != 'abs_val' for o in tp.ops): return bad
    for a, r in tp.abs:
        want = set(dom.get(a, ()))
        if rows[tp.m + swt] != want: bad.append('the pattern of the argument of an abs is %s instead of %s' % (sorted(rows[tp.m + swt]), sorted(want)))
        dom[r] = {tp.n + swt}
        swt += 1
    for i, p in enumerate(tp.uses):
        if rows[i] != set(dom.get(p, ())): bad.append('the pattern of %s is %s instead of %s (%d is the first switch)' % (tp.nameof(p), sorted(rows[i]), sorted(dom.get(p, ())), tp.n))
    return bad

def judge(cx, name, tp, alias):
    """problems of one run"""
    if any(cx.names[o.code] in REFUSED.get(name, ()) for o in tp.ops): raise Skip('refused by design')
    tight = not name.endswith((SAFE, 'absnormal'))
    rc, rows = sweep_run(cx, name, tp)
    bad = []
    if rc is None or rc < 0: bad.append('returns %s' % rc)
    if tp.times > 1: return bad
    if name.endswith('absnormal') and tp.abs: return bad + kinks(tp, rows)
    deps, uppers, pairs, may = {}, {}, set(), set()
    D = tp.dom
    un = lambda ls: set().union(*[D.get(l, frozenset()) for l in ls]) if ls else set()
    fin = {tp.place(l): F_ for l, F_ in tp.final.items()}
    for p in tp.uses:
        F_ = fin.get(p)
        if F_ is None:
            deps[p] = uppers[p] = set(D.get(p, ()))
            continue
        d, pr, mp = support(tp, F_, tight)
        deps[p], uppers[p] = un(d), un(made_of(tp, F_))
        for ps, out in ((pr, pairs), (mp, may)):
            for a, b in ps:
                for i in D.get(a, ()):
                    for j in D.get(b, ()): out |= {(i, j), (j, i)}
    if alias:
        allm = un(D)
        uppers = {p: allm for p in uppers}
    if not tp.hess:
        for i, p in enumerate(tp.uses):
            if not deps[p] <= rows[i]: bad.append('the pattern of %s misses independents %s' % (tp.nameof(p), sorted(deps[p] - rows[i])))
            if not rows[i] <= uppers[p]: bad.append('the pattern of %s has independents %s it cannot depend on' % (tp.nameof(p), sorted(rows[i] - uppers[p])))
        return bad
    have = {(i, j) for i, r in enumerate(rows) for j in r}
    w = tp.weights
    for p in tp.uses:
        k = w[p]
        col = {j for i, j in have if i == k and j < tp.n0}
        if not deps[p] <= col: bad.append('the product of %s with an independent misses the pairs with independents %s' % (tp.nameof(p), sorted(deps[p] - col)))
        if not col <= uppers[p]: bad.append('the product of %s with an independent has pairs with independents %s' % (tp.nameof(p), sorted(col - uppers[p])))
        if any(i == k and j >= tp.n0 and j != k for i, j in have): bad.append('independents of different products are paired')
    own = {(i, j) for i, j in have if i < tp.n0 and j < tp.n0}
    if not pairs <= own: bad.append('misses the pairs %s' % sorted(pairs - own)[:6])
    loose = any(cx.names[o.code] in LOOSE for o in tp.ops) or '_old_' in name and any(x in o.locs[:-1] for o in tp.ops for x in o.locs[-1:])
    loose = loose or '_old_' in name and any(cx.names[o.code] in INPLACE for o in tp.ops)
    loose = loose or alias and any(cx.names[o.code] == 'div_a_a' for o in tp.ops)
    if not (tp.temps or loose) and not own <= may: bad.append('has the pairs %s, which are in no second derivative' % sorted(own - may)[:6])
    allow = un(D)
    if not own <= {(i, j) for i in allow for j in allow}: bad.append('has pairs of independents that meet nowhere')
    asym = [(i, j) for i, j in have if (j, i) not in have]
    if asym: bad.append('is not symmetric: %s' % sorted(asym)[:4])
    return bad

# ------------------------------------------------------------------ the check
CX_ = None
BIG = 25
def scenarios(n, signed, name):
    """(name, arguments of Tape): sets of independents, signs, repetitions, equal values"""
    ov = lambda k, n: {k, k + 1}
    pos = lambda k: False
    S = [('overlapping sets', dict(sets=ov, signs=pos)), ('disjoint sets', dict(sets=lambda k, n: {k}, signs=pos))]
    S.append(('the same set', dict(sets=lambda k, n: {0, 1}, signs=pos)))
    S.append(('sets in falling order', dict(sets=lambda k, n: {2 * (n - k), 2 * (n - k) + 3}, signs=pos)))
    S.append(('nested sets', dict(sets=lambda k, n: set(range(k + 1)), signs=pos)))
    if not name.startswith('nonl_ind_forward'): S.append(('sets larger than a block', dict(sets=lambda k, n: set(range(BIG)) if k == 0 else {k, BIG + k}, signs=pos)))
    if not name.startswith('nonl_ind_forward'): S.append(('last set larger than a block', dict(sets=lambda k, n: set(range(BIG)) if k == n - 1 else {k, BIG + k}, signs=pos)))
    for j in range(n): S.append(('operand %d constant' % j, dict(sets=lambda k, n, j=j: set() if k == j else {k, k + 1}, signs=pos)))
    S.append(('live variables', dict(sets=lambda k, n: {0, 1} if k == 0 else set(), signs=pos, stock=True)))
    S.append(('live first variable', dict(sets=lambda k, n: {k} if k else set(), signs=pos, stock=True)))
    if signed:
        S.append(('live variables of different signs', dict(sets=lambda k, n: {0, 1} if k == n - 1 else set(), signs=lambda k: k % 2 == 0, stock=True)))
        S.append(('negative values', dict(sets=ov, signs=lambda k: True)))
        S.append(('alternating signs', dict(sets=ov, signs=lambda k: k % 2 == 0)))
        S.append(('alternating signs from the second', dict(sets=ov, signs=lambda k: k % 2 == 1)))
        S.append(('equal values', dict(sets=ov, signs=pos, same=True)))
    S.append(('repeated', dict(sets=lambda k, n: set() if k else {0}, signs=pos, times=14)))
    return S

SIGNED = {'min_op', 'abs_val', 'cond_assign', 'cond_assign_s', 'cond_eq_assign', 'cond_eq_assign_s', 'ceil_op', 'floor_op',
          'ref_cond_assign', 'ref_cond_assign_s', 'ref_cond_eq_assign', 'ref_cond_eq_assign_s'}
MARKS = ('assign_ind', 'assign_dep', 'ref_assign_ind')

def products(c):
    """products the recorder counts"""
    if c is None: return 1
    k = 0
    for e in c.events:
        if e[0] == 'ctr' and e[1] == 'increment_num_eq_prod': k += 1
        if e[0] == 'ctr' and e[1] == 'add_num_eq_prod': k += int(const_of(toP(e[2])))
    return k

def job(a):
    """all scenarios of one run in one sweep"""
    i, name = a
    ops, final, cond, cname, fname, c = RUNS[i]
    cx = CX_
    alias = c.alias if c is not None else ()
    out = []
    try: n = len(Tape(cx, ops, final, cond, alias, 1, lambda k, n: {k}, lambda k: False, False).dom)
    except (Skip, NoNumber, KeyError) as ex: return a, [(None, 'skip', str(ex))]
    signed = any(cx.names[o.code] in SIGNED for o in ops)
    for what, kw in scenarios(min(n, 6), signed, name):
        try:
            tp = Tape(cx, ops, final, cond, alias, products(c), hess=name in HESS, **kw)
            bad = judge(cx, name, tp, bool(alias))
            out.append((what, 'bad' if bad else 'ok', '; '.join(bad[:3])))
        except Skip as ex:
            out.append((what, 'skip', str(ex)))
            if 'refused' in str(ex): break
        except (NoNumber, Unsupported) as ex: out.append((what, 'undecided', str(ex)))
        except Broken as ex: out.append((what, 'bad', str(ex)))
    return a, out

def c16():
    global CX_, RUNS
    rep = Report('C16', 'constant propagation through the index domain sweeps over the records of every recorder')
    rep.rule('pattern', 'the row of a Jacobian pattern has every independent on which the variable depends and none it is not made of; a Hessian pattern has every pair of independents that enter a nonlinear operation together, '
             'is symmetric, pairs nothing after linear operations and nothing that meets nowhere')
    rep.rule('switch', 'in abs-normal mode every abs has a row with exactly the independents of its argument, and its result depends on its own switch only')
    rep.rule('memory', 'no access outside of a block, to a released block or to a value never written; blocks are released in the form they were allocated in, rows start their block, and nothing but the rows stays allocated')
    rep.rule('protocol', 'the records are read completely, the sweep is ended and the code is not negative')
    CX_ = cx = CX.Ctx(JAC + HESS)
    RUNS = [r for r in runs_of(cx, rep) if not any(cx.names[o.code] in MARKS for o in r[0])]
    for name in JAC + HESS: cx.sweep_fn(name)
    jobs = [(i, name) for name in JAC + HESS for i in range(len(RUNS))]
    # runs of the same operations with the same values of the conditions are kept: their tapes differ
    with ProcessPoolExecutor(8) as ex:
        for (i, name), res in ex.map(job, jobs, chunksize=8):
            ops, final, cond, cname, fname, c = RUNS[i]
            bad = {}
            for what, s, why in res:
                key = '%s:%s:%s' % (name, cname, what)
                if s == 'undecided': rep.skip(key, why)
                elif s == 'skip':
                    if 'refused' in why: rep.count('refused by design')
                    else: rep.skip(key, why)
                elif s == 'bad': bad.setdefault(why, []).append(what)
                else:
                    rep.count(name)
                    rep.check(True, key, key, sample=key)
            for why, ws in bad.items():
                rep.check(False, '%s:%s:%s' % (name, cname, ws[0]), '%s on the operations %s of %s with %s%s: %s' % (
                    name, ', '.join(cx.names[o.code] for o in ops), cname, ws[0], ' and %d more' % (len(ws) - 1) if len(ws) > 1 else '', why))
    rep.floor(5000, 'patterns')
    return rep.finish()

CHECKS = {'C16': c16}
