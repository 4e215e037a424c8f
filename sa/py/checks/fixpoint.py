"""C23: fixed-point iterations.

Recording a fixed-point iteration and the sweeps that replay it are interpreted
completely.  The user's step, its active version and the norms are formal: the
step takes iterate k to iterate k + 1, a norm of the difference of two iterates
becomes small at a chosen iteration; the sweeps over the taped step are
contracts.
"""
from fractions import Fraction
import ctx as CX
import terms as T
from terms import num, const_of, toP, ZERO, ONE, atom, isP, add, sub
from load import AnalysisBroken
from report import Report
from absint import State, Unsupported, Dead, cell, NULL
from drive import Broken
from checks.extern import World, OUTER
from checks.checkpoint import CP

FILES = ('fixpoint.cpp',)
EPS, EPSD = Fraction(1, 2), Fraction(1, 5)

class Part:
    """a fixed-point iteration: outer tape, tape of the step, dimensions, largest numbers of iterations"""
    def __init__(self, tape, sub, dx, du, nmax=40, nderiv=40):
        self.tape, self.sub, self.dx, self.du, self.nmax, self.nderiv = tape, sub, dx, du, nmax, nderiv
        self.index = None

class FP(CP):
    def __init__(self, ctx, tu, parts):
        World.__init__(self, ctx, tu, [], 2, 0, 1, 1)
        self.parts, self.kept, self.taping, self.scope, self.stacks = parts, {}, None, [], {}
        self.cur_tape, self.new, self.idx, self.K, self.ev = OUTER, None, {}, {}, 0
        self.own, self.at_tape, self.active, self.count, self.called = {}, {}, {}, {}, {}
        self.max_inline = 60
        P, V = self.prims, 'ValueTape::'
        P['findTape'] = lambda I, st, e, xs: ('lv', cell(('obj', 'tape', T.unP(toP(self.ev_val(xs[0], st))))))
        P['currentTape'] = lambda I, st, e, xs: ('lv', cell(('obj', 'tape', num(self.cur_tape))))
        P['setCurrentTape'] = self.set_tape
        P[V + 'tapeId'] = lambda I, st, e, xs: num(self.tape_of(st, e, xs))
        P[V + 'ext_diff_fct_index'] = lambda I, st, e, xs: num(self.idx.get(self.tape_of(st, e, xs), 99))
        P[V + 'ensureContiguousLocations'] = lambda I, st, e, xs: ZERO
        P['reg_ext_fct'] = self.m_reg
        P['call_ext_fct'] = self.m_call
        P['trace_on'], P['trace_off'] = self.t_on, self.t_off
        P['adouble::operator<<='], P['adouble::operator>>='] = self.a_in, self.a_out
        P['adouble::operator='] = self.a_assign
        P['adouble::value'] = self.a_value
        P['std::find_if'] = self.m_find
        P['std::operator=='] = P['std::operator!='] = self.m_same
    # ------------------------------------------------------------ library
    def e_delete(self, e, st):
        v = self.ev_val(e[3], st)
        if not isP(v) and v[0] == 'ptr' and v[1] in self.own and self.own[v[1]] != self.cur_tape:
            raise Broken('variables of tape %d are released while tape %d is the current one at %s' % (self.own[v[1]], self.cur_tape, self.where(e[1])))
        return super().e_delete(e, st)
    def e_new(self, e, st):
        v = super().e_new(e, st)
        if e[2].replace('const ', '') == 'adouble': self.own[v[1]] = self.cur_tape
        return v
    def m_find(self, I, st, e, xs):
        a, b, f = (self.ev_val(x, st) for x in xs)
        back = 'reverse_iterator' in e[3]
        n = self.span(b, a) if back else self.span(a, b)
        for k in range(n):
            i = -k - 1 if back else k
            if self.truthy(self.apply(f, st, [self.deref(self.ptr_add(a, num(i)))])): return self.ptr_add(a, num(-k if back else k))
        return b
    def truthy(self, v):
        c = const_of(toP(v))
        if c is None: raise Unsupported('condition ' + T.show(v))
        return c != 0
    def m_same(self, I, st, e, xs):
        v = [self.ev_val(x, st) for x in xs]
        eq = all(x == v[0] for x in v)
        return ONE if eq == e[2].endswith('==') else ZERO
    def nvec(self, st, lv):
        c = st.mem.get((('vecsize', lv[1], lv[2]), ZERO))
        return 0 if c is None else int(const_of(toP(c)))
    def std_method(self, e, st, q, base, rt, lv, xs):
        if q.startswith('std::vector<fpi_data'):
            d = ('vec', lv[1], lv[2])
            n = self.nvec(st, lv)
            setn = lambda k: st.mem.__setitem__((('vecsize', lv[1], lv[2]), ZERO), num(k))
            setn(n)
            if base in ('emplace_back', 'push_back'):
                if len(xs) != 1: raise Unsupported('emplace_back of %d arguments' % len(xs))
                v = self.ev_val(xs[0], st)
                src = v[1] if isinstance(v, tuple) and v and v[0] in ('lv', 'objv') else self.lval(xs[0], st)
                self.copy_obj(st, src, cell(d, num(n)))
                setn(n + 1)
                self.size[d], self.kind[d] = n + 1, 'm'
                return ('lv', cell(d, num(n)))
            if base in ('rbegin', 'crbegin'): return ('ptr', d, num(n))
            if base in ('rend', 'crend'): return ('ptr', d, ZERO)
            if base in ('back', 'front') and not n: raise Broken('%s of an empty vector at %s' % (base, self.where(e[1])))
            if base == 'pop_back':
                setn(n - 1)
                return ZERO
        if q.startswith('std::reverse_iterator'):
            if base in ('operator*', 'operator->'):
                w = self.ptr_add(self.load(st, lv), num(-1))
                self.inside(w, st, e)
                return ('lv', self.deref(w)) if base == 'operator*' else w
            if base == 'operator++':
                old = self.load(st, lv)
                self.store(st, lv, self.ptr_add(old, num(-1)))
                return old if xs else ('lv', lv)
            if base == 'base': return self.load(st, lv)
        return super().std_method(e, st, q, base, rt, lv, xs)
    def inside(self, p, st, e):
        n, i = self.size.get(p[1], 0), const_of(toP(p[2]))
        if i is None or not 0 <= i < n: raise Broken('an iterator outside of its vector at ' + self.where(e[1]))
    def init_hook(self, st, lv):
        r = self.root(lv[1])
        if r[0] in ('edf', 'global'): return ZERO
        return super().init_hook(st, lv)
    # ------------------------------------------------------------ tapes
    def tape_of(self, st, e, xs):
        lv = self.deref(self.ev_val(xs[0], st)) if e[5] else self.lval(xs[0], st)
        r = lv[1]
        c = const_of(toP(r[2])) if isinstance(r, tuple) and r[:2] == ('obj', 'tape') else None
        if c is None: raise Unsupported('tape at ' + self.where(e[1]))
        return int(c)
    def set_tape(self, I, st, e, xs):
        c = const_of(toP(self.ev_val(xs[0], st)))
        if c is None: raise Unsupported('setCurrentTape')
        self.cur_tape = int(c)
        return ZERO
    def fpart(self): return self.parts[self.new]
    def m_reg(self, I, st, e, xs):
        t = [const_of(toP(self.ev_val(x, st))) for x in xs[:2]]
        p = self.fpart()
        if t != [p.tape, p.sub]: raise Broken('registers a function of tapes %s' % t)
        f = xs[2]
        while f[0] == 'ctor' and len(f) >= 6: f = f[5]
        b = cell(('edf', self.new))
        st.mem[self.field(st, b, 'function')[1:3]] = self.ev_val(f, st)
        st.mem[self.field(st, b, 'index')[1:3]] = num(p.index)
        return ('ptr', b[1], b[2])
    def m_call(self, I, st, e, xs):
        ed, n, xa, m, ya = (self.ev_val(x, st) for x in xs)
        p = self.fpart()
        if isP(ed): ed = T.unP(ed)
        if ed != ('ptr', ('edf', self.new), ZERO): raise Broken('calls another function object')
        if [const_of(toP(n)), const_of(toP(m))] != [p.dx + p.du, p.dx]: raise Broken('calls the iteration with %s arguments and %s results' % (T.show(n), T.show(m)))
        if self.cur_tape != p.tape: raise Broken('calls the iteration while tape %d is the current one' % self.cur_tape)
        if self.own.get(xa[1]) != p.tape: raise Broken('the arguments of the call are no variables of the tape')
        if ya[1] != ('par', 'x_fix%d' % self.new): raise Broken('the results of the call are not those of the caller')
        vs = [toP(self.get(st, xa, i)) for i in range(p.dx + p.du)]
        b = self.base_now
        self.expect(vs, [self.x(b, 0, i) for i in range(p.dx)] + [self.u(b, j) for j in range(p.du)], 'the arguments of the recorded call')
        X = self.arr(st, 'rec.x%d' % self.new, (p.dx + p.du,), val=lambda i: vs[i])
        Y = self.arr(st, 'rec.y%d' % self.new, (p.dx,))
        rc = self.callback(st, self.new, 'function', [num(p.tape), num(p.dx), num(p.dx + p.du), X, Y]) if False else self.callback(st, self.new, 'function', [num(p.sub), num(p.dx), num(p.dx + p.du), X, Y])
        for i in range(p.dx + p.du): self.put(st, xa, (i,), self.get(st, X, i))
        for i in range(p.dx): self.put(st, ya, (i,), self.get(st, Y, i))
        self.called[self.new] = self.called.get(self.new, 0) + 1
        return rc
    # ------------------------------------------------------------ values
    def x(self, b, k, i): return atom(('in', 'x', self.new, b, k, i))
    def u(self, b, j): return atom(('in', 'u', self.new, b, j))
    def xd(self, b, k, i): return atom(('in', 'xd', self.new, b, k, i))
    def ud(self, b, j): return atom(('in', 'ud', self.new, b, j))
    def expect(self, got, want, what):
        for i, (g, w) in enumerate(zip(got, want)):
            if toP(g) != toP(w): raise Broken('%s: component %d is %s instead of %s' % (what, i, T.show(g)[:50], T.show(w)[:50]))
    def iterate(self, vs, name, what):
        """the number of the iterate these are the components of"""
        k = None
        for i, v in enumerate(vs):
            a = T.atoms(toP(v))
            a = next(iter(a)) if len(a) == 1 else None
            if a is None or toP(v) != atom(a) or a[:4] != ('in', name, self.new, self.base_now): raise Broken('%s: component %d is %s' % (what, i, T.show(v)[:60]))
            if a[5] != i: raise Broken('%s: component %d is that of %d' % (what, i, a[5]))
            if k not in (None, a[4]): raise Broken('%s: components of different iterates' % what)
            k = a[4]
        return k
    # ------------------------------------------------------------ functions of the user
    def user(self, k, s, vals, st, at):
        if s != self.new: raise Broken('runs the functions of another iteration at ' + at)
        p, b = self.fpart(), self.base_now
        ds = [const_of(toP(v)) for v in vals if isP(v) and const_of(v) is not None]
        if k in ('norm', 'norm_deriv'):
            if ds != [p.dx]: raise Broken('%s gets dimension %s at %s' % (k, ds, at))
            d = [toP(self.get(st, vals[0], i)) for i in range(p.dx)]
            if self.mode == 'reverse':
                if k != 'norm_deriv': raise Broken('the norm of iterates is used for adjoints at ' + at)
                j = self.J
                want = [sub(self.S(j, i), self.S(j - 1, i)) for i in range(p.dx)]
                if d != want and d != [sub(ZERO, w) for w in want]: raise Broken('norm_deriv of %s at %s: no difference of successive adjoints' % (T.show(d[0])[:80], at))
                return num(Fraction(1, 10) if j >= self.K['r'] else Fraction(3, 10))
            f, kk = (self.x, 'x') if k == 'norm' else (self.xd, 'd')
            if k == 'norm_deriv' and self.mode != 'fos': raise Broken('norm_deriv without tangents at ' + at)
            j = self.at_step
            want = [sub(f(b, j + 1, i), f(b, j, i)) for i in range(p.dx)]
            if d != want and d != [sub(ZERO, w) for w in want]: raise Broken('%s of %s at %s: no difference of successive iterates' % (k, T.show(d[0])[:80], at))
            small, big = (Fraction(3, 10), Fraction(7, 10)) if k == 'norm' else (Fraction(1, 10), Fraction(3, 10))
            return num(small if j + 1 >= self.K[kk] else big)
        if ds != [p.dx, p.du]: raise Broken('the step gets dimensions %s at %s' % (ds, at))
        X, U, Y = vals[:3]
        if k == 'double':
            j = self.iterate([self.get(st, X, i) for i in range(p.dx)], 'x', 'the step at ' + at)
            self.expect([self.get(st, U, i) for i in range(p.du)], [self.u(b, i) for i in range(p.du)], 'the parameters of the step at ' + at)
            for i in range(p.dx): self.put(st, Y, (i,), self.x(b, j + 1, i))
            self.at_step = j
            self.count['eval'] = self.count.get('eval', 0) + 1
            return ZERO
        if self.taping is None: raise Broken('the active step runs without a recording at ' + at)
        c = [self.active.get((q[1], toP(add(q[2], num(i))))) for q, n in ((X, p.dx), (U, p.du)) for i in range(n)]
        if None in c: raise Broken('the active step gets variables that are not independent at ' + at)
        if [y[0] for y in c] != list(range(p.dx + p.du)): raise Broken('the independents of the step are in another order')
        j = self.iterate([y[1] for y in c[:p.dx]], 'x', 'the recorded step')
        self.expect([y[1] for y in c[p.dx:]], [self.u(b, i) for i in range(p.du)], 'the parameters of the recorded step')
        if self.own.get(Y[1]) != p.sub: raise Broken('the results of the recorded step are no variables of its tape')
        self.taping.update(k=j, base=b)
        for i in range(p.dx):
            self.active[(Y[1], toP(add(Y[2], num(i))))] = ('y', self.x(b, j + 1, i), i)
            self.put(st, Y, (i,), self.x(b, j + 1, i))
        return ZERO
    # ------------------------------------------------------------ variables
    def on_tape(self, r, t, what):
        if r in self.own and self.own[r] != t: raise Broken('%s a variable of tape %d while tape %d is the current one' % (what, self.own[r], t))
    def a_assign(self, I, st, e, xs):
        d = self.deref(self.ev_val(xs[0], st)) if e[5] else self.lval(xs[0], st)
        self.on_tape(d[1], self.cur_tape, 'assigns')
        self.store(st, d, self.load(st, self.lval(xs[1], st)) if 'ERKS' in e[3] else self.ev_val(xs[1], st))
        return ('lv', d)
    def a_value(self, I, st, e, xs):
        d = self.deref(self.ev_val(xs[0], st)) if e[5] else self.lval(xs[0], st)
        self.on_tape(d[1], self.cur_tape, 'reads')
        if len(xs) > 1:
            self.store(st, d, self.ev_val(xs[1], st))
            return ZERO
        return self.load(st, d)
    def t_on(self, I, st, e, xs):
        v = [const_of(toP(self.ev_val(x, st))) for x in xs[:2]]
        if self.taping: raise Broken('records a step while recording one')
        if v[0] != self.fpart().sub: raise Broken('records the step on tape %s' % v[0])
        self.taping = {'tape': int(v[0]), 'keep': int(v[1]) if len(v) > 1 and v[1] is not None else 0, 'ind': 0, 'dep': 0}
        self.cur_tape = int(v[0])
        self.active = {}
        self.kept.pop(int(v[0]), None)
        return ZERO
    def a_in(self, I, st, e, xs):
        k = self.acell(xs, e, st)
        if self.taping is None or self.own.get(k[0]) != self.taping['tape']: raise Broken('an independent that is no variable of the tape that is recorded')
        v = self.ev_val(xs[1], st)
        self.active[k] = (self.taping['ind'], v)
        self.taping['ind'] += 1
        self.store(st, cell(*k), v)
        return ZERO
    def t_off(self, I, st, e, xs):
        t, p = self.taping, self.fpart()
        if t is None: raise Broken('ends a recording that is not open')
        self.taping = None
        if 'k' not in t: raise Broken('records no step')
        if t['ind'] != p.dx + p.du or t['dep'] != p.dx: raise Broken('the recorded step has %d independents and %d dependents' % (t['ind'], t['dep']))
        self.at_tape[p.sub] = (t['base'], t['k'])
        if t['keep'] == 1: self.kept[p.sub] = (t['base'], t['k'])
        return ZERO
    # ------------------------------------------------------------ sweeps over the step
    def stepping(self, st, tag, m, n, x):
        p = self.fpart()
        if tag != p.sub: raise Broken('evaluates tape %s: the step is on tape %d' % (tag, p.sub))
        if [m, n] != [p.dx, p.dx + p.du]: raise Broken('%s dependents and %s independents of the step' % (m, n))
        if tag not in self.at_tape: raise Broken('no step is recorded')
        j = self.iterate([self.get(st, x, i) for i in range(p.dx)], 'x', 'its point')
        self.expect([self.get(st, x, p.dx + i) for i in range(p.du)], [self.u(self.base_now, i) for i in range(p.du)], 'the parameters')
        self.count['eval'] = self.count.get('eval', 0) + 1
        return p, j
    def w_zos_forward(self, st, rc, tag, m, n, keep, x, y):
        p, j = self.stepping(st, tag, m, n, x)
        if keep not in (0, 1): raise Broken('keep = %s' % keep)
        if keep: self.kept[tag] = (self.base_now, j)
        for i in range(p.dx): self.put(st, y, (i,), self.x(self.base_now, j + 1, i))
        self.at_step = j
        return 3
    def w_fos_forward(self, st, rc, tag, m, n, keep, x, xd, y, yd):
        p, j = self.stepping(st, tag, m, n, x)
        b = self.base_now
        if keep != self.keep_now: raise Broken('keep = %s instead of %s' % (keep, self.keep_now))
        if keep: self.kept[tag] = (b, j)
        if self.iterate([self.get(st, xd, i) for i in range(p.dx)], 'xd', 'its direction') != j: raise Broken('the direction is not that of the iterate')
        self.expect([self.get(st, xd, p.dx + i) for i in range(p.du)], [self.ud(b, i) for i in range(p.du)], 'the direction of the parameters')
        for i in range(p.dx):
            self.put(st, y, (i,), self.x(b, j + 1, i))
            self.put(st, yd, (i,), self.xd(b, j + 1, i))
        self.at_step = j
        return 3
    def bar(self, i): return atom(('in', 'bar', self.new, self.base_now, i))
    def S(self, j, i):
        """component i of the adjoint after j products with the transposed Jacobian"""
        if j < 0: return ZERO
        return self.bar(i) if j == 0 else add(self.bar(i), atom(('in', 'Jx', self.new, j, i)))
    def w_fos_reverse(self, st, rc, tag, m, n, u, z):
        p = self.fpart()
        if tag != p.sub: raise Broken('evaluates tape %s: the step is on tape %d' % (tag, p.sub))
        if [m, n] != [p.dx, p.dx + p.du]: raise Broken('%s dependents and %s independents of the step' % (m, n))
        if tag not in self.kept: raise Broken('no values of the step are kept')
        b, k = self.kept[tag]
        if b != self.base_now or k + 1 < self.K['x']: raise Broken('the values kept are not those of the fixed point')
        w = [toP(self.get(st, u, i)) for i in range(p.dx)]
        if w == [ZERO] * p.dx: j = -1
        elif w == [self.S(self.J, i) for i in range(p.dx)]: j = self.J
        else: raise Broken('weights %s: not the adjoint so far' % T.show(w[0])[:60])
        self.J = j + 1
        self.count['rev'] = self.count.get('rev', 0) + 1
        g = lambda nm, i: ZERO if j < 0 else atom(('in', nm, self.new, j + 1, i))
        for i in range(p.dx): self.put(st, z, (i,), g('Jx', i))
        for i in range(p.du): self.put(st, z, (p.dx + i,), g('Ju', i))
        return 3
    # ------------------------------------------------------------ events
    def first(self, q):
        for path, tu in sorted(self.prog.tus.items()):
            if path.endswith('fixpoint.cpp'):
                for f in tu.funcs:
                    if f['q'] == q and f['body'] is not None: return dict(f, tu=tu)
        raise AnalysisBroken(q + ' not found')
    def record(self, st, s, K):
        p = self.parts[s]
        self.new, self.base_now, self.mode, self.K, self.count = s, 'r', 'zos', {'x': K}, {}
        p.index = self.idx.get(p.tape, -1) + 1
        self.idx[p.tape] = p.index
        before = self.cur_tape
        f = self.first('fp_iteration')
        cb = lambda n: ('ptr', ('cb', n, s), ZERO)
        def ad(nm, vals):
            a = self.arr(st, nm + str(s), (len(vals),), val=lambda i: vals[i])
            self.own[a[1]] = p.tape
            return a
        A = {'tapeId': num(p.tape), 'sub_tape_num': num(p.sub), 'double_func': cb('double'), 'adouble_func': cb('active'), 'norm_func': cb('norm'), 'norm_deriv_func': cb('norm_deriv'),
             'epsilon': num(EPS), 'epsilon_deriv': num(EPSD), 'N_max': num(p.nmax), 'N_max_deriv': num(p.nderiv), 'dim_x': num(p.dx), 'dim_u': num(p.du),
             'x_0': ad('x_0', [self.x('r', 0, i) for i in range(p.dx)]), 'u': ad('u', [self.u('r', i) for i in range(p.du)]), 'x_fix': ad('x_fix', [atom(('in', 'old', i)) for i in range(p.dx)])}
        names = [f['tu'].decls[x]['n'] for x in f['ps']]
        pos = 'tapeId sub_tape_num double_func adouble_func norm_func norm_deriv_func epsilon epsilon_deriv N_max N_max_deriv x_0 u x_fix dim_x dim_u'.split()
        if len(names) != len(pos): raise Unsupported('parameters of fp_iteration')
        rc = self.go(st, f, [A[n] for n in pos])
        done = K <= p.nmax
        if const_of(toP(rc)) != (K if done else -1): raise Broken('fp_iteration returns %s after %d iterations, %d are needed' % (T.show(rc), self.count.get('eval', 0), K))
        k = min(K, p.nmax)
        self.expect([self.get(st, A['x_fix'], i) for i in range(p.dx)], [self.x('r', k, i) for i in range(p.dx)], 'the fixed point')
        self.expect([self.get(st, A['x_0'], i) for i in range(p.dx)], [self.x('r', 0, i) for i in range(p.dx)], 'the start afterwards')
        self.expect([self.get(st, A['u'], i) for i in range(p.du)], [self.u('r', i) for i in range(p.du)], 'the parameters afterwards')
        if self.called.get(s) != 1: raise Broken('the iteration is recorded %d times' % self.called.get(s, 0))
        if self.taping: raise Broken('the recording of the step is not ended')
        if self.at_tape.get(p.sub) != ('r', k): raise Broken('the step is recorded at iterate %s instead of %d' % (self.at_tape.get(p.sub), k))
        if p.sub not in self.kept: raise Broken('the recorded step is not kept for the reverse sweep')
        if self.cur_tape != before: raise Broken('the current tape is %d afterwards instead of %d' % (self.cur_tape, before))
        if self.count.get('eval', 0) > p.nmax: raise Broken('%d iterations, at most %d are allowed' % (self.count['eval'], p.nmax))
    def sweep_part(self, st, s, how, b, K, keep=0):
        p = self.parts[s]
        self.ev += 1
        nm = lambda x: '%s.%d' % (x, self.ev)
        self.new, self.base_now, self.mode, self.count, self.keep_now = s, b, how, {}, keep
        self.idx[p.tape] = p.index
        n = p.dx + p.du
        t = [num(p.tape), num(p.dx), num(n)]
        if how == 'reverse':
            self.K = dict(self.Kof[s], r=K)
            self.J = -1
            U = self.arr(st, nm('bar'), (p.dx,), val=self.bar)
            Z = self.arr(st, nm('z'), (n,), val=lambda i: atom(('in', 'z', i)))
            X = self.arr(st, nm('x'), (n,), val=lambda i: self.x(b, 0, i) if i < p.dx else self.u(b, i - p.dx))
            Y = self.arr(st, nm('y'), (p.dx,), val=lambda i: self.x(b, self.K['x'], i))
            rc = self.callback(st, s, 'fos_reverse', t + [U, Z, X, Y])
            self.expect([self.get(st, U, i) for i in range(p.dx)], [self.bar(i) for i in range(p.dx)], 'the adjoint of the result afterwards')
            self.expect([self.get(st, Z, i) for i in range(p.dx)], [atom(('in', 'z', i)) for i in range(p.dx)], 'the adjoint of the start')
            got = [toP(self.get(st, Z, p.dx + i)) for i in range(p.du)]
            last = [add(atom(('in', 'z', p.dx + i)), atom(('in', 'Ju', s, self.J, i))) for i in range(p.du)]
            if K + 3 < p.nderiv:
                self.expect(got, last, 'the adjoint of the parameters')
                if self.J < K or const_of(toP(rc)) is None or const_of(toP(rc)) < 0: raise Broken('ends with %s after %d products, %d are needed' % (T.show(rc), self.J, K))
                if self.J > K + 1: raise Broken('takes %d products, %d are needed' % (self.J, K))
            elif K > p.nderiv + 3:
                if const_of(toP(rc)) is None or const_of(toP(rc)) >= 0: raise Broken('returns %s though the adjoints do not converge' % T.show(rc))
                if self.count.get('rev', 0) > p.nderiv: raise Broken('%d products, at most %d are allowed' % (self.count['rev'], p.nderiv))
            return
        self.K = {'x': K} if isinstance(K, int) else {'x': K[0], 'd': K[1]}
        k = max(self.K.values())
        X = self.arr(st, nm('x'), (n,), val=lambda i: self.x(b, 0, i) if i < p.dx else self.u(b, i - p.dx))
        Y = self.arr(st, nm('y'), (p.dx,))
        if how == 'zos': rc = self.callback(st, s, 'zos_forward', t + [num(keep), X, Y])
        else:
            Xd = self.arr(st, nm('X'), (n,), val=lambda i: self.xd(b, 0, i) if i < p.dx else self.ud(b, i - p.dx))
            Yd = self.arr(st, nm('Y'), (p.dx,))
            rc = self.callback(st, s, 'fos_forward', t + [num(keep), X, Xd, Y, Yd])
        lim = p.nmax if how == 'zos' else max(p.nmax, p.nderiv)
        c = const_of(toP(rc))
        if k < lim or how == 'zos' and k == lim:
            if c is None or c < 0: raise Broken('returns %s though %d iterations suffice' % (T.show(rc), k))
            self.expect([self.get(st, Y, i) for i in range(p.dx)], [self.x(b, k, i) for i in range(p.dx)], 'the fixed point')
            if how == 'fos': self.expect([self.get(st, Yd, i) for i in range(p.dx)], [self.xd(b, k, i) for i in range(p.dx)], 'the tangent of the fixed point')
            if keep and self.kept.get(p.sub, (None, 0))[0] != b: raise Broken('the step is not kept at the new fixed point')
        elif k > lim:
            if c is None or c >= 0: raise Broken('returns %s though the iteration does not converge' % T.show(rc))
            if self.count.get('eval', 0) > lim: raise Broken('%d iterations, at most %d are allowed' % (self.count['eval'], lim))
        self.expect([self.get(st, X, p.dx + i) for i in range(p.du)], [self.u(b, i) for i in range(p.du)], 'the parameters afterwards')
        if how == 'fos': self.expect([self.get(st, Xd, p.dx + i) for i in range(p.du)], [self.ud(b, i) for i in range(p.du)], 'the direction of the parameters afterwards')
        if keep: self.Kof[s] = {'x': k}

# ------------------------------------------------------------------ histories
def scripts():
    """(name, parts, events)"""
    out = []
    R = lambda s, K: ('record', s, K)
    for dx, du in ((1, 1), (2, 3), (3, 1), (2, 0)):
        d = '%d unknowns, %d parameters' % (dx, du)
        P = lambda **k: [(OUTER, 2, dx, du, k)]
        for K in (1, 2, 4):
            out.append(('%s, %d iterations' % (d, K), P(), [R(0, K)]))
            for Kr in (1, 2, 5): out.append(('%s, %d iterations, reverse of %d' % (d, K, Kr), P(), [R(0, K), ('reverse', 0, 'r', Kr)]))
            out.append(('%s, zos_forward of %d' % (d, K), P(), [R(0, 3), ('zos', 0, 'p', K, 0)]))
            out.append(('%s, zos_forward of %d, keeping, reverse' % (d, K), P(), [R(0, 3), ('zos', 0, 'p', K, 1), ('reverse', 0, 'p', 3)]))
            for Kd in (1, 3, 6):
                out.append(('%s, fos_forward of %d, %d' % (d, K, Kd), P(), [R(0, 3), ('fos', 0, 'p', (K, Kd), 0)]))
                out.append(('%s, fos_forward of %d, %d, keeping, reverse' % (d, K, Kd), P(), [R(0, 3), ('fos', 0, 'p', (K, Kd), 1), ('reverse', 0, 'p', 2)]))
        out.append(('%s, recording without convergence' % d, P(nmax=5), [R(0, 9)]))
        out.append(('%s, recording with the last iteration' % d, P(nmax=5), [R(0, 5)]))
        out.append(('%s, zos_forward without convergence' % d, P(nmax=5), [R(0, 3), ('zos', 0, 'p', 9, 0)]))
        out.append(('%s, zos_forward with the last iteration' % d, P(nmax=5), [R(0, 3), ('zos', 0, 'p', 5, 0)]))
        out.append(('%s, fos_forward without convergence' % d, P(nmax=5, nderiv=6), [R(0, 3), ('fos', 0, 'p', (9, 10), 0)]))
        out.append(('%s, fos_forward without convergence of the tangents' % d, P(nmax=5, nderiv=6), [R(0, 3), ('fos', 0, 'p', (2, 12), 0)]))
        out.append(('%s, many iterations of the tangents' % d, P(nmax=3, nderiv=20), [R(0, 2), ('fos', 0, 'p', (2, 9), 0)]))
        out.append(('%s, reverse without convergence' % d, P(nderiv=4), [R(0, 3), ('reverse', 0, 'r', 12)]))
        out.append(('%s, reverse, few iterations of the values' % d, P(nmax=3, nderiv=20), [R(0, 2), ('reverse', 0, 'r', 9)]))
    two = [(OUTER, 2, 2, 1, {}), (OUTER, 3, 1, 2, {})]
    out.append(('two on a tape', two, [R(0, 3), R(1, 2), ('reverse', 1, 'r', 2), ('reverse', 0, 'r', 3)]))
    out.append(('two on a tape, forward', two, [R(0, 3), R(1, 2), ('zos', 0, 'p', 2, 1), ('zos', 1, 'q', 4, 1), ('reverse', 1, 'q', 2), ('reverse', 0, 'p', 3)]))
    out.append(('two on a tape, tangents', two, [R(1, 3), R(0, 2), ('fos', 1, 'p', (2, 3), 1), ('fos', 0, 'q', (4, 1), 1), ('reverse', 0, 'q', 2), ('reverse', 1, 'p', 3)]))
    tt = [(OUTER, 2, 2, 1, {}), (7, 3, 1, 2, {})]
    out.append(('two tapes', tt, [R(0, 3), R(1, 2), ('zos', 0, 'p', 2, 1), ('reverse', 0, 'p', 3), ('zos', 1, 'p', 2, 1), ('reverse', 1, 'p', 1), ('fos', 0, 'q', (3, 3), 0), ('fos', 1, 'q', (2, 5), 0)]))
    out.append(('two tapes, first again', tt, [R(1, 3), R(0, 2), ('reverse', 1, 'r', 2), ('zos', 1, 'p', 2, 0), ('reverse', 0, 'r', 2), ('zos', 0, 'p', 4, 0)]))
    out.append(('recorded again', [(OUTER, 2, 2, 1, {}), (OUTER, 3, 1, 2, {'again': 1})], [R(0, 3), R(1, 2), ('zos', 1, 'p', 3, 1), ('reverse', 1, 'p', 2), ('fos', 1, 'q', (3, 2), 0)]))
    out.append(('repeated', two[:1], [R(0, 3)] + [e for b in 'pqp' for e in (('zos', 0, b, 2, 1), ('reverse', 0, b, 3), ('fos', 0, b, (2, 2), 0))]))
    return out

def run(cx, i):
    name, parts, events = SCRIPTS[i]
    ps = [Part(t, s, dx, du, k.get('nmax', 40), k.get('nderiv', 40)) for t, s, dx, du, k in parts]
    W = FP(cx, next(tu for path, tu in sorted(cx.prog.tus.items()) if path.endswith('fixpoint.cpp')), ps)
    W.Kof = {}
    st = State()
    try:
        for e in events:
            if e[0] == 'record':
                if parts[e[1]][4].get('again'): W.idx.pop(ps[e[1]].tape, None)
                W.record(st, e[1], e[2])
                W.Kof[e[1]] = {'x': e[2]}
            elif e[0] == 'reverse': W.sweep_part(st, e[1], 'reverse', e[2], e[3])
            else: W.sweep_part(st, e[1], e[0], e[2], e[3], e[4])
        lk = W.leaks()
        if lk: raise Broken('%d blocks stay allocated' % len(lk))
    except Broken as ex: return 'bad', str(ex), len(events)
    except (Unsupported, Dead) as ex: return 'undecided', str(ex), 0
    return 'ok', '', len(events)

def c23():
    global SCRIPTS
    rep = Report('C23', 'constant propagation of recorded fixed-point iterations and of their sweeps; step, norms and the sweeps over the step are contracts')
    rep.rule('values', 'recording and forward sweeps iterate the step from the given start with the given parameters until the norm of the last change is small, tangents along; the last iterate is the result, a failure to converge is reported')
    rep.rule('adjoints', 'a reverse sweep iterates the adjoint equation at the fixed point that was evaluated last, adds the result to the adjoints of the parameters and leaves that of the start')
    rep.rule('own', 'every iteration uses its own functions, limits and tape, whatever else is recorded; the step is recorded on its tape with variables of that tape, the current tape is what it was, blocks are released')
    cx = CX.Ctx((), extra=FILES, rec=False)
    SCRIPTS = scripts()
    for i in range(len(SCRIPTS)):
        nm = SCRIPTS[i][0]
        s, why, n = run(cx, i)
        if s == 'undecided': rep.skip(nm, why)
        else:
            rep.count('histories')
            rep.count('events', n)
            rep.check(s == 'ok', nm, '%s: %s' % (nm, why), sample=nm)
    rep.floor(50, 'histories')
    return rep.finish()

CHECKS = {'C23': c23}
