"""C22: checkpointing.

The schedule (revolve), the stack of snapshots, the taping of single steps and
the forward and reverse parts of a checkpointed section are interpreted
completely for every small number of steps and checkpoints.  The user's step is
formal: applied to the state after k steps it yields the state after k + 1; the
inner sweeps are replaced by their contracts: they propagate the tangent or the
adjoint of the step whose values they were given or kept.
"""
import functools, math
from fractions import Fraction
from concurrent.futures import ProcessPoolExecutor
import ctx as CX
import terms as T
from terms import num, const_of, toP, ZERO, ONE, atom, isP
from load import AnalysisBroken
from report import Report
from absint import State, Unsupported, Dead, cell, NULL
from drive import Broken
from checks.extern import World, Obj, OUTER

FILES = ('checkpointing.cpp', 'revolve.cpp')
NS = 'ADOLC::CP::'
DIM = 2
NEST = ('fld', 'vec', 'vecsize', 'arr')

class Sec:
    """a checkpointed part: steps, checkpoints, retaping, the branch each step takes"""
    def __init__(self, steps, snaps, retape=False, branch=None, extra=False):
        self.steps, self.snaps, self.retape, self.extra = steps, snaps, retape, extra
        self.branch = branch or (lambda k: 0)

@functools.lru_cache(None)
def effort(n, c):
    """least number of plain steps that reverses n steps with c snapshots, the first evaluation included"""
    if n == 1: return 0
    if c == 1: return n * (n - 1) // 2
    return min(k + effort(n - k, c - 1) + effort(k, c) for k in range(1, n))

class CP(Obj):
    def __init__(self, ctx, tu, secs):
        World.__init__(self, ctx, tu, [], 4 * len(secs) * DIM + 2, 0, 1, 1)
        self.secs, self.inner, self.kept, self.taping = secs, {}, {}, None
        self.stacks, self.scope, self.extra, self.extras = {}, [], {}, {}
        self.lastbase, self.ev, self.turned, self.steps_done, self.row, self.active = {}, 0, [], 0, 0, {}
        self.spent = {}
        self.max_inline = 60
        self.order_now = [0] * len(secs)
        P, V = self.prims, 'ValueTape::'
        P['findTape'] = P['currentTape'] = lambda I, st, e, xs: ('lv', cell(('obj', 'tape', num(OUTER) if not xs else T.unP(toP(self.ev_val(xs[0], st))))))
        P[V + 'cp_append'] = self.m_append
        P[V + 'get_cp_fct'] = self.m_infos
        P[V + 'branchSwitchWarning'] = lambda I, st, e, xs: ZERO
        P['reg_ext_fct'] = self.m_reg
        P['trace_on'], P['trace_off'] = self.t_on, self.t_off
        P['adouble::operator<<='], P['adouble::operator>>='] = self.a_in, self.a_out
        P['std::swap'] = self.m_swap
        P[V + 'storeSize'] = lambda I, st, e, xs: num(self.nloc)
    # ------------------------------------------------------------ C++ objects
    def s_decl(self, s, st):
        f = super().s_decl(s, st)
        for id, init, static in s[2:]:
            c = self.decl(id)['t'].replace('const ', '')
            if static or c not in self.prog.classes: continue
            if self.dtor(c): self.scope.append((c, st.env[self.dkey(id)]))
        return f
    def dtor(self, c):
        n = c.split('::')[-1]
        for f in self.tu.funcs:
            if f['q'] == c + '::~' + n and f['body'] is not None: return f
        return None
    def s_blk(self, s, st):
        old, self.scope = self.scope, []
        try:
            f = super().s_blk(s, st)
            live = self.scope
        finally: self.scope = old
        for x in ([f.n] if f.n is not None else []) + [y for _, _, y, _ in f.ex]:
            for c, lv in reversed(live): self.call_body(self.dtor(c), x, [], this=self.addr(lv))
        return f
    def rebase(self, r, a, b):
        if not isinstance(r, tuple) or len(r) < 2: return None
        if r[0] in NEST and len(r) >= 3 and r[1] == a[1] and r[2] == a[2]: return (r[0], b[1], b[2]) + r[3:]
        if r[0] in NEST:
            x = self.rebase(r[1], a, b)
            if x is not None: return (r[0], x) + r[2:]
        return None
    def take(self, st, a, b, keep):
        """the cells of object a, renamed to b"""
        out = []
        for (r, o), v in list(st.mem.items()):
            x = self.rebase(r, a, b)
            if x is None and (r, o) == a[1:3]: x, o2 = b[1], b[2]
            else: o2 = o
            if x is None: continue
            out.append(((x, o2), v))
            if not keep: del st.mem[(r, o)]
        sz = []
        for r in list(self.size):
            x = self.rebase(r, a, b)
            if x is None: continue
            sz.append((x, self.size[r], self.kind.get(r)))
            if not keep: del self.size[r]
        return out, sz
    def give(self, st, t):
        for k, v in t[0]: st.mem[k] = v
        for r, n, k in t[1]: self.size[r], self.kind[r] = n, k
    def copy_obj(self, st, src, dst):
        if src == dst: return
        t = self.take(st, src, dst, True)
        self.take(st, dst, dst, False)
        self.give(st, t)
    def default_assign(self, f, st, dst, src): self.copy_obj(st, src, dst)
    def m_swap(self, I, st, e, xs):
        a, b = (self.lval(x, st) for x in xs[:2])
        t, u = self.take(st, a, b, False), self.take(st, b, a, False)
        self.give(st, t); self.give(st, u)
        return ZERO
    def vec_hook(self, st, lv, t, vals):
        if ('std::vector' in t or 'std::array' in t) and vals and isinstance(vals[0], tuple) and vals[0] and vals[0][0] in ('lv', 'objv'):
            self.copy_obj(st, vals[0][1], lv)
            return
        super().vec_hook(st, lv, t, vals)
    def std_method(self, e, st, q, base, rt, lv, xs):
        if q.startswith(('std::vector', 'std::array')) and base in ('operator=', 'swap') and xs:
            o = self.lval(xs[0], st)
            if base == 'operator=':
                self.copy_obj(st, o, lv)
                return ('lv', lv)
            t, u = self.take(st, lv, o, False), self.take(st, o, lv, False)
            self.give(st, t); self.give(st, u)
            return ZERO
        if q.startswith('std::vector') and base == 'assign' and len(xs) == 2:
            a, b = self.ev_val(xs[0], st), self.ev_val(xs[1], st)
            self.vec_hook(st, lv, 'std::vector', [a, b])
            return ZERO
        if q.startswith('std::stack'):
            s = self.stacks.setdefault(lv[1:3], [])
            if base in ('push', 'emplace'):
                self.nblk += 1
                c = cell(('stackcell', self.nblk))
                self.copy_obj(st, self.lval(xs[0], st), c)
                s.append(c)
                self.snapshots(st)
                return ZERO
            if base == 'empty': return ZERO if s else ONE
            if base == 'size': return num(len(s))
            if not s: raise Broken('%s of an empty stack at %s' % (base, self.where(e[1])))
            if base == 'top': return ('lv', s[-1])
            if base == 'pop':
                s.pop()
                return ZERO
        return super().std_method(e, st, q, base, rt, lv, xs)
    def construct(self, e, st, lv):
        if e[2].replace('const ', '').startswith(('std::vector', 'std::array')) and len(e) >= 6 and ('C2ERKS' in e[3] or 'C2EOS' in e[3]):
            self.copy_obj(st, self.lval(e[5], st), lv)
            return True
        return super().construct(e, st, lv)
    def init_hook(self, st, lv):
        r = lv[1]
        while isinstance(r, tuple) and r and r[0] in NEST: r = r[1]
        if r[0] == 'infos': return ZERO
        return super().init_hook(st, lv)
    def e_ctor(self, e, st, want_lv=False):
        if e[2].replace('const ', '').startswith('std::array') and len(e) == 6: return self.ev_val(e[5], st)
        return super().e_ctor(e, st, want_lv)
    # ------------------------------------------------------------ the tape
    def infos(self, k): return ('ptr', ('infos', k), ZERO)
    def inf(self, st, k, f): return st.mem.get(self.field(st, cell(('infos', k)), f)[1:3])
    def m_append(self, I, st, e, xs):
        self.on_outer(st, e, xs)
        k = self.new
        b = cell(('infos', k))
        for f in ('function', 'function_double', 'saveNonAdoubles', 'restoreNonAdoubles', 'adp_x', 'adp_y', 'dp_internal_for', 'allmem'): st.mem[self.field(st, b, f)[1:3]] = NULL
        st.mem[self.field(st, b, 'index')[1:3]] = num(20 + k)
        return self.infos(k)
    def m_infos(self, I, st, e, xs):
        self.on_outer(st, e, xs)
        i = const_of(toP(self.ev_val(xs[1], st)))
        if i is None: raise Unsupported('index of a checkpointed part')
        if not 0 <= i - 20 < len(self.secs): raise Broken('looks for the checkpointed part %s' % i)
        return self.infos(int(i) - 20)
    def m_reg(self, I, st, e, xs):
        t = [const_of(toP(self.ev_val(x, st))) for x in xs[:2]]
        if t != [OUTER, self.ctape(self.new)]: raise Broken('registers a function of tapes %s' % t)
        c = ('ptr', ('edf', self.new), ZERO)
        st.mem[self.field(st, self.deref(c), 'index')[1:3]] = num(40 + self.new)
        return c
    def ctape(self, s): return 10 + s
    def sec(self, tape):
        c = const_of(toP(tape)) if not isinstance(tape, int) else tape
        if c is None or not 10 <= c < 10 + len(self.secs): raise Broken('uses tape %s for a step' % T.show(tape))
        return int(c) - 10
    # ------------------------------------------------------------ values
    def stv(self, s, b, k, i): return atom(('in', 'state', s, b, k, i))
    def tangent(self, s, b, k, i, r): return atom(('in', 'tangent', s, b, k, i, r))
    def adjoint(self, s, b, k, i, r): return atom(('in', 'adjoint', s, b, k, i, r))
    def which(self, vs, name, what):
        """the step these values belong to: (section, base, step)"""
        out = None
        for i, v in enumerate(vs):
            v = toP(v)
            a = T.atoms(v)
            a = next(iter(a)) if len(a) == 1 else None
            if a is None or v != atom(a) or a[:2] != ('in', name): raise Broken('%s: component %d is %s' % (what, i, T.show(v)[:60]))
            if a[5] != i: raise Broken('%s: component %d is that of %d' % (what, i, a[5]))
            if out is not None and out != a[2:5]: raise Broken('%s: components of different steps' % what)
            out = a[2:5]
            if name != 'state' and a[6] != self.row: raise Broken('%s: row %d where row %d is due' % (what, a[6], self.row))
        return out
    def vals(self, st, p, n): return [self.get(st, p, i) for i in range(n)]
    def dims(self, *ns):
        for n in ns:
            if n != DIM: raise Broken('dimension %s of a step instead of %d' % (n, DIM))
    # ------------------------------------------------------------ the step of the user
    def e_pcall(self, e, st, want_lv=False):
        fv = self.ev_val(e[3], st)
        if isP(fv) and fv != ZERO: fv = T.unP(fv)
        if isinstance(fv, tuple) and fv[0] == 'ptr' and fv[1][0] == 'cb':
            return self.user(fv[1][1], fv[1][2], [self.ev_val(x, st) for x in e[4:]], st, self.where(e[1]))
        if isP(fv) or fv == NULL: raise Broken('calls a function that is not set at ' + self.where(e[1]))
        return super().e_pcall(e, st, want_lv)
    def isnull(self, I, st, e, xs): return ONE if e[2].endswith('!=') else ZERO
    def user(self, k, s, vals, st, at):
        S = self.secs[s]
        if k == 'save':
            p = self.alloc(st, 1, 'm')
            st.mem[(p[1], ZERO)] = num(self.extra.get(s, 0))
            self.extras[p[1]] = s
            return p
        if k == 'restore':
            v = vals[0]
            if isP(v): v = T.unP(v) if v != ZERO else NULL
            if v[0] != 'ptr' or v[1] not in self.extras: raise Broken('restores data that was not saved at ' + at)
            if self.state.get(v[1]) == 'freed': raise Broken('restores released data at ' + at)
            self.extra[s] = int(const_of(st.mem[(v[1], ZERO)]))
            return ZERO
        if const_of(toP(vals[0])) != DIM: raise Broken('the step gets dimension %s at %s' % (T.show(vals[0]), at))
        p = vals[1]
        if k == 'double':
            t, b, i = self.which(self.vals(st, p, DIM), 'state', 'the step function at ' + at)
            self.check(t, s, i, at)
            for j in range(DIM): self.put(st, p, (j,), self.stv(s, b, i + 1, j))
            self.steps_done += 1
            return ZERO
        # the active step
        if self.taping is None: raise Broken('the active step runs without a recording at ' + at)
        if self.taping['tape'] != self.ctape(s): raise Broken('the active step runs on the tape of another part at ' + at)
        c = [self.active.get((p[1], toP(num(j)))) for j in range(DIM)]
        if None in c: raise Broken('the active step gets variables that are not independent at ' + at)
        if [x[0] for x in c] != list(range(DIM)): raise Broken('the independents of a step are in another order')
        t, b, i = self.which([x[1] for x in c], 'state', 'the active step at ' + at)
        self.check(t, s, i, at)
        self.taping.update(base=b, k=i)
        for j in range(DIM): self.active[(p[1], toP(num(j)))] = ('y', self.stv(s, b, i + 1, j), j)
        return ZERO
    def check(self, t, s, k, at):
        if t != s: raise Broken('the state of another part at ' + at)
        if k >= self.secs[s].steps: raise Broken('more steps than there are at ' + at)
        if self.secs[s].extra and self.extra.get(s, 0) != k: raise Broken('step %d with the other data of step %d at %s' % (k, self.extra.get(s, 0), at))
        if self.secs[s].extra: self.extra[s] = k + 1
    # ------------------------------------------------------------ recording a step
    def t_on(self, I, st, e, xs):
        v = [const_of(toP(self.ev_val(x, st))) for x in xs[:2]]
        if self.taping: raise Broken('records a step while recording one')
        if v[0] is None or len(v) < 2 or v[1] is None: raise Unsupported('trace_on')
        self.sec(int(v[0]))
        self.taping = {'tape': int(v[0]), 'keep': int(v[1]), 'ind': 0, 'dep': 0}
        self.active = {}
        self.kept.pop(int(v[0]), None)
        return ZERO
    def acell(self, xs, e, st):
        lv = self.deref(self.ev_val(xs[0], st)) if e[5] else self.lval(xs[0], st)
        self.touch(lv, False)
        return lv[1], toP(lv[2])
    def a_in(self, I, st, e, xs):
        if self.taping is None: raise Broken('an independent outside of a recording')
        k = self.acell(xs, e, st)
        self.active[k] = (self.taping['ind'], self.ev_val(xs[1], st))
        self.taping['ind'] += 1
        return ZERO
    def a_out(self, I, st, e, xs):
        if self.taping is None: raise Broken('a dependent outside of a recording')
        k = self.acell(xs, e, st)
        a = self.active.get(k)
        if a is None or a[0] != 'y': raise Broken('a variable that is no result of the step is dependent')
        if a[2] != self.taping['dep']: raise Broken('the dependents of a step are in another order')
        self.taping['dep'] += 1
        self.store(st, self.lval(xs[1], st), a[1])
        return ZERO
    def t_off(self, I, st, e, xs):
        t = self.taping
        if t is None: raise Broken('ends a recording that is not open')
        self.taping = None
        if 'k' not in t: raise Broken('records no step')
        if t['ind'] != DIM or t['dep'] != DIM: raise Broken('a recorded step has %d independents and %d dependents' % (t['ind'], t['dep']))
        self.inner[t['tape']] = (t['base'], t['k'])
        if t['keep'] == 1: self.kept[t['tape']] = (t['base'], t['k'])
        for l in range(self.nloc): st.mem[(('store',), num(l))] = atom(('nested', l))
        return ZERO
    # ------------------------------------------------------------ sweeps over a step
    def sweep(self, h, st, e, xs):
        vals = [self.ev_val(x, st) for x in xs]
        a = []
        for v in vals:
            c = const_of(v) if isP(v) else None
            a.append(int(c) if c is not None and c.denominator == 1 else v)
        try: return num(h(st, 3, *a))
        except Broken as ex: raise Broken('%s at %s: %s' % (e[2], self.where(e[1]), ex))
    def fwd(self, st, tag, x, m, n):
        s = self.sec(tag)
        self.dims(m, n)
        if tag not in self.inner: raise Broken('no step is recorded')
        t, b, k = self.which(self.vals(st, x, DIM), 'state', 'its point')
        if t != s: raise Broken('evaluates the step of another part')
        if k >= self.secs[s].steps: raise Broken('evaluates a step after the last')
        self.kept.pop(tag, None)
        # who asks for a new tape at every step may have steps the comparisons do not tell apart
        if self.secs[s].retape and self.inner[tag] != (b, k): raise Broken('evaluates step %d on the tape of %s though a new tape is asked for at every step' % (k, 'step %d' % self.inner[tag][1] if self.inner[tag][1] != k else 'this step at another point'))
        br = self.secs[s].branch
        return s, b, k, br(k) == br(self.inner[tag][1])
    def poison(self, st, *ps):
        for p in ps:
            for i in range(DIM): self.put(st, p, (i,), atom(('refused', i)))
        return -1
    def w_zos_forward(self, st, rc, tag, m, n, keep, x, y):
        s, b, k, ok = self.fwd(st, tag, x, m, n)
        if not ok: return self.poison(st, y)
        if keep == 1: self.kept[tag] = (b, k)
        for i in range(DIM): self.put(st, y, (i,), self.stv(s, b, k + 1, i))
        return 2 if k % 2 else 3
    def w_fos_forward(self, st, rc, tag, m, n, keep, x, xd, y, yd):
        s, b, k, ok = self.fwd(st, tag, x, m, n)
        self.row = 0
        if self.which(self.vals(st, xd, DIM), 'tangent', 'its direction') != (s, b, k): raise Broken('the direction is not that of step %d' % k)
        if not ok: return self.poison(st, y, yd)
        for i in range(DIM):
            self.put(st, y, (i,), self.stv(s, b, k + 1, i))
            self.put(st, yd, (i,), self.tangent(s, b, k + 1, i, 0))
        return self.code(k)
    def code(self, k): return 2 if k == 1 else 3
    def w_fov_forward(self, st, rc, tag, m, n, p, x, X, y, Y):
        s, b, k, ok = self.fwd(st, tag, x, m, n)
        if p != self.nr: raise Broken('%s directions instead of %d' % (p, self.nr))
        for r in range(p):
            self.row = r
            if self.which([self.get(st, X, i, r) for i in range(DIM)], 'tangent', 'direction %d' % r) != (s, b, k): raise Broken('direction %d is not that of step %d' % (r, k))
        if not ok:
            for i in range(DIM):
                for r in range(p): self.put(st, Y, (i, r), atom(('refused', i, r)))
            return self.poison(st, y)
        for i in range(DIM):
            self.put(st, y, (i,), self.stv(s, b, k + 1, i))
            for r in range(p): self.put(st, Y, (i, r), self.tangent(s, b, k + 1, i, r))
        return self.code(k)
    def rev(self, tag, m, n):
        s = self.sec(tag)
        self.dims(m, n)
        if tag not in self.kept: raise Broken('no values of a step are kept')
        b, k = self.kept.pop(tag)
        self.turned.append(k)
        return s, b, k
    def w_fos_reverse(self, st, rc, tag, m, n, u, z):
        s, b, k = self.rev(tag, m, n)
        self.row = 0
        if self.which(self.vals(st, u, DIM), 'adjoint', 'its weights') != (s, b, k + 1): raise Broken('the adjoint is not that of the result of step %d' % k)
        for i in range(DIM): self.put(st, z, (i,), self.adjoint(s, b, k, i, 0))
        return 3
    def w_fov_reverse(self, st, rc, tag, m, n, q, u, z):
        s, b, k = self.rev(tag, m, n)
        if q != self.nr: raise Broken('%s rows instead of %d' % (q, self.nr))
        for r in range(q):
            self.row = r
            if self.which([self.get(st, u, r, i) for i in range(DIM)], 'adjoint', 'weights %d' % r) != (s, b, k + 1): raise Broken('the adjoint %d is not that of the result of step %d' % (r, k))
        for r in range(q):
            for i in range(DIM): self.put(st, z, (r, i), self.adjoint(s, b, k, i, r))
        return 3
    # ------------------------------------------------------------ snapshots
    def snapshots(self, st):
        for (r, o), s in self.stacks.items():
            while isinstance(r, tuple) and r[0] in NEST: r = r[1]
            if r[0] == 'infos' and len(s) > self.secs[r[1]].snaps: raise Broken('%d snapshots of part %d, %d are allowed' % (len(s), r[1], self.secs[r[1]].snaps))
    # ------------------------------------------------------------ events
    def fn(self, q, file='checkpointing.cpp', n=None):
        for path, tu in sorted(self.prog.tus.items()):
            if path.endswith(file):
                for f in tu.funcs:
                    if f['q'] == NS + q and f['body'] is not None and (n is None or len(f['ps']) == n): return dict(f, tu=tu)
        raise AnalysisBroken(NS + q + ' not found')
    def go(self, st, f, args, this=None):
        self.exits, self.tu = [], f['tu']
        try: return self.call_body(f, st, [('val', v) for v in args], this=this)
        except Dead: raise Broken('refused: %s' % (self.exits[-1][1] if self.exits else ''))
    def xl(self, s): return 4 * s * DIM
    def yl(self, s): return (4 * s + 2) * DIM
    def register(self, st, s):
        S = self.secs[s]
        self.new = s
        me = ('ptr', ('context', s), ZERO)
        ad = lambda name, b: self.adarr(name, b)
        cb = lambda n: ('ptr', ('cb', n, s), ZERO)
        self.go(st, self.fn('Context::registerTimeStepFunction'), [num(OUTER), num(self.ctape(s)), cb('active')], this=me)
        for m, v in (('setDoubleFct', cb('double')), ('setNumberOfSteps', num(S.steps)), ('setNumberOfCheckpoints', num(S.snaps)), ('setDimensionXY', num(DIM)),
                     ('setInput', ad('x%d' % s, self.xl(s))), ('setOutput', ad('y%d' % s, self.yl(s))), ('setAlwaysRetaping', ONE if S.retape else ZERO)) + ((('setSaveFct', cb('save')), ('setRestoreFct', cb('restore'))) if S.extra else ()):
            self.go(st, self.fn('Context::' + m), [v], this=me)
    def adarr(self, name, b):
        r = ('par', name)
        self.kind[r], self.state[r], self.size[r] = 'p', 'live', DIM
        self.base[r] = b
        return ('ptr', r, ZERO)
    def expect_store(self, st, want, what):
        for l in range(self.nloc):
            g = toP(st.mem[(('store',), num(l))])
            if g != toP(want[l]): raise Broken('%s leaves %s in location %d instead of %s' % (what, T.show(g)[:50], l, T.show(want[l])[:50]))
    def record(self, st, s, keep):
        S = self.secs[s]
        self.new, self.keepval, self.extra[s] = s, num(keep), 0
        self.rec, self.tays, self.ntays = [], [], 0
        b = 'r'
        V = [atom(('in', 'v', l)) for l in range(self.nloc)]
        for i in range(DIM): V[self.xl(s) + i] = self.stv(s, b, 0, i)
        for l in range(self.nloc): st.mem[(('store',), num(l))] = V[l]
        self.kind[('store',)] = 'p'; self.size[('store',)] = self.nloc
        self.steps_done = 0
        v = self.go(st, self.fn('Context::checkpointing'), [num(OUTER)], this=('ptr', ('context', s), ZERO))
        if const_of(toP(v)) is None or const_of(toP(v)) < 0: raise Broken('checkpointing returns %s' % T.show(v))
        if [(r[0], r[1]) for r in self.rec] != [(self.ctx_.codes['ext_diff'], [40 + s, DIM, DIM, self.xl(s), self.yl(s)])]: raise Broken('the record of the part is %s' % self.rec)
        prior = [V[self.yl(s) + i] for i in range(DIM)]
        if self.ntays != DIM: raise Broken('%d Taylor entries counted, %d are due' % (self.ntays, DIM))
        if self.tays != ([toP(x) for x in prior] if keep else []): raise Broken('the previous values of the results are not what is kept')
        for i in range(DIM): V[self.yl(s) + i] = self.stv(s, b, S.steps, i)
        self.expect_store(st, V, 'recording')
        self.spent[s] = self.steps_done
        bx = self.deref(('ptr', ('edf', s), ZERO))
        for f, w in (('cp_index', 20 + s), ('dp_x_changes', 0), ('dp_y_priorRequired', 1)):
            g = st.mem.get(self.field(st, bx, f)[1:3])
            if g is None or const_of(toP(g)) != w: raise Broken('%s of the function is %s instead of %d' % (f, T.show(g) if g is not None else 'never set', w))
        self.lastbase[s] = b
    def callback(self, st, s, name, args):
        v = st.mem.get(self.field(st, self.deref(('ptr', ('edf', s), ZERO)), name)[1:3])
        if v is None: raise Broken('%s of the function is never set' % name)
        if isP(v): v = T.unP(v)
        old, tu = st.env, self.tu
        if v[0] == 'closure': st.env, self.tu, m = dict(v[2]), v[3], v[1][1]
        elif v[0] == 'fnref': m = v[2]
        else: raise Unsupported('callback %s' % (v[0],))
        g = self.prog.resolve(self.tu, m)
        if g is None: raise Unsupported('callback without a body')
        if len(g['ps']) != len(args): raise Unsupported('callback with %d parameters' % len(g['ps']))
        self.exits = []
        try: r = self.call_body(g, st, [('val', a) for a in args])
        except Dead: raise Broken('refused: %s' % (self.exits[-1][1] if self.exits else ''))
        st.env, self.tu = old, tu
        return r
    def forward(self, st, s, name, b, keep=0):
        S = self.secs[s]
        self.ev += 1
        nm = lambda x: '%s.%d' % (x, self.ev)
        self.extra[s] = 0
        x = self.arr(st, nm('x'), (DIM,), val=lambda i: self.stv(s, b, 0, i))
        y = self.arr(st, nm('y'), (DIM,))
        if name == 'zos_forward': a = [num(keep), x, y]
        elif name == 'fos_forward':
            X = self.arr(st, nm('X'), (DIM,), val=lambda i: self.tangent(s, b, 0, i, 0)); Y = self.arr(st, nm('Y'), (DIM,))
            a = [num(keep), x, X, y, Y]
        else:
            X = self.arr(st, nm('X'), (DIM, self.nr), val=lambda i, r: self.tangent(s, b, 0, i, r)); Y = self.arr(st, nm('Y'), (DIM, self.nr))
            a = [num(self.nr), x, X, y, Y]
        self.steps_done = 0
        rc = self.callback(st, s, name, [num(OUTER), num(DIM), num(DIM)] + a)
        if keep: self.spent[s] = self.steps_done
        def same(p, ix, e):
            g = toP(self.get(st, p, *ix))
            if g != toP(e): raise Broken('%s yields %s instead of %s' % (name, T.show(g)[:60], T.show(e)[:60]))
        for i in range(DIM):
            same(x, (i,), self.stv(s, b, 0, i))
            same(y, (i,), self.stv(s, b, S.steps, i))
            for r in range(1 if name == 'fos_forward' else self.nr if name == 'fov_forward' else 0):
                same(Y, (i,) if name == 'fos_forward' else (i, r), self.tangent(s, b, S.steps, i, r))
                same(X, (i,) if name == 'fos_forward' else (i, r), self.tangent(s, b, 0, i, r))
        if name != 'zos_forward':
            want = min([3] + [self.code(k) for k in range(S.steps)])
            if const_of(toP(rc)) != want: raise Broken('%s returns %s, the least code of the steps is %d' % (name, T.show(rc), want))
        elif const_of(toP(rc)) is None or const_of(toP(rc)) < 0: raise Broken('%s returns %s' % (name, T.show(rc)))
        if keep: self.lastbase[s] = b
    def reverse(self, st, s, q=0):
        S = self.secs[s]
        self.ev += 1
        nm = lambda x: '%s.%d' % (x, self.ev)
        b, n = self.lastbase[s], S.steps
        self.turned, self.steps_done = [], 0
        before = self.spent.pop(s, None)
        x = self.arr(st, nm('x'), (DIM,), val=lambda i: self.stv(s, b, 0, i))
        y = self.arr(st, nm('y'), (DIM,), val=lambda i: self.stv(s, b, n, i))
        if not q: name, a, d = 'fos_reverse', [], (DIM,)
        else: name, a, d = 'fov_reverse', [num(q)], (q, DIM)
        self.nr = q or 1
        u = self.arr(st, nm('u'), d, val=lambda *ix: self.adjoint(s, b, n, ix[-1], ix[0] if q else 0))
        z = self.arr(st, nm('z'), d, val=lambda *ix: atom(('in', 'z') + ix))
        rc = self.callback(st, s, name, [num(OUTER), num(DIM), num(DIM)] + a + [u, z, x, y])
        if self.turned != list(range(n - 1, -1, -1)): raise Broken('%s reverses the steps %s of %d' % (name, self.turned, n))
        for i in range(DIM):
            for r in range(q or 1):
                ix = (r, i) if q else (i,)
                g = toP(self.get(st, z, *ix))
                e = T.add(atom(('in', 'z') + ix), self.adjoint(s, b, 0, i, r))
                if g != toP(e): raise Broken('%s yields %s instead of %s' % (name, T.show(g)[:60], T.show(e)[:60]))
                if toP(self.get(st, u, *ix)) != self.adjoint(s, b, n, i, r): raise Broken('%s changes the adjoint of its result' % name)
        if const_of(toP(rc)) is None or const_of(toP(rc)) < 0: raise Broken('%s returns %s' % (name, T.show(rc)))
        if before is not None and before + self.steps_done > effort(n, S.snaps): raise Broken('%s needs %d plain steps, %d suffice' % (name, before + self.steps_done, effort(n, S.snaps)))
        left = [k for k, v in self.stacks.items() if self.root(k[0]) == ('infos', s) and v]
        if left: raise Broken('%d snapshots are left after %s' % (len(self.stacks[left[0]]), name))
    def root(self, r):
        while isinstance(r, tuple) and r[0] in NEST: r = r[1]
        return r

# ------------------------------------------------------------------ histories
def scripts():
    """(name, parts, events); event: (what, part, ...)"""
    out = []
    B = {'same branch': None, 'other branch every step': lambda k: k, 'branch in the middle': lambda k: k in (1, 2)}
    for n in range(1, 9):
        for c in range(1, 5):
            if c >= max(n, 2): continue
            for bn, bf in B.items():
                if bf and (n, c) not in ((2, 1), (3, 2), (4, 2), (5, 3), (6, 2)): continue
                for rt in (False, True):
                    if rt and n not in (1, 2, 3, 5): continue
                    for q in (0, 1, 2):
                        if q and n > 5: continue
                        nm = '%d steps, %d checkpoints, %s%s' % (n, c, bn, ', always retaping' if rt else '')
                        how = 'reverse' if not q else 'vector reverse of %d' % q
                        out.append(('%s, %s of the recording' % (nm, how), [(n, c, rt, bn, q == 1)], [('record', 0, 1), ('reverse', 0, q)]))
                        if not q or n < 5: out.append(('%s, %s after zos_forward' % (nm, how), [(n, c, rt, bn, False)], [('record', 0, 0), ('zos_forward', 0, 'p', 1), ('reverse', 0, q)]))
                    if c == 1 or bf:
                        out.append((nm + ', forward sweeps', [(n, c, rt, bn, False)], [('record', 0, 0), ('zos_forward', 0, 'p', 0), ('fos_forward', 0, 'q', 0), ('fov_forward', 0, 'p', 0), ('fos_forward', 0, 'p', 0), ('zos_forward', 0, 'q', 1), ('reverse', 0, 2)]))
    for n in range(9, 21):
        for c in (2, 3, 4, 6):
            nm = '%d steps, %d checkpoints' % (n, c)
            out.append((nm + ', reverse of the recording', [(n, c, False, 'same branch', n % 2 == 1)], [('record', 0, 1), ('reverse', 0, 0)]))
    for n, c in ((10, 1), (30, 3), (40, 4), (36, 2), (50, 5)):
        out.append(('%d steps, %d checkpoints, reverse after zos_forward' % (n, c), [(n, c, False, 'same branch', True)], [('record', 0, 0), ('zos_forward', 0, 'p', 1), ('reverse', 0, 0)]))
    P = [(5, 2, False, 'same branch', False), (7, 3, False, 'branch in the middle', False)]
    out.append(('two parts', P, [('record', 0, 1), ('record', 1, 1), ('reverse', 1, 0), ('reverse', 0, 0)]))
    out.append(('two parts, vector', P, [('record', 0, 0), ('record', 1, 0), ('zos_forward', 0, 'p', 1), ('zos_forward', 1, 'q', 1), ('reverse', 1, 2), ('reverse', 0, 2), ('zos_forward', 0, 'q', 1), ('zos_forward', 1, 'p', 1), ('reverse', 1, 0), ('reverse', 0, 0)]))
    out.append(('two parts, other order', P, [('record', 1, 1), ('record', 0, 1), ('reverse', 0, 2), ('reverse', 1, 2)]))
    out.append(('repeated', P[:1], [('record', 0, 1), ('reverse', 0, 0)] + [e for b in 'pqp' for e in (('zos_forward', 0, b, 1), ('reverse', 0, 0))]))
    out.append(('forward twice before reverse', P[:1], [('record', 0, 1), ('zos_forward', 0, 'p', 1), ('reverse', 0, 0)]))
    out.append(('forward without keep between', P[1:], [('record', 0, 1), ('reverse', 0, 0), ('zos_forward', 0, 'p', 0), ('zos_forward', 0, 'q', 1), ('reverse', 0, 2)]))
    out.append(('forward at two points', P[1:], [('record', 0, 0), ('zos_forward', 0, 'p', 1), ('zos_forward', 0, 'q', 1), ('reverse', 0, 0)]))
    return out

BR = {'same branch': None, 'other branch every step': lambda k: k, 'branch in the middle': lambda k: k in (1, 2)}
def job(i):
    name, parts, events = SCRIPTS[i]
    W = CP(CX_, next(iter(CX_.prog.tus.values())), [Sec(n, c, rt, BR[bn], x) for n, c, rt, bn, x in parts])
    st = State()
    try:
        for s in range(len(parts)): W.register(st, s)
        for e in events:
            W.nr = 1
            if e[0] == 'record': W.record(st, e[1], e[2])
            elif e[0] == 'reverse': W.reverse(st, e[1], e[2])
            else:
                W.nr = 2 if e[0] == 'fov_forward' else 1
                W.forward(st, e[1], e[0], e[2], e[3])
        lk = W.leaks()
        if lk: raise Broken('%d blocks stay allocated' % len(lk))
    except Broken as ex: return i, 'bad', str(ex), len(events)
    except (Unsupported, Dead) as ex: return i, 'undecided', str(ex), 0
    return i, 'ok', '', len(events)

class Plain(World):
    def __init__(self, ctx, tu):
        World.__init__(self, ctx, tu, [], 1, 0, 1, 1)

def helpers(cx, rep):
    """what revolve.cpp tells about schedules"""
    fs = {f['q']: dict(f, tu=tu) for path, tu in sorted(cx.prog.tus.items()) if path.endswith('revolve.cpp') for f in tu.funcs if f['body'] is not None}
    def run(name, *args):
        if name not in fs: raise Unsupported('%s not found' % name)
        W = Plain(cx, fs[name]['tu'])
        W.prims['printf'] = lambda I, st, e, xs: ZERO
        try: return const_of(toP(W.call_body(fs[name], State(), [('val', num(a)) for a in args])))
        except Dead: return None
    MAX = 2147483647
    G = [('numforw', (n, c), effort(n, c)) for n in range(1, 40) for c in range(1, 9)] + [('numforw', (5, 0), -1)]
    G += [('expense', (n, c), Fraction(effort(n, c), n)) for n in (1, 2, 4, 8, 16, 32) for c in range(1, 6)]
    G += [('maxrange', (s, t), min(MAX, math.comb(s + t, s))) for s in range(0, 40) for t in range(0, 40)] + [('maxrange', (-1, 2), -1), ('maxrange', (2, -1), -1)]
    for name, args, want in G:
        k = 'helpers:%s(%d, %d)' % ((name,) + args)
        try: g = run(name, *args)
        except Unsupported as ex:
            rep.skip(k, str(ex))
            continue
        rep.count('helpers')
        rep.check(g == want, k, '%s(%d, %d) yields %s instead of %s' % (name, args[0], args[1], g, want), sample=k)

def c22():
    global CX_, SCRIPTS
    rep = Report('C22', 'constant propagation of the schedule, the snapshots and the sweeps of checkpointed parts; the step of the user and the sweeps over one step are contracts')
    rep.rule('schedule', 'every step is reversed exactly once, from the last to the first, with the values it had; no more snapshots than allowed exist, and none stays')
    rep.rule('result', 'recording and forward sweeps deliver the state, tangents and least code after all steps, reverse sweeps add the adjoint of the first state; nothing else changes')
    rep.rule('effort', 'forward and reverse sweep together apply no more plain steps than the least number that suffices with the snapshots allowed (recursion over the position of the first snapshot)')
    rep.rule('helpers', 'numforw is that least number, expense its ratio to the number of steps, maxrange the number of steps that snapshots and repetitions allow (or the largest int)')
    rep.rule('history', 'parts do not share their schedules; any evaluations may come before')
    CX_ = CX.Ctx((), extra=FILES, rec=False)
    SCRIPTS = scripts()
    with ProcessPoolExecutor(8) as ex:
        for i, s, why, n in ex.map(job, range(len(SCRIPTS)), chunksize=4):
            nm = SCRIPTS[i][0]
            if s == 'undecided': rep.skip(nm, why)
            else:
                rep.count('histories')
                rep.count('events', n)
                rep.check(s == 'ok', nm, '%s: %s' % (nm, why), sample=nm)
    helpers(CX_, rep)
    rep.floor(60, 'histories')
    return rep.finish()

CHECKS = {'C22': c22}
