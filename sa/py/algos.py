"""Library algorithms over ranges of constant length, element by element."""
from terms import ZERO, num, isP, toP, add, sub, mul, const_of, atom_of
from absint import Unsupported

class Algos:
    NAMES = ('swap', 'fill', 'fill_n', 'copy', 'copy_n', 'accumulate', 'iota', 'transform', 'for_each', 'inner_product', 'generate', 'copy_backward', 'reverse')
    def install_algos(self, lax=False):
        """lax: ranges of unknown length are left to opaque_call"""
        def guard(h, q):
            def g(I, st, e, xs):
                try: return h(I, st, e, xs)
                except Unsupported: return self.opaque_call(e, st, q, e[4], [self.ev_val(x, st) for x in xs])
            return g
        for nm in self.NAMES:
            h = getattr(self, 'a_' + nm)
            self.prims['std::' + nm] = guard(h, 'std::' + nm) if lax else h
    def at_(self, st, p, i): return self.load(st, self.deref(self.ptr_add(p, num(i))))
    def to_(self, st, p, i, v): self.store(st, self.deref(self.ptr_add(p, num(i))), v)
    def span(self, a, b):
        if a == b: return 0
        c = None
        if isP(a) and isP(b): c = const_of(sub(b, a))
        elif not isP(a) and not isP(b) and a[0] == 'ptr' and b[0] == 'ptr' and a[1] == b[1]: c = const_of(sub(b[2], a[2]))
        if c is None: raise Unsupported('range of unknown length')
        return int(c)
    def count_(self, x, st):
        c = const_of(toP(self.ev_val(x, st)))
        if c is None or c.denominator != 1: raise Unsupported('range of unknown length at ' + self.where(x[1]))
        return int(c)
    def a_swap(self, I, st, e, xs):
        a, b = (self.lval(x, st) for x in xs)
        u, v = self.load(st, a), self.load(st, b)
        self.store(st, a, v); self.store(st, b, u)
        return ZERO
    def a_fill(self, I, st, e, xs):
        p, q, v = (self.ev_val(x, st) for x in xs)
        for i in range(self.span(p, q)): self.to_(st, p, i, v)
        return ZERO
    def a_fill_n(self, I, st, e, xs):
        p, v = self.ev_val(xs[0], st), self.ev_val(xs[2], st)
        for i in range(self.count_(xs[1], st)): self.to_(st, p, i, v)
        return ZERO
    def a_copy(self, I, st, e, xs):
        p, q, d = (self.ev_val(x, st) for x in xs)
        n = self.span(p, q)
        for i in range(n): self.to_(st, d, i, self.at_(st, p, i))
        return self.ptr_add(d, num(n))
    def a_copy_n(self, I, st, e, xs):
        p, d = self.ev_val(xs[0], st), self.ev_val(xs[2], st)
        n = self.count_(xs[1], st)
        for i in range(n): self.to_(st, d, i, self.at_(st, p, i))
        return self.ptr_add(d, num(n))
    def a_accumulate(self, I, st, e, xs):
        if len(xs) != 3: raise Unsupported('std::accumulate with an operation')
        p, q, v = (self.ev_val(x, st) for x in xs)
        for i in range(self.span(p, q)): v = add(toP(v), toP(self.at_(st, p, i)))
        return v
    def apply(self, fv, st, lvs):
        """call a lambda or function on the elements lvs"""
        if isP(fv): fv = atom_of(fv) or fv
        f = self.prog.resolve(self.tu, fv[1] if fv[0] == 'lambda' else fv[2]) if isinstance(fv, tuple) and fv[0] in ('lambda', 'fnref') else None
        if f is None: raise Unsupported('call of an unknown function object')
        ps = [f['tu'].decls[p]['t'] for p in f['ps']]
        v = self.call_body(f, st, [('ref', lv) if t.endswith('&') else ('val', self.load(st, lv)) for t, lv in zip(ps, lvs)])
        if isinstance(v, tuple) and v and v[0] == 'lv': v = self.load(st, v[1])
        return v
    def el(self, p, i): return self.deref(self.ptr_add(p, num(i)))
    def a_transform(self, I, st, e, xs):
        vs = [self.ev_val(x, st) for x in xs]
        n = self.span(vs[0], vs[1])
        ins, out = ([vs[0]], vs[2]) if len(vs) == 4 else ([vs[0], vs[2]], vs[3])
        for i in range(n): self.to_(st, out, i, self.apply(vs[-1], st, [self.el(p, i) for p in ins]))
        return self.ptr_add(out, num(n))
    def a_for_each(self, I, st, e, xs):
        p, q, f = (self.ev_val(x, st) for x in xs)
        for i in range(self.span(p, q)): self.apply(f, st, [self.el(p, i)])
        return ZERO
    def a_inner_product(self, I, st, e, xs):
        if len(xs) != 4: raise Unsupported('std::inner_product with operations')
        p, q, r, v = (self.ev_val(x, st) for x in xs)
        for i in range(self.span(p, q)): v = add(toP(v), mul(toP(self.at_(st, p, i)), toP(self.at_(st, r, i))))
        return v
    def a_generate(self, I, st, e, xs):
        p, q, f = (self.ev_val(x, st) for x in xs)
        for i in range(self.span(p, q)): self.to_(st, p, i, self.apply(f, st, []))
        return ZERO
    def a_copy_backward(self, I, st, e, xs):
        p, q, d = (self.ev_val(x, st) for x in xs)
        n = self.span(p, q)
        for i in range(n, 0, -1): self.to_(st, d, i - 1 - n, self.at_(st, p, i - 1))
        return self.ptr_add(d, num(-n))
    def a_reverse(self, I, st, e, xs):
        p, q = (self.ev_val(x, st) for x in xs)
        n = self.span(p, q)
        vs = [self.at_(st, p, i) for i in range(n)]
        for i in range(n): self.to_(st, p, i, vs[n - 1 - i])
        return ZERO
    def a_iota(self, I, st, e, xs):
        p, q, v = (self.ev_val(x, st) for x in xs)
        for i in range(self.span(p, q)): self.to_(st, p, i, add(toP(v), num(i)))
        return ZERO
