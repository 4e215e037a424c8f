"""Differentiation of value numbers."""
import terms as T
from terms import num, ZERO, ONE, atom, isP, toP, add, sub, mul, neg, inv, div, fn, const_of, ite

class NoDerivative(Exception): pass

def d_fn(a):
    """partial derivatives of a function atom, one per argument"""
    n, xs = a[1], [toP(x) for x in a[2:]]
    x = xs[0]
    s = atom(a)
    if n == 'sin': return [fn('cos', x)]
    if n == 'cos': return [neg(fn('sin', x))]
    if n == 'tan': return [add(ONE, mul(s, s))]
    if n == 'exp': return [s]
    if n == 'log': return [inv(x)]
    if n == 'log10': return [inv(mul(x, fn('log', num(10))))]
    if n == 'sqrt': return [mul(num(T.Fraction(1, 2)), inv(s))]
    if n == 'cbrt': return [mul(num(T.Fraction(1, 3)), inv(mul(s, s)))]
    if n == 'asin': return [inv(fn('sqrt', sub(ONE, mul(x, x))))]
    if n == 'acos': return [neg(inv(fn('sqrt', sub(ONE, mul(x, x)))))]
    if n == 'atan': return [inv(add(ONE, mul(x, x)))]
    if n == 'sinh': return [fn('cosh', x)]
    if n == 'cosh': return [fn('sinh', x)]
    if n == 'tanh': return [sub(ONE, mul(s, s))]
    if n == 'asinh': return [inv(fn('sqrt', add(mul(x, x), ONE)))]
    if n == 'acosh': return [inv(fn('sqrt', sub(mul(x, x), ONE)))]
    if n == 'atanh': return [inv(sub(ONE, mul(x, x)))]
    c = mul(num(2), inv(fn('sqrt', fn('acos', num(-1)))))
    if n == 'erf': return [mul(c, fn('exp', neg(mul(x, x))))]
    if n == 'erfc': return [neg(mul(c, fn('exp', neg(mul(x, x)))))]
    if n in ('ceil', 'floor', 'trunc', 'round'): return [ZERO]
    if n in ('fabs', 'abs'): return [ite(T.c_lt0(x), num(-1), ONE)]
    if n == 'pow':
        e = xs[1]
        return [mul(e, fn('pow', x, sub(e, ONE))), mul(s, fn('log', x))]
    if n == 'min':
        c = T.c_lt0(sub(x, xs[1])); return [atom(('ite', c, ONE, ZERO)), atom(('ite', c, ZERO, ONE))]
    if n == 'max':
        c = T.c_lt0(sub(x, xs[1])); return [atom(('ite', c, ZERO, ONE)), atom(('ite', c, ONE, ZERO))]
    if n == 'atan2':
        q = inv(add(mul(x, x), mul(xs[1], xs[1])))
        return [mul(xs[1], q), neg(mul(x, q))]
    raise NoDerivative(n)

def grad(t, leaf, memo=None):
    """{leaf atom: partial derivative}; leaf(atom) says whether an atom is an independent"""
    if memo is None: memo = {}
    t = toP(t)
    r = memo.get(t)
    if r is not None: return r
    out = {}
    def acc(g, f):
        for k, v in g.items():
            x = add(out.get(k, ZERO), mul(v, f))
            out[k] = x
    for m, c in t[1]:
        for i, (a, e) in enumerate(m):
            ga = grad_atom(a, leaf, memo)
            if not ga: continue
            # c * e * a^(e-1) * rest
            f = num(c * e)
            f = mul(f, T.mk(((tuple((b, x) if j != i else (b, x - 1) for j, (b, x) in enumerate(m) if j != i or x != 1), T.Fraction(1)),)))
            acc(ga, f)
    memo[t] = out
    return out

def grad_atom(a, leaf, memo):
    if leaf(a): return {a: ONE}
    h = a[0]
    if h == 'fn':
        gs = [grad(x, leaf, memo) for x in a[2:]]
        if not any(gs): return {}
        out = {}
        ds = d_fn(a)
        for g, d in zip(gs, ds):
            for k, v in g.items(): out[k] = add(out.get(k, ZERO), mul(v, d))
        return out
    if h == 'inv':
        g = grad(a[1], leaf, memo)
        f = neg(mul(atom(a), atom(a)))
        return {k: mul(v, f) for k, v in g.items()}
    if h == 'ite':
        g1, g2 = grad(a[2], leaf, memo), grad(a[3], leaf, memo)
        out = {}
        for k in set(g1) | set(g2):
            x, y = g1.get(k, ZERO), g2.get(k, ZERO)
            out[k] = x if x == y else atom(('ite', a[1], x, y))
        return out
    if h in ('ad', 'pd', 'sym', 'loc', 'newloc', 'bool', 'inf', 'nan', 'V', 'tapefld'): return {}
    if any(leaf(x) for x in T.atoms(a)): raise NoDerivative(T.show(a)[:60])
    return {}
