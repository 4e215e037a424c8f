"""C12: drivers compute what they are named after (drive.py)."""
from fractions import Fraction
import itertools
from math import factorial
import terms as T
from terms import ZERO, ONE, num, atom, add, sub, mul, toP, const_of, isP
from absint import State, Unsupported, Dead, cell, NULL
from ctx import Ctx
from report import Report
from load import AnalysisBroken
from drive import Drive, F, Broken

FILES = ('drivers/drivers.cpp', 'drivers/driversf.cpp', 'drivers/odedrivers.cpp', 'drivers/odedriversf.cpp', 'drivers/psdrivers.cpp',
         'drivers/psdriversf.cpp', 'drivers/taylor.cpp', 'drivers/absnormalform.cpp', 'interfaces.cpp', 'interfacesf.cpp',
         'forward_partx.cpp', 'fortutils.cpp')
TAG = 1

def total(xs):
    t = ZERO
    for x in xs: t = add(t, x)
    return t

class S:
    """one specification instance: builds arguments, knows the expected results"""
    def __init__(self, D, st):
        self.D, self.st = D, st
        self.args = []
        self.out = []
        self.inp = []
    def c(self, *vs):
        for v in vs: self.args.append(num(v))
        return self
    def sym(self, nm):
        v = atom(('in', nm)); self.args.append(v); return v
    def x(self, name, *dims, val=None):
        """input array; list of terms (nested) is returned"""
        p = self.D.arr(self.st, name, dims, val)
        self.args.append(p)
        self.inp.append((name, p, dims))
        return self.read(p, dims)
    def read(self, p, dims):
        if len(dims) == 1: return [self.D.get(self.st, p, i) for i in range(dims[0])]
        return [self.read(self.D.get(self.st, p, i), dims[1:]) for i in range(dims[0])]
    def y(self, name, *dims):
        p = self.D.arr(self.st, name, dims)
        self.args.append(p)
        return p
    def expect(self, label, p, ix, v): self.out.append((label + ''.join('[%d]' % i for i in ix), p, ix, v))
    def vec(self, label, p, vs):
        for i, v in enumerate(vs): self.expect(label, p, (i,), v)
    def mat(self, label, p, rows):
        for i, r in enumerate(rows):
            for j, v in enumerate(r): self.expect(label, p, (i, j), v)

def Dx(i, alpha, x): return F.D(num(TAG) and TAG, i, alpha, x)
J = lambda m, x: [[F.D(TAG, i, (j,), x) for j in range(len(x))] for i in range(m)]
H = lambda i, x: [[F.D(TAG, i, (j, k), x) for k in range(len(x))] for j in range(len(x))]

# ---------------------------------------------------------------- specifications: name -> list of (function, types, instance builder)
def specs():
    def one(q, mk, dims, types=None, **kw):
        for d in dims: yield q, types, d, mk, kw
    MN = [(1, 1), (2, 1), (1, 2), (2, 3), (3, 2), (1, 3), (2, 5)]

    def function(s, m, n):
        s.c(TAG, m, n); x = s.x('argument', n); y = s.y('result', m)
        s.vec('result', y, [F.D(TAG, i, (), x) for i in range(m)])
    yield from one('function', function, MN)
    def gradient(s, n):
        s.c(TAG, n); x = s.x('argument', n); g = s.y('result', n)
        s.vec('result', g, J(1, x)[0])
    yield from one('gradient', gradient, [(1,), (2,), (3,)])
    def vec_jac(s, m, n, rep):
        s.c(TAG, m, n, rep); x = s.x('argument', n); u = s.x('lagrange', m); v = s.y('row', n)
        if rep: s.D.keep(TAG, deg=0, q=1, x0=x, X=[[] for _ in x], m=m)
        s.vec('row', v, [total(mul(u[i], F.D(TAG, i, (j,), x)) for i in range(m)) for j in range(n)])
    yield from one('vec_jac', vec_jac, [a + (r,) for a in MN for r in (0, 1)])
    def jacobian(s, m, n):
        s.c(TAG, m, n); x = s.x('argument', n); j = s.y('jacobian', m, n)
        s.mat('jacobian', j, J(m, x))
    yield from one('jacobian', jacobian, MN + [(4, 1), (1, 4), (3, 5), (2, 4), (3, 6)])
    def large_jacobian(s, m, n, r):
        s.c(TAG, m, n, r); x = s.x('argument', n); y = s.y('result', m); j = s.y('jacobian', m, n)
        s.vec('result', y, [F.D(TAG, i, (), x) for i in range(m)])
        s.mat('jacobian', j, J(m, x))
    yield from one('large_jacobian', large_jacobian, [(2, n, r) for n in (1, 2, 3, 4, 5, 7) for r in (0, 1, 2, 3, 4, 5, 8)])
    def jac_vec(s, m, n):
        s.c(TAG, m, n); x = s.x('argument', n); v = s.x('tangent', n); u = s.y('column', m)
        s.vec('column', u, [total(mul(a, b) for a, b in zip(r, v)) for r in J(m, x)])
    yield from one('jac_vec', jac_vec, MN)
    def hess_vec(s, n):
        s.c(TAG, n); x = s.x('argument', n); v = s.x('tangent', n); w = s.y('result', n)
        s.vec('result', w, [total(mul(a, b) for a, b in zip(r, v)) for r in H(0, x)])
    yield from one('hess_vec', hess_vec, [(1,), (2,), (3,)])
    def hess_mat(s, n, q):
        s.c(TAG, n, q); x = s.x('argument', n); V = s.x('tangent', n, q); W = s.y('result', n, q)
        h = H(0, x)
        s.mat('result', W, [[total(mul(h[i][k], V[k][j]) for k in range(n)) for j in range(q)] for i in range(n)])
    yield from one('hess_mat', hess_mat, [(1, 1), (1, 2), (2, 1), (2, 3), (3, 2)])
    def hessian(s, n):
        s.c(TAG, n); x = s.x('argument', n); h = s.y('hess', n, n)
        for i in range(n):
            for j in range(i + 1): s.expect('hess', h, (i, j), F.D(TAG, 0, (i, j), x))
    yield from one('hessian', hessian, [(1,), (2,), (3,)])
    yield from one('hessian2', hessian, [(1,), (2,), (3,)])
    def lagra(s, m, n):
        s.c(TAG, m, n); x = s.x('argument', n); v = s.x('tangent', n); u = s.x('lagrange', m); w = s.y('result', n)
        s.vec('result', w, [total(mul(u[k], mul(F.D(TAG, k, (i, j), x), v[j])) for k in range(m) for j in range(n)) for i in range(n)])
    yield from one('lagra_hess_vec', lagra, [(1, 1), (2, 1), (1, 2), (2, 3), (3, 2)])

    # -------- partitioned input
    def flat(nd, f): return [f(i, j) for i in range(len(nd)) for j in range(nd[i])]
    def jag(s, name, nd, *rest):
        """array [i][j]... with nd[i] rows"""
        D, st = s.D, s.st
        r = ('par', name); D.kind[r] = 'p'; D.state[r] = 'live'; D.size[r] = len(nd)
        for i, k in enumerate(nd):
            st.mem[(r, num(i))] = D.arr(st, '%s[%d]' % (name, i), (k,) + rest)
        p = ('ptr', r, ZERO); s.args.append(p)
        return [s.read(D.get(st, p, i), (k,) + rest) for i, k in enumerate(nd)]
    def nd_(s, nd): s.args.append(s.D.arr(s.st, 'ndim', (len(nd),), lambda i: num(nd[i])))
    ND = [((1, 2), 2), ((3,), 1), ((2, 1, 1), 2), ((1, 1), 3)]
    def zos_px(s, nd, m):
        s.c(TAG, m, len(nd)); nd_(s, nd); X = jag(s, 'x', nd); y = s.y('y', m)
        x = [v for r in X for v in r]
        s.vec('y', y, [F.D(TAG, i, (), x) for i in range(m)])
    yield from one('zos_forward_partx', zos_px, ND)
    def fos_px(s, nd, m):
        s.c(TAG, m, len(nd)); nd_(s, nd); X = jag(s, 'x', nd, 2); y = s.y('y', m, 2)
        x = [v[0] for r in X for v in r]; xd = [[v[1]] for r in X for v in r]
        s.mat('y', y, [[F.coef(TAG, i, (), x, xd, k) for k in (0, 1)] for i in range(m)])
    yield from one('fos_forward_partx', fos_px, ND)
    def hos_px(s, nd, m, d):
        s.c(TAG, m, len(nd)); nd_(s, nd); s.c(d); X = jag(s, 'x', nd, d + 1); y = s.y('y', m, d + 1)
        x = [v[0] for r in X for v in r]; xd = [v[1:] for r in X for v in r]
        s.mat('y', y, [[F.coef(TAG, i, (), x, xd, k) for k in range(d + 1)] for i in range(m)])
    yield from one('hos_forward_partx', hos_px, [a + (d,) for a in ND[:2] for d in (1, 2, 3)])
    def fov_px(s, nd, m, p):
        s.c(TAG, m, len(nd)); nd_(s, nd); s.c(p); X0 = jag(s, 'x', nd); X = jag(s, 'X', nd, p); y = s.y('y', m); Y = s.y('Y', m, p)
        x = [v for r in X0 for v in r]; xd = [v for r in X for v in r]
        s.vec('y', y, [F.D(TAG, i, (), x) for i in range(m)])
        s.mat('Y', Y, [[F.coef(TAG, i, (), x, [[r[l]] for r in xd], 1) for l in range(p)] for i in range(m)])
    yield from one('fov_forward_partx', fov_px, [a + (p,) for a in ND for p in (1, 2)])
    def hov_px(s, nd, m, d, p):
        s.c(TAG, m, len(nd)); nd_(s, nd); s.c(d, p); X0 = jag(s, 'x', nd); X = jag(s, 'X', nd, p, d); y = s.y('y', m); Y = s.y('Y', m, p, d)
        x = [v for r in X0 for v in r]; xd = [v for r in X for v in r]
        s.vec('y', y, [F.D(TAG, i, (), x) for i in range(m)])
        for i in range(m):
            for l in range(p):
                for k in range(d): s.expect('Y', Y, (i, l, k), F.coef(TAG, i, (), x, [r[l] for r in xd], k + 1))
    yield from one('hov_forward_partx', hov_px, [a + (d, p) for a in ND[:2] for d in (1, 2) for p in (1, 2)])

    # -------- overloaded forward and reverse
    def fw_gen(s, m, n, d, keep):
        s.c(TAG, m, n, d, keep); X = s.x('X', n, d + 1); Y = s.y('Y', m, d + 1)
        s.mat('Y', Y, [[F.coef(TAG, i, (), [r[0] for r in X], [r[1:] for r in X], k) for k in range(d + 1)] for i in range(m)])
        s.same = [('X', X)]; s.keep = (keep, d)
    yield from one('forward', fw_gen, [(m, n, d, k) for m, n in ((1, 1), (2, 3)) for d in (0, 1, 2, 3) for k in range(min(d, 2) + 2) if k <= d + 1],
                   types=('short', 'int', 'int', 'int', 'int', 'double **', 'double **'))
    def fw_y1(s, m, n, d, keep):
        s.c(TAG, m, n, d, keep); X = s.x('X', n, d + 1); Y = s.y('Y', d + 1)
        s.vec('Y', Y, [F.coef(TAG, 0, (), [r[0] for r in X], [r[1:] for r in X], k) for k in range(d + 1)])
        s.same = [('X', X)]; s.keep = (keep, d)
    yield from one('forward', fw_y1, [(1, n, d, k) for n in (1, 3) for d in (0, 1, 2, 3) for k in (0, 1)],
                   types=('short', 'int', 'int', 'int', 'int', 'double **', 'double *'))
    def fw_d0(s, m, n, keep):
        s.c(TAG, m, n, 0, keep); x = s.x('X', n); y = s.y('Y', m)
        s.vec('Y', y, [F.D(TAG, i, (), x) for i in range(m)]); s.keep = (keep, 0)
    yield from one('forward', fw_d0, [(1, 1, 0), (2, 3, 1)], types=('short', 'int', 'int', 'int', 'int', 'const double *', 'double *'))
    def fw_nod(s, m, n, keep):
        s.c(TAG, m, n, keep); x = s.x('X', n); y = s.y('Y', m)
        s.vec('Y', y, [F.D(TAG, i, (), x) for i in range(m)]); s.keep = (keep, 0)
    yield from one('forward', fw_nod, [(1, 1, 0), (2, 3, 1)], types=('short', 'int', 'int', 'int', 'const double *', 'double *'))
    def hov(s, m, n, d, p):
        s.c(TAG, m, n, d, p); x = s.x('x', n); X = s.x('X', n, p, d); y = s.y('y', m); Y = s.y('Y', m, p, d)
        s.vec('y', y, [F.D(TAG, i, (), x) for i in range(m)])
        for i in range(m):
            for l in range(p):
                for k in range(d): s.expect('Y', Y, (i, l, k), F.coef(TAG, i, (), x, [r[l] for r in X], k + 1))
    yield from one('forward', hov, [(1, 2, 2, 1), (2, 2, 1, 3), (2, 1, 3, 2)],
                   types=('short', 'int', 'int', 'int', 'int', 'const double *', 'const double *const *const *', 'double *', 'double ***'))
    def fov(s, m, n, p):
        s.c(TAG, m, n, p); x = s.x('x', n); X = s.x('X', n, p); y = s.y('y', m); Y = s.y('Y', m, p)
        s.vec('y', y, [F.D(TAG, i, (), x) for i in range(m)])
        s.mat('Y', Y, [[F.coef(TAG, i, (), x, [[r[l]] for r in X], 1) for l in range(p)] for i in range(m)])
    yield from one('forward', fov, [(1, 2, 1), (2, 3, 2)],
                   types=('short', 'int', 'int', 'int', 'const double *', 'const double *const *', 'double *', 'double **'))

    def kept(s, m, n, d):
        x0 = [atom(('in', 'kept x', j)) for j in range(n)]
        X = [[atom(('in', 'kept X', j, k)) for k in range(d)] for j in range(n)]
        s.D.keep(TAG, deg=d, q=1, x0=x0, X=X, m=m)
        return x0, X
    def adj(u, x0, X, j, l): return total(mul(u[i], F.coef(TAG, i, (j,), x0, X, l)) for i in range(len(u)))
    def rv_s(s, m, n, d):
        s.c(TAG, m, n, d); u = s.x('u', m); Z = s.y('Z', n, d + 1); x0, X = kept(s, m, n, d)
        s.mat('Z', Z, [[adj(u, x0, X, j, l) for l in range(d + 1)] for j in range(n)])
    yield from one('reverse', rv_s, [(1, 2, 0), (2, 2, 1), (2, 3, 2)], types=('short', 'int', 'int', 'int', 'const double *', 'double **'))
    def rv_s1(s, m, n, d):
        s.c(TAG, m, n, d); u = s.sym('u'); Z = s.y('Z', n, d + 1); x0, X = kept(s, m, n, d)
        s.mat('Z', Z, [[adj([u], x0, X, j, l) for l in range(d + 1)] for j in range(n)])
    yield from one('reverse', rv_s1, [(1, 2, 0), (1, 2, 1), (1, 3, 2)], types=('short', 'int', 'int', 'int', 'double', 'double **'))
    def rv_z(s, m, n):
        s.c(TAG, m, n, 0); u = s.x('u', m); Z = s.y('Z', n); x0, X = kept(s, m, n, 0)
        s.vec('Z', Z, [adj(u, x0, X, j, 0) for j in range(n)])
    yield from one('reverse', rv_z, [(1, 2), (2, 3)], types=('short', 'int', 'int', 'int', 'const double *', 'double *'))
    def rv_z1(s, m, n):
        s.c(TAG, m, n, 0); u = s.sym('u'); Z = s.y('Z', n); x0, X = kept(s, m, n, 0)
        s.vec('Z', Z, [adj([u], x0, X, j, 0) for j in range(n)])
    yield from one('reverse', rv_z1, [(1, 1), (1, 3)], types=('short', 'int', 'int', 'int', 'double', 'double *'))
    def ten(s, Z, U, x0, X, d):
        for r in range(len(U)):
            for j in range(len(x0)):
                for l in range(d + 1): s.expect('Z', Z, (r, j, l), adj(U[r], x0, X, j, l))
    def rv_v(s, m, n, d, q):
        s.c(TAG, m, n, d, q); U = s.x('U', q, m); Z = s.y('Z', q, n, d + 1); s.args.append(NULL); x0, X = kept(s, m, n, d)
        ten(s, Z, U, x0, X, d)
    yield from one('reverse', rv_v, [(1, 2, 0, 2), (2, 2, 1, 3), (2, 1, 2, 1)],
                   types=('short', 'int', 'int', 'int', 'int', 'const double *const *', 'double ***', 'short **'))
    def rv_v1(s, m, n, d, q):
        s.c(TAG, m, n, d, q); U = s.x('U', q); Z = s.y('Z', q, n, d + 1); s.args.append(NULL); x0, X = kept(s, m, n, d)
        ten(s, Z, [[u] for u in U], x0, X, d)
    yield from one('reverse', rv_v1, [(1, 2, 0, 2), (1, 2, 1, 3)],
                   types=('short', 'int', 'int', 'int', 'int', 'double *', 'double ***', 'short **'))
    def rv_m(s, m, n, q, withd=True):
        s.c(TAG, m, n, 0, q) if withd else s.c(TAG, m, n, q)
        U = s.x('U', q, m); Z = s.y('Z', q, n); x0, X = kept(s, m, n, 0)
        s.mat('Z', Z, [[adj(U[r], x0, X, j, 0) for j in range(n)] for r in range(q)])
    yield from one('reverse', rv_m, [(1, 2, 2), (2, 3, 2)], types=('short', 'int', 'int', 'int', 'int', 'const double *const *', 'double **'))
    yield from one('reverse', lambda s, m, n, q: rv_m(s, m, n, q, False), [(1, 2, 2), (2, 3, 2)],
                   types=('short', 'int', 'int', 'int', 'const double *const *', 'double **'))
    def rv_m1(s, m, n, q):
        s.c(TAG, m, n, 0, q); U = s.x('U', q); Z = s.y('Z', q, n); x0, X = kept(s, m, n, 0)
        s.mat('Z', Z, [[adj([U[r]], x0, X, j, 0) for j in range(n)] for r in range(q)])
    yield from one('reverse', rv_m1, [(1, 2, 2), (1, 1, 3)], types=('short', 'int', 'int', 'int', 'int', 'double *', 'double **'))
    def rv_i(s, m, n, d):
        s.c(TAG, m, n, d); Z = s.y('Z', m, n, d + 1); s.args.append(NULL); x0, X = kept(s, m, n, d)
        ten(s, Z, [[ONE if i == r else ZERO for i in range(m)] for r in range(m)], x0, X, d)
    yield from one('reverse', rv_i, [(1, 2, 0), (3, 2, 1), (2, 2, 1)], types=('short', 'int', 'int', 'int', 'double ***', 'short **'), static=True)

    # -------- ODEs
    def forodec(s, n, dol, deg):
        s.c(TAG, n); tau = s.sym('tau'); s.c(dol, deg)
        Y = s.x('Y', n, deg + 1)
        cur = [r[:dol + 1] for r in Y]
        for j in range(dol, deg):
            new = [mul(mul(tau, num(Fraction(1, 1 + j))), F.coef(TAG, i, (), [r[0] for r in cur], [r[1:] for r in cur], j)) for i in range(n)]
            for r, v in zip(cur, new): r.append(v)
        s.mat('Y', s.args[-1], cur)
        if deg > dol: s.keep = (deg, deg - 1)
    yield from one('forodec', forodec, [(1, 0, 1), (1, 0, 3), (2, 0, 2), (1, 1, 3), (2, 1, 2), (2, 2, 2), (2, 0, 3)])
    def accodec(s, n, deg, alias):
        s.c(n); tau = s.sym('tau'); s.c(deg)
        A = s.x('A', n, n, deg + 1)
        if alias: s.args.append(s.args[-1]); B = s.args[-1]
        else: B = s.y('B', n, n, deg + 1)
        s.args.append(NULL)
        E = []
        for k in range(deg + 1):
            E.append([[mul(mul(tau, num(Fraction(1, k + 1))), add(A[i][j][k], total(mul(A[i][p][l - 1], E[k - l][p][j]) for l in range(1, k + 1) for p in range(n)))) for j in range(n)] for i in range(n)])
        for k in range(deg + 1):
            for i in range(n):
                for j in range(n): s.expect('B', B, (i, j, k), E[k][i][j])
    yield from one('accodec', accodec, [(1, 0, 0), (1, 2, 0), (2, 1, 0), (2, 2, 0), (2, 3, 0)])
    def accodec_nz(s, n, deg, pat):
        """with sparsity: pat[i][j] 0: zero for all k, 1: only A_0, 2: all"""
        s.c(n); tau = s.sym('tau'); s.c(deg)
        A = s.x('A', n, n, deg + 1, val=lambda i, j, k: atom(('in', 'A', i, j, k)) if pat[i][j] == 2 or pat[i][j] == 1 and k == 0 else ZERO)
        B = s.y('B', n, n, deg + 1)
        s.args.append(s.D.arr(s.st, 'nonzero', (n, n), lambda i, j: num(pat[i][j])))
        E = []
        for k in range(deg + 1):
            E.append([[mul(mul(tau, num(Fraction(1, k + 1))), add(A[i][j][k], total(mul(A[i][p][l - 1], E[k - l][p][j]) for l in range(1, k + 1) for p in range(n)))) for j in range(n)] for i in range(n)])
        for k in range(deg + 1):
            for i in range(n):
                for j in range(n): s.expect('B', B, (i, j, k), E[k][i][j])
    yield from one('accodec', accodec_nz, [(2, 2, ((2, 2), (2, 2))), (2, 2, ((1, 2), (0, 1))), (2, 3, ((1, 0), (1, 2))), (3, 3, ((1, 1, 0), (0, 1, 2), (0, 0, 2))), (2, 2, ((2, 1), (1, 2)))])

    # -------- piecewise smooth
    def abs_normal(s, m, n):
        w = s.D.nsw
        s.c(TAG, m, n, w); x = s.x('x', n); y = s.y('y', m); z = s.y('z', w)
        Y, Jm, Z, L = s.y('Y', m, n), s.y('J', m, w), s.y('Z', w, n), s.y('L', w, w)
        xk = tuple(x)
        s.vec('y', y, [F.D(TAG, i, (), x) for i in range(m)])
        s.vec('z', z, [atom(('z', TAG, i, xk)) for i in range(w)])
        P = lambda r, i, b, j: atom(('pl', TAG, r, i, b, j, xk))
        s.mat('Y', Y, [[P('y', i, 'n', j) for j in range(n)] for i in range(m)])
        s.mat('J', Jm, [[P('y', i, 's', j) for j in range(w)] for i in range(m)])
        s.mat('Z', Z, [[P('z', i, 'n', j) for j in range(n)] for i in range(w)])
        s.mat('L', L, [[P('z', i, 's', j) for j in range(w)] for i in range(w)])
        s.norc = True
    yield from one('abs_normal', abs_normal, [(1, 2), (2, 3), (3, 1)])
    yield from fortran(one, kept, adj, ten)
    yield from tensors(one)

def fortran(one, kept, adj, ten):
    """column-major arrays, arguments by reference"""
    def ints(s, *vs):
        for v in vs: s.args.append(s.D.arr(s.st, 'int%d' % len(s.args), (1,), lambda i, v=v: num(v)))
    def col(s, name, *dims):
        """input array stored column-major; nested list of terms"""
        k = 1
        for d in dims: k *= d
        p = s.D.arr(s.st, name, (k,)); s.args.append(p)
        def at(pre):
            if len(pre) == len(dims):
                o = 0
                for i, d in zip(reversed(pre), reversed(dims)): o = o * d + i
                return s.D.get(s.st, p, o)
            return [at(pre + (i,)) for i in range(dims[len(pre)])]
        return at(())
    def expcol(s, name, dims, f, skip=None):
        k = 1
        for d in dims: k *= d
        p = s.D.arr(s.st, name, (k,)); s.args.append(p)
        for ix in itertools.product(*[range(d) for d in dims]):
            if skip and skip(*ix): continue
            o = 0
            for i, d in zip(reversed(ix), reversed(dims)): o = o * d + i
            s.out.append((name + ''.join('[%d]' % i for i in ix), p, (o,), (lambda ix=ix: f(*ix))))
    MN = [(1, 1), (1, 3), (3, 2), (2, 3)]
    def function_(s, m, n):
        ints(s, TAG, m, n); x = col(s, 'x', n); expcol(s, 'y', (m,), lambda i: F.D(TAG, i, (), x))
    yield from one('function_', function_, MN)
    def gradient_(s, n):
        ints(s, TAG, n); x = col(s, 'x', n); expcol(s, 'g', (n,), lambda j: F.D(TAG, 0, (j,), x))
    yield from one('gradient_', gradient_, [(1,), (3,)])
    def vec_jac_(s, m, n):
        ints(s, TAG, m, n, 0); x = col(s, 'x', n); u = col(s, 'u', m)
        expcol(s, 'v', (n,), lambda j: total(mul(u[i], F.D(TAG, i, (j,), x)) for i in range(m)))
    yield from one('vec_jac_', vec_jac_, MN)
    def jacobian_(s, m, n):
        ints(s, TAG, m, n); x = col(s, 'x', n); expcol(s, 'J', (m, n), lambda i, j: F.D(TAG, i, (j,), x))
    yield from one('jacobian_', jacobian_, MN + [(1, 5)])
    def jac_vec_(s, m, n):
        ints(s, TAG, m, n); x = col(s, 'x', n); v = col(s, 'v', n)
        expcol(s, 'u', (m,), lambda i: total(mul(F.D(TAG, i, (j,), x), v[j]) for j in range(n)))
    yield from one('jac_vec_', jac_vec_, MN)
    def hess_vec_(s, n):
        ints(s, TAG, n); x = col(s, 'x', n); v = col(s, 'v', n)
        expcol(s, 'w', (n,), lambda i: total(mul(F.D(TAG, 0, (i, j), x), v[j]) for j in range(n)))
    yield from one('hess_vec_', hess_vec_, [(1,), (3,)])
    def hessian_(s, n):
        ints(s, TAG, n); x = col(s, 'x', n); expcol(s, 'H', (n, n), lambda i, j: F.D(TAG, 0, (i, j), x), skip=lambda i, j: j > i)
    yield from one('hessian_', hessian_, [(1,), (3,)])
    def lagra_(s, m, n):
        ints(s, TAG, m, n); x = col(s, 'x', n); v = col(s, 'v', n); u = col(s, 'u', m)
        expcol(s, 'w', (n,), lambda i: total(mul(u[k], mul(F.D(TAG, k, (i, j), x), v[j])) for j in range(n) for k in range(m)))
    yield from one('lagra_hess_vec_', lagra_, [(1, 2), (2, 3), (3, 2)])
    def zosf(s, m, n, k):
        ints(s, TAG, m, n, k); x = col(s, 'x', n); expcol(s, 'y', (m,), lambda i: F.D(TAG, i, (), x)); s.keep = (k, 0)
    yield from one('zos_forward_', zosf, [(2, 3, 0), (3, 2, 1)])
    def hosf(s, m, n, d, k):
        ints(s, TAG, m, n, d, k); x = col(s, 'x', n); X = col(s, 'X', n, d)
        expcol(s, 'y', (m,), lambda i: F.D(TAG, i, (), x)); expcol(s, 'Y', (m, d), lambda i, l: F.coef(TAG, i, (), x, X, l + 1)); s.keep = (k, d)
    yield from one('hos_forward_', hosf, [(2, 3, 2, 0), (3, 2, 1, 2), (1, 2, 3, 1)])
    def fovf(s, m, n, p):
        ints(s, TAG, m, n, p); x = col(s, 'x', n); X = col(s, 'X', n, p)
        expcol(s, 'y', (m,), lambda i: F.D(TAG, i, (), x)); expcol(s, 'Y', (m, p), lambda i, l: F.coef(TAG, i, (), x, [[r[l]] for r in X], 1))
    yield from one('fov_forward_', fovf, [(2, 3, 2), (3, 2, 1), (1, 2, 3)])
    def hovf(s, m, n, d, p):
        ints(s, TAG, m, n, d, p); x = col(s, 'x', n); X = col(s, 'X', n, p, d)
        expcol(s, 'y', (m,), lambda i: F.D(TAG, i, (), x)); expcol(s, 'Y', (m, p, d), lambda i, l, k: F.coef(TAG, i, (), x, [r[l] for r in X], k + 1))
    yield from one('hov_forward_', hovf, [(2, 3, 2, 1), (3, 2, 1, 2), (1, 2, 2, 3)])
    def fosr(s, m, n):
        ints(s, TAG, m, n); u = col(s, 'u', m); x0, X = kept(s, m, n, 0); expcol(s, 'z', (n,), lambda j: adj(u, x0, X, j, 0))
    yield from one('fos_reverse_', fosr, [(2, 3), (3, 2)])
    def hosr(s, m, n, d):
        ints(s, TAG, m, n, d); u = col(s, 'u', m); x0, X = kept(s, m, n, d); expcol(s, 'z', (n, d + 1), lambda j, l: adj(u, x0, X, j, l))
    yield from one('hos_reverse_', hosr, [(2, 3, 1), (3, 2, 2)])
    def fovr(s, m, n, q):
        ints(s, TAG, m, n, q); U = col(s, 'u', q, m); x0, X = kept(s, m, n, 0); expcol(s, 'z', (q, n), lambda r, j: adj(U[r], x0, X, j, 0))
    yield from one('fov_reverse_', fovr, [(2, 3, 1), (3, 2, 2)])
    def hovr(s, m, n, d, q):
        ints(s, TAG, m, n, d, q); U = col(s, 'u', q, m); x0, X = kept(s, m, n, d); expcol(s, 'z', (q, n, d + 1), lambda r, j, l: adj(U[r], x0, X, j, l))
    yield from one('hov_reverse_', hovr, [(2, 3, 1, 2), (3, 2, 2, 1)])
    def tiadj(U, x0, X, j, l): return total(mul(U[i][a], F.coef(TAG, i, (j,), x0, X, l - a)) for i in range(len(U)) for a in range(l + 1))
    def hostir(s, m, n, d):
        ints(s, TAG, m, n, d); U = col(s, 'u', m, d + 1); x0, X = kept(s, m, n, d); expcol(s, 'z', (n, d + 1), lambda j, l: tiadj(U, x0, X, j, l))
    yield from one('hos_ti_reverse_', hostir, [(2, 3, 1), (3, 2, 2)])
    def hovtir(s, m, n, d, q):
        ints(s, TAG, m, n, d, q); U = col(s, 'u', q, m, d + 1); x0, X = kept(s, m, n, d); expcol(s, 'z', (q, n, d + 1), lambda r, j, l: tiadj(U[r], x0, X, j, l))
    yield from one('hov_ti_reverse_', hovtir, [(2, 3, 1, 2), (3, 2, 2, 1)])
    def forodec_(s, n, deg):
        ints(s, TAG, n)
        s.args.append(s.D.arr(s.st, 'tau', (1,))); tau = s.D.get(s.st, s.args[-1], 0)
        ints(s, 0, deg)
        k = n * (deg + 1); p = s.D.arr(s.st, 'Y', (k,)); s.args.append(p)
        cur = [[s.D.get(s.st, p, i)] for i in range(n)]
        for j in range(deg):
            new = [mul(mul(tau, num(Fraction(1, 1 + j))), F.coef(TAG, i, (), [r[0] for r in cur], [r[1:] for r in cur], j)) for i in range(n)]
            for r, v in zip(cur, new): r.append(v)
        for i in range(n):
            for l in range(deg + 1): s.expect('Y', p, (l * n + i,), cur[i][l])
    yield from one('forodec_', forodec_, [(1, 2), (2, 2), (2, 1)])
    def accodec_(s, n, deg):
        ints(s, n); s.args.append(s.D.arr(s.st, 'tau', (1,))); tau = s.D.get(s.st, s.args[-1], 0)
        ints(s, deg); A = col(s, 'A', n, n, deg + 1)
        E = []
        for k in range(deg + 1):
            E.append([[mul(mul(tau, num(Fraction(1, k + 1))), add(A[i][j][k], total(mul(A[i][p][l - 1], E[k - l][p][j]) for l in range(1, k + 1) for p in range(n)))) for j in range(n)] for i in range(n)])
        expcol(s, 'B', (n, n, deg + 1), lambda i, j, k: E[k][i][j])
        s.norc = True
    yield from one('accodec_', accodec_, [(1, 1), (2, 2)])

def multis(p, d):
    """tensor indices: nonincreasing tuples i1 >= ... >= id of 0..p"""
    for t in itertools.product(range(p + 1), repeat=d):
        if all(t[i] >= t[i + 1] for i in range(d - 1)): yield t

def binom(n, k):
    r = 1
    for i in range(k): r = r * (n - i) // (i + 1)
    return r

def address(t):
    """position of a symmetric tensor entry; t nonincreasing with d entries"""
    s = tuple(reversed(t))
    return sum(binom(s[i] + i, i + 1) for i in range(len(s)))

def tensors(one):
    def dirs(p, x, S, t, i):
        """derivative of F_i in directions S[.][t-1] (0: none)"""
        idx = [k - 1 for k in t if k]
        n = len(x)
        return total_prod(S, idx, n, i, x)
    def total_prod(S, idx, n, i, x):
        t = ZERO
        for js in itertools.product(range(n), repeat=len(idx)):
            v = F.D(TAG, i, js, x)
            for j, k in zip(js, idx): v = mul(v, S[j][k])
            t = add(t, v)
        return t
    def tensor_eval(s, m, n, d, p):
        s.c(TAG, m, n, d, p); x = s.x('x', n); w = binom(p + d, d); t = s.y('tensor', m, w); S = s.x('S', n, p)
        for i in range(m):
            for u in multis(p, d): s.out.append(('tensor[%d]%s' % (i, u), t, (i, address(u)), (lambda i=i, u=u: dirs(p, x, S, u, i))))
        s.static = True
    yield from one('tensor_eval', tensor_eval, [(2, 2, 1, 2), (1, 2, 2, 2), (1, 1, 3, 1), (1, 2, 2, 1), (2, 1, 2, 1), (1, 2, 3, 2), (1, 1, 0, 1), (1, 1, 2, 4), (1, 1, 1, 12), (1, 1, 3, 4)])
    def tensor_address(s, d, p, u):
        s.c(d); s.args.append(s.D.arr(s.st, 'im', (d,), lambda i: num(u[i])))
        s.ret = num(address(tuple(sorted(u, reverse=True))))
    yield from one('tensor_address', tensor_address, [(d, 3, u) for d in (1, 2, 3) for u in itertools.product(range(4), repeat=d)])
    def tensor_value(s, d, m, p, u):
        s.c(d, m); y = s.y('y', m); w = binom(p + d, d); t = s.x('tensor', m, w)
        s.args.append(s.D.arr(s.st, 'multi', (d,), lambda i: num(u[i])))
        s.vec('y', y, [t[i][address(tuple(sorted(u, reverse=True)))] for i in range(m)])
    yield from one('tensor_value', tensor_value, [(d, 2, 2, u) for d in (1, 2, 3) for u in itertools.product(range(3), repeat=d)])
    # -------- linear solver and inverse tensors: sequences of calls
    def jac_solv(s, seq, n):
        D = s.D
        for k, (xi, mode) in enumerate(seq):
            D.prefix = 'call %d: ' % (k + 1)
            a = [num(TAG), num(n)]
            px = D.arr(s.st, 'x', (n,), lambda i: atom(('in', 'x%d' % xi, i)))
            pb = D.arr(s.st, 'b', (n,))
            a += [px, pb, num(mode)]
            s.calls.append(a)
            x = [atom(('in', 'x%d' % xi, i)) for i in range(n)]
            b = [D.get(s.st, pb, i) for i in range(n)]
            if mode == 2:
                s.fracs.append(('call %d: J b' % (k + 1), lambda pb=pb, x=x, b=b: [(total(mul(F.D(TAG, i, (j,), x), toP(D.get(s.st, pb, j))) for j in range(n)), b[i]) for i in range(n)]))
            else:
                for i in range(n): s.out.append(('call %d: b[%d]' % (k + 1, i), pb, (i,), b[i]))
        s.static = True
    seqs = [((0, 2),), ((0, 0), (0, 2)), ((0, 1), (0, 2)), ((0, 1), (1, 2)), ((0, 2), (0, 2)), ((0, 2), (1, 2)), ((0, 1), (0, 0), (0, 2)), ((0, 2), (1, 0), (1, 2)), ((0, 1), (1, 1), (0, 2)), ((0, 2), (0, 1), (0, 2))]
    yield from one('jac_solv', jac_solv, [(q, 1) for q in seqs] + [(q, 2) for q in seqs], bits=True)
    def inv_prop(s, seq):
        D = s.D
        for k, (xi, n, d) in enumerate(seq):
            D.prefix = 'call %d: ' % (k + 1)
            pY = D.arr(s.st, 'Y', (n, d + 1), lambda i, l: atom(('in', 'Y%d' % k, i, l)) if l else F.D(TAG, i, (), [atom(('in', 'x%d' % xi, j)) for j in range(n)]))
            pX = D.arr(s.st, 'X', (n, d + 1), lambda i, l: atom(('in', 'x%d' % xi, i)) if l == 0 else atom(('undef', 'X', i, l)))
            s.calls.append([num(TAG), num(n), num(d), pY, pX])
            def want(pX=pX, pY=pY, xi=xi, n=n, d=d):
                x0 = [atom(('in', 'x%d' % xi, i)) for i in range(n)]
                X = [[toP(D.get(s.st, pX, i, l)) for l in range(1, d + 1)] for i in range(n)]
                for i in range(n): yield toP(D.get(s.st, pX, i, 0)), x0[i]
                for i in range(n):
                    for l in range(1, d + 1): yield F.coef(TAG, i, (), x0, X, l), D.get(s.st, pY, i, l)
            s.fracs.append(('call %d: F(X) = Y' % (k + 1), want))
        s.static = True
    yield from one('inverse_Taylor_prop', inv_prop, [(q,) for q in (((0, 1, 1),), ((0, 1, 2),), ((0, 1, 3),), ((0, 1, 5),), ((0, 1, 2), (0, 1, 2)), ((0, 1, 2), (1, 1, 2)), ((0, 1, 2), (0, 1, 3)), ((0, 1, 3), (0, 1, 1)), ((0, 2, 1),), ((0, 2, 2),), ((0, 1, 2), (0, 2, 2)), ((0, 2, 1), (0, 1, 2)))])
    def inv_tensor(s, seq):
        D = s.D
        for k, (xi, n, d, p) in enumerate(seq):
            D.prefix = 'call %d: ' % (k + 1)
            px = D.arr(s.st, 'x', (n,), lambda i: atom(('in', 'x%d' % xi, i)))
            w = binom(p + d, d)
            pt = D.arr(s.st, 'tensor', (n, w)); pS = D.arr(s.st, 'S', (n, p))
            S = [[D.get(s.st, pS, i, j) for j in range(p)] for i in range(n)]
            s.calls.append([num(TAG), num(n), num(d), num(p), px, pt, pS])
            def want(pt=pt, S=S, xi=xi, n=n, d=d, p=p):
                """substituting the tensor into F gives the identity along S z"""
                x0 = [atom(('in', 'x%d' % xi, i)) for i in range(n)]
                e = lambda i, u: toP(D.get(s.st, pt, i, address(u)))
                for i in range(n): yield e(i, (0,) * d), x0[i]
                # one parameter: derivatives of the inverse along S
                for q in range(1, p + 1):
                    X = [[mul(num(Fraction(1, factorial(l))), e(i, (q,) * l + (0,) * (d - l))) for l in range(1, d + 1)] for i in range(n)]
                    for i in range(n):
                        for l in range(1, d + 1): yield F.coef(TAG, i, (), x0, X, l), (S[i][q - 1] if l == 1 else ZERO)
                # mixed second derivatives
                if d >= 2:
                    for q in range(1, p + 1):
                        for r in range(1, q):
                            for i in range(n):
                                z = lambda t: (t,) + (0,) * (d - 1)
                                yield add(total(mul(F.D(TAG, i, (j,), x0), e(j, (q, r) + (0,) * (d - 2))) for j in range(n)),
                                          total(mul(F.D(TAG, i, (j, h), x0), mul(e(j, z(q)), e(h, z(r)))) for j in range(n) for h in range(n))), ZERO
            s.fracs.append(('call %d: derivatives of F(inverse)' % (k + 1), want))
        s.static = True
    yield from one('inverse_tensor_eval', inv_tensor, [(q,) for q in (((0, 1, 1, 1),), ((0, 1, 2, 1),), ((0, 1, 2, 2),), ((0, 1, 3, 1),), ((0, 1, 1, 3),), ((0, 1, 1, 1), (0, 1, 2, 1)), ((0, 1, 2, 2), (1, 1, 1, 2)), ((0, 1, 2, 1), (0, 1, 2, 2)), ((0, 1, 3, 2), (0, 1, 1, 1)), ((0, 2, 1, 2),), ((0, 1, 0, 1),))])
    def tensor_seq(s, seq):
        D = s.D
        for k, (m, n, d, p) in enumerate(seq):
            D.prefix = 'call %d: ' % (k + 1)
            px = D.arr(s.st, 'x', (n,)); x = [D.get(s.st, px, i) for i in range(n)]
            w = binom(p + d, d)
            pt = D.arr(s.st, 'tensor', (m, w)); pS = D.arr(s.st, 'S', (n, p))
            S = [[D.get(s.st, pS, i, j) for j in range(p)] for i in range(n)]
            s.calls.append([num(TAG), num(m), num(n), num(d), num(p), px, pt, pS])
            for i in range(m):
                for u in multis(p, d): s.out.append(('call %d: tensor[%d]%s' % (k + 1, i, u), pt, (i, address(u)), (lambda i=i, u=u, x=x, S=S, p=p: dirs(p, x, S, u, i))))
        s.static = True
    yield from one('tensor_eval', tensor_seq, [(q,) for q in (((1, 1, 1, 1), (1, 1, 2, 2)), ((1, 1, 2, 2), (1, 1, 1, 1)), ((1, 1, 2, 2), (2, 1, 2, 2)), ((1, 1, 2, 3), (1, 1, 3, 2), (1, 1, 2, 3)), ((1, 1, 2, 1), (1, 1, 0, 1), (1, 1, 2, 1)))])
    def binomi(s, n, k):
        s.c(n, k); s.ret = num(binom(n, k) if k <= n else 0)
    yield from one('binomi', binomi, [(n, k) for n in range(7) for k in range(8)])

def norm_t(t):
    t = t.replace('ADOLC::', '').replace('struct ', '')
    return {'fint': 'int', 'fdouble': 'double'}.get(t, t).replace(' ', '')

def find(prog, q, types=None):
    out = []
    for f in prog.all_functions():
        if f['q'] != q: continue
        ts = [f['tu'].decls[i]['t'] for i in f['ps']]
        if types is None or [norm_t(a) for a in ts] == [norm_t(b) for b in types]: out.append(f)
    if len(out) > 1 and types is None: out = [f for f in out if 'drivers/' in f['tu'].path or 'src/' in f['tu'].path][:1]
    return out[0] if out else None

def show(t): 
    s = T.show(t)
    return s if len(s) < 400 else s[:400] + '...'

def instance(prog, f, dims, mk, codes=(), bits=(), singular=False):
    D = Drive(prog, f['tu'], codes)
    st = State()
    s = S(D, st)
    s.norc = False; s.keep = None; s.same = []; s.ret = None; s.static = False
    s.calls, s.fracs = [], []
    mk(s, *dims)
    D.prefix = ''
    D.bits = bits
    D.singular = singular
    for a in s.calls or [s.args]:
        status, v = D.run(st, f, a)
        if status != 'ok': break
    return D, st, s, status, v

def frac(t, memo):
    """numerator and denominator of a rational term"""
    t = toP(t)
    if t in memo: return memo[t]
    nn, dd = ZERO, ONE
    for m, c in t[1]:
        a, b = num(c), ONE
        for x, e in m:
            if x[0] == 'inv': p, q = frac(x[1], memo); p, q = q, p
            else: p, q = atom(x), ONE
            for _ in range(abs(e)): a, b = (mul(a, p), mul(b, q)) if e > 0 else (mul(a, q), mul(b, p))
        if b == dd: nn = add(nn, a)
        else: nn, dd = add(mul(nn, b), mul(a, dd)), mul(dd, b)
    memo[t] = nn, dd
    return nn, dd

def c12():
    R = Report('C12', 'value numbering of the drivers against contracts of the sweeps (formal functions, symbolic data, representative dimensions); '
               'return codes by constant propagation; bounds and release of blocks')
    R.rule('result', 'every documented result element equals the derivative (or Taylor/adjoint coefficient, tensor entry) of the formal function it stands for')
    R.rule('code', 'the returned code is the minimum over the codes of the sweeps executed, for every sweep and code 2, 0, -1; a singular Jacobian gives -3')
    R.rule('memory', 'no access outside documented extents or to released or undefined memory; every block is released exactly once on every return, also after a failed sweep')
    R.rule('restored', 'arguments the driver permutes in place are as before on return')
    C = Ctx(rec=False, extra=FILES)
    missing = set()
    todo = [x + ((),) for x in specs()]
    while todo:
        q, types, dims, mk, kw, bits = todo.pop(0)
        f = find(C.prog, q, types)
        name = q + ('(%s)' % ', '.join(types) if types else '')
        site = name + ' ' + str(dims) + (' ' + ''.join(map(str, bits)) if bits else '')
        if f is None:
            missing.add(name); R.skip(name, 'not found'); continue
        R.count('instances')
        loc = f['tu'].loc(f['l'])
        def fail(rule, what, text): R.check(False, '%s/%s/%s' % (name, rule, what), '%s with %s at %s: %s' % (name, dims, loc, text))
        if kw.get('bits') and not bits:
            # every order of pivots
            try:
                D = instance(C.prog, f, dims, mk)[0]
                todo += [(q, types, dims, mk, kw, b) for b in itertools.product((0, 1), repeat=min(D.nbit, 8)) if any(b)]
            except (Unsupported, Broken): pass
        try:
            D, st, s, status, v = instance(C.prog, f, dims, mk, bits=bits)
        except Unsupported as ex:
            R.skip(site, ex); continue
        except Broken as ex:
            fail('memory', 'run', str(ex)); continue
        if status != 'ok':
            fail('result', 'refused', 'ends in an error: %s' % (D.exits[-1:],)); continue
        n = len(D.used)
        if s.ret is not None:
            R.check(v == s.ret, '%s/result/return' % name, lambda: '%s with %s at %s returns %s instead of %s' % (name, dims, loc, show(v), show(s.ret)))
            n = 0
        bad = None
        def results(D, st, s):
            for lab, p, ix, want in s.out:
                w = want() if callable(want) else want
                try: got = toP(D.get(st, p, *ix))
                except Broken as ex: return lab, str(ex)
                if sub(got, toP(w)) != ZERO: return lab, 'is %s instead of %s' % (show(got), show(toP(w)))
            return None
        bad = results(D, st, s)
        R.check(bad is None, '%s/result' % name, lambda: '%s with %s at %s: %s %s' % ((name, dims, loc) + bad), sample='%s %s: %d results' % (name, dims, len(s.out)))
        for lab, eqs in s.fracs:
            memo = {}
            w = None
            try:
                for k, (a, b) in enumerate(eqs() if callable(eqs) else eqs):
                    if frac(sub(toP(a), toP(b)), memo)[0] != ZERO: w = 'equation %d of %s' % (k + 1, lab); break
            except Broken as ex: w = '%s: %s' % (lab, ex)
            R.check(w is None, '%s/result' % name, lambda: '%s with %s at %s: %s does not hold' % (name, dims, loc, w), sample='%s %s: %s' % (name, dims, lab))
        for nm, X in s.same:
            p = [q for m_, q, d_ in s.inp if m_ == nm][0]; dd = [d_ for m_, q, d_ in s.inp if m_ == nm][0]
            R.check(s.read(p, dd) == X, '%s/restored/%s' % (name, nm), lambda: '%s with %s at %s: argument %s is not restored' % (name, dims, loc, nm))
        if s.keep:
            k, d = s.keep
            t = D.tapes.get(TAG)
            R.check((t is None) == (k == 0) and (t is None or t['deg'] == k - 1), '%s/result/keep' % name,
                    lambda: '%s with %s at %s: the Taylor stack holds %s, keep is %s' % (name, dims, loc, 'nothing' if t is None else 'degree %d' % t['deg'], k))
        if True:
            lk = [r for r in D.leaks() if not held(D, st, r)]
            R.check(not lk, '%s/memory/leak' % name, lambda: '%s with %s at %s: %d allocated blocks are not released' % (name, dims, loc, len(lk)))
        if s.norc or not n or s.calls: continue
        R.check(toP(v) == num(3), '%s/code' % name, lambda: '%s with %s at %s returns %s when every sweep returns 3' % (name, dims, loc, show(toP(v))))
        for k in range(n):
            for c in (2, 0, -1):
                try:
                    D, st, s, status, v = instance(C.prog, f, dims, mk, [3] * k + [c])
                except Unsupported as ex:
                    R.skip(site + ' code', ex); continue
                except Broken as ex:
                    if c < 0 and 'released' not in str(ex): R.skip(site + ' code', ex); continue
                    fail('memory', 'run after code', str(ex)); continue
                if status != 'ok': continue
                want = min(x for _, x in D.used)
                which = '%s (call %d) returning %d' % (D.used[k][0] if k < len(D.used) else '?', k + 1, c)
                R.check(toP(v) == num(want), '%s/code' % name, lambda: '%s with %s at %s: with %s the driver returns %s instead of %d' % (name, dims, loc, which, show(toP(v)), want))
                if True:
                    lk = [r for r in D.leaks() if not held(D, st, r)]
                    R.check(not lk, '%s/memory/leak' % name, lambda: '%s with %s at %s: with %s %d allocated blocks are not released' % (name, dims, loc, which, len(lk)))
    # a singular Jacobian is reported, every time
    for q, types, dims, mk, kw in specs():
        if q not in ('jac_solv', 'inverse_Taylor_prop', 'inverse_tensor_eval'): continue
        f = find(C.prog, q, types)
        if f is None: continue
        seq = dims[0]
        if q == 'jac_solv' and (seq[-1][1] == 0 or dims[1] > 1) or q == 'inverse_tensor_eval' and seq[-1][2] == 0: continue
        loc = f['tu'].loc(f['l'])
        try:
            D, st, s, status, v = instance(C.prog, f, dims, mk, singular=True)
        except Unsupported as ex:
            R.skip('%s %s singular' % (q, dims), ex); continue
        except Broken as ex:
            R.check(False, '%s/memory/singular' % q, '%s with %s at %s and a singular Jacobian: %s' % (q, dims, loc, ex)); continue
        R.check(status == 'ok' and toP(v) == num(-3), '%s/code/singular' % q, lambda: '%s with %s at %s returns %s for a singular Jacobian instead of -3' % (q, dims, loc, show(toP(v)) if status == 'ok' else status))
        lk = [r for r in D.leaks() if not held(D, st, r)]
        R.check(not lk, '%s/memory/singular' % q, lambda: '%s with %s at %s: %d blocks are not released when the Jacobian is singular' % (q, dims, loc, len(lk)))
    R.count('functions', len({(q, t) for q, t, *_ in specs()}))
    R.floor(800)
    return R.finish()

def held(D, st, r):
    """still reachable from a static variable or the tape object"""
    def root(x):
        while isinstance(x, tuple) and x and x[0] in ('fld', 'arr', 'vec'): x = x[1]
        return x
    out = {}
    todo = []
    for (reg, off), v in st.mem.items():
        if isP(v) or v[0] != 'ptr': continue
        q = root(reg)
        if isinstance(q, tuple) and q and (q[0] == 'glob' or q[:2] == ('obj', 'tape')): todo.append(v[1])
        else: out.setdefault(q, []).append(v[1])
    seen = set()
    while todo:
        x = root(todo.pop())
        if x is None or x in seen: continue
        seen.add(x)
        todo += out.get(x, ())
        if D.rows.get(x) is not None: todo.append(D.rows[x])
    return r in seen

CHECKS = {'C12': c12}
