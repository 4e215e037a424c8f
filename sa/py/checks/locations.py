"""C17: locations of live variables.

The managers of the store (StoreManagerLocintBlock, StoreManagerLocint), the
functions of ValueTape above them and the special members of tape_location are
interpreted over every history of requests up to a bound; histories that lead to
the same manager state are joined.  Sizes, list links and positions are decided
by constant propagation, the values of the variables are symbols.
"""
import os, itertools
from concurrent.futures import ProcessPoolExecutor
import terms as T
from terms import ZERO, ONE, num, atom, toP, const_of, isP, TRUE, FALSE
from absint import State, Flow, Unsupported, Dead, cell, NULL
from ctx import Ctx
from report import Report
from load import AnalysisBroken
from drive import Broken
from store import Store, TAPE

THOROUGH = os.environ.get('VERIF_TIER') == 'thorough'
CTX = None
LIST = ('std::forward_list', 'std::list', 'std::__cxx11::list')
LIT = ('std::_Fwd_list', 'std::_List')

class Wrong(Exception): pass

class Loc(Store):
    """the store with the managers of its locations"""
    def __init__(self, prog, tu):
        super().__init__(prog, tu)
        self.lists, self.dyn, self.nnode = {}, {}, 0
        P = self.prims
        for nm in ('std::next', 'std::prev', 'std::advance', 'std::make_unique', 'std::distance'): P[nm] = getattr(self, 'l_' + nm.split('::')[1])
        for nm in ('findTape', 'currentTape'): P[nm] = lambda I, st, e, xs: ('lv', cell(TAPE))
        P['currentTapePtr'] = lambda I, st, e, xs: ('ptr', TAPE, ZERO)
        P['std::numeric_limits<double>::quiet_NaN'] = lambda I, st, e, xs: atom(('nan',))
        P['std::numeric_limits<unsigned long>::max'] = lambda I, st, e, xs: num((1 << 64) - 1)
        self.refs = {}
    # ------------------------------------------------------------ references, objects, dispatch
    def ref_member(self, cls, name):
        k = (cls, name)
        if k not in self.refs:
            c = self.prog.classes.get(cls)
            self.refs[k] = bool(c) and any(n == name and t.endswith('&') for n, t, _ in c[0]['fields'])
        return self.refs[k]
    def field(self, st, b, name, t=None):
        r = super().field(st, b, name, t)
        if r[0] == 'cell':
            v = st.mem.get((r[1], r[2]))
            if isinstance(v, tuple) and v and v[0] == 'lv': return v[1]
        return r
    def e_bin(self, e, st):
        if e[2] == '/':
            a, b = toP(self.ev_val(e[3], st)), toP(self.ev_val(e[4], st))
            if const_of(b) == 0:
                if len(e) > 5 and e[5] not in ('double', 'float', 'long double'): raise Broken('integer division by zero at ' + self.where(e[1]))
                if const_of(a) is not None: return num(1 << 1024 if const_of(a) else 0)
            if const_of(a) is not None and const_of(b) and (len(e) <= 5 or e[5] in ('double', 'float', 'long double')): return num(const_of(a) / const_of(b))
        return super().e_bin(e, st)
    def l_make_unique(self, I, st, e, xs):
        cls = e[4][e[4].index('<') + 1:e[4].rindex('>')].strip()
        return self.make(st, cls, xs, e)
    def make(self, st, cls, xs, e):
        b = cls.split('::')[-1]
        fs = [f for f in self.prog.all_functions() if f['q'] == cls + '::' + b and f.get('ctor') and len(f['ps']) == len(xs) and f.get('body')]
        if not fs: raise Unsupported('construction of %s at %s' % (cls, self.where(e[1])))
        p = self.alloc(st, 1, 'z')
        self.size.pop(p[1], None)
        self.dyn[p[1]] = cls
        self.arrays_ = getattr(self, 'arrays_', {})
        self.call_body(fs[0], st, self.bind_args(fs[0], xs, st), this=p)
        return p
    def e_new(self, e, st):
        t = e[2].replace('const ', '')
        if not e[3] and t in self.prog.classes and e[5] is not None and e[5][0] == 'ctor':
            return self.make(st, t, e[5][5:], e)
        return super().e_new(e, st)
    def destroy(self, st, p, e):
        a = p if not isP(p) else T.unP(p)
        cls = self.dyn.get(a[1])
        if cls is None: return self.release(st, p, e)
        if self.state.get(a[1]) == 'freed': raise Broken('object destroyed twice at ' + self.where(e[1]))
        f = next((f for f in self.prog.all_functions() if f['q'] == cls + '::~' + cls.split('::')[-1]), None)
        if f is not None and f.get('body'): self.call_body(f, st, [], this=a)
        self.state[a[1]] = 'freed'
        return ZERO
    def e_delete(self, e, st):
        v = self.ev_val(e[3], st)
        if not isP(v) and v[0] == 'ptr' and v[1] in self.dyn: return self.destroy(st, v, e)
        if not e[2] and not self.null(v): raise Broken('block of new [] released by delete at ' + self.where(e[1]))
        return self.release(st, v, e)
    def close(self, v, e):
        a = v if not isP(v) else T.unP(v)
        if a[0] == 'ptr' and a[1] in self.dyn: return self.destroy(self._st, a, e)
        return super().close(v, e)
    def e_mcall(self, e, st, want_lv=False):
        self._st = st
        obj = e[7]
        if e[6]:                                            # virtual
            q, base = e[2], e[2].split('::')[-1]
            th = self.ev_val(obj, st) if e[5] else self.addr(self.lval(obj, st))
            if isinstance(th, tuple) and th and th[0] == 'lv': th = self.load(st, th[1]) if e[5] else self.addr(th[1])
            if isP(th) and not self.null(th): th = T.unP(th)
            if self.null(th): raise Broken('call on a null pointer at ' + self.where(e[1]))
            cls = self.dyn.get(th[1]) if th[0] == 'ptr' else None
            if cls is not None:
                if self.state.get(th[1]) == 'freed': raise Broken('call on a destroyed object at ' + self.where(e[1]))
                f = self.method(cls, base, len(e) - 8)
                if f is None: raise Unsupported('virtual %s of %s' % (base, cls))
                return self.retval(self.call_body(f, st, self.bind_args(f, e[8:], st), this=th), want_lv)
        if e[2].startswith(LIT):
            r = self.liter(e, st, e[2].split('::')[-1], obj, e[8:])
            if r is not None: return r
        return super(Store, self).e_mcall(e, st, want_lv)
    def method(self, cls, base, n):
        while cls:
            for f in self.prog.all_functions():
                if f['q'] == cls + '::' + base and len(f['ps']) == n and f.get('body'): return f
            c = self.prog.classes.get(cls)
            cls = c[0]['bases'][0] if c and c[0]['bases'] else None
        return None
    # ------------------------------------------------------------ lists
    def key(self, lv): return (lv[1], lv[2])
    def node(self, st, args):
        self.nnode += 1
        r = ('node', self.nnode)
        self.state[r] = 'live'; self.kind[r] = 'm'
        lv = cell(r)
        if len(args) == 1 and isinstance(args[0], tuple) and args[0] and args[0][0] in ('lv', 'objv'):
            src = args[0][1]
            self.touchnode(src)
            self.copy_obj(st, src, lv)
            return r
        cls = self.elem
        fs = [f for f in self.prog.all_functions() if f['q'] == cls + '::' + cls.split('::')[-1] and f.get('ctor') and len(f['ps']) == len(args) and f.get('body')]
        if not fs:
            for (nm, t, _), v in zip(self.prog.classes[cls][0]['fields'], args): st.mem[(('fld', r, ZERO, nm), ZERO)] = v
            return r
        self.call_body(fs[0], st, [('val', v) for v in args], this=('ptr', r, ZERO))
        return r
    def touchnode(self, lv):
        if self.state.get(lv[1]) == 'freed': raise Broken('uses an erased list element')
    def it_index(self, v):
        """(list key, index) of an iterator; -1 before the first, n at the end"""
        a = v if not isP(v) else T.unP(v)
        if a[0] != 'ptr': raise Unsupported('iterator ' + T.show(v))
        r = a[1]
        if r[0] == 'before': return r[1], -1
        if r[0] == 'end': return r[1], len(self.lists[r[1]])
        if self.state.get(r) == 'freed': raise Broken('uses an iterator of an erased list element')
        for k, l in self.lists.items():
            if r in l: return k, l.index(r)
        raise Unsupported('iterator of no list')
    def it_at(self, k, i):
        l = self.lists[k]
        if i > len(l): raise Broken('iterator moved past the end of a list')
        if i < -1: raise Broken('iterator moved before the beginning of a list')
        return ('ptr', ('before', k) if i == -1 else ('end', k) if i == len(l) else l[i], ZERO)
    def itval(self, x, st):
        v = self.ev_val(x, st)
        if isinstance(v, tuple) and v and v[0] in ('lv', 'objv'): v = self.load(st, v[1])
        return v
    def l_next(self, I, st, e, xs, d=1):
        k, i = self.it_index(self.itval(xs[0], st))
        return self.it_at(k, i + d * (self.cint(xs[1], st) if len(xs) > 1 else 1))
    def l_prev(self, I, st, e, xs): return self.l_next(I, st, e, xs, -1)
    def l_advance(self, I, st, e, xs):
        lv = self.lval(xs[0], st)
        k, i = self.it_index(self.load(st, lv))
        self.store(st, lv, self.it_at(k, i + self.cint(xs[1], st)))
        return ZERO
    def l_distance(self, I, st, e, xs):
        a, b = (self.it_index(self.itval(x, st)) for x in xs)
        return num(b[1] - a[1])
    def liter(self, e, st, op, obj, xs):
        lv = self.deref(self.ev_val(obj, st)) if e[5] else self.lval(obj, st)
        if op in ('operator++', 'operator--'):
            old = self.load(st, lv)
            k, i = self.it_index(old)
            self.store(st, lv, self.it_at(k, i + (1 if op == 'operator++' else -1)))
            return old if xs else ('lv', lv)
        v = self.load(st, lv)
        if op in ('operator*', 'operator->'):
            k, i = self.it_index(v)
            if not 0 <= i < len(self.lists[k]): raise Broken('dereferences the %s of a list' % ('end' if i >= 0 else 'position before the beginning'))
            return ('lv', cell(v[1])) if op == 'operator*' else v
        if op == 'operator=':
            self.store(st, lv, self.itval(xs[0], st)); return ('lv', lv)
        if op in ('operator==', 'operator!='):
            w = self.itval(xs[0], st)
            return ONE if (self.it_index(v) == self.it_index(w)) == (op == 'operator==') else ZERO
        if op == '_M_const_cast': return v
        return None
    def e_call(self, e, st, want_lv=False):
        if e[2] in ('std::operator==', 'std::operator!=') and any(x in e[3] for x in ('_Fwd_list', '_List_')):
            a, b = (self.it_index(self.itval(x, st)) for x in e[5:7])
            return ONE if (a == b) == (e[2] == 'std::operator==') else ZERO
        return super().e_call(e, st, want_lv)
    def e_ctor(self, e, st, want_lv=False):
        t = e[2].replace('const ', '')
        if t.startswith(LIT) and len(e) == 6: return self.itval(e[5], st)
        return super().e_ctor(e, st, want_lv)
    def construct(self, e, st, lv):
        t = e[2].replace('const ', '')
        if t.startswith(LIT): return False
        if t.startswith(LIST):
            xs = [x for x in e[5:] if not (x[0] == 'ctor' and 'allocator' in x[2])]
            n = self.cint(xs[0], st) if xs else 0
            if t[t.index('<') + 1:].split(',')[0].rstrip('> ') in self.prog.classes: self.elem = t[t.index('<') + 1:].split(',')[0].rstrip('> ')
            self.lists[self.key(lv)] = []
            self.lists[self.key(lv)] = [self.node(st, []) for _ in range(n)]
            return True
        return super().construct(e, st, lv)
    def s_decl(self, s, st):
        for id, init, static in s[2:]:
            d = self.decl(id)
            if init is not None and not static and d['t'].replace('const ', '').startswith(LIT) and not d['t'].endswith('&'):
                v = self.itval(init, st)
                lv = cell(('var', d['n'], self.newseq())); st.news.add(lv[1])
                st.env[self.dkey(id)] = lv
                st.mem[(lv[1], lv[2])] = v
                continue
            super().s_decl([s[0], s[1], [id, init, static]], st)
        return Flow(st)
    def s_rfor(self, s, st):
        if s[3][0] in ('mem', 'ref'):
            lv = self.lval(s[3], st)
            l = self.lists.get(self.key(lv)) if lv[0] == 'cell' else None
            if l is not None:
                exs = []
                for r in list(l):
                    if self.state.get(r) == 'freed': raise Broken('range over a list that loses its elements')
                    st.env[self.dkey(s[2][0])] = cell(r)
                    f = self.exec(s[4], st)
                    nn = f.n
                    for kind, g, x, w in f.ex:
                        if kind == 'continue': nn = x
                        elif kind == 'break': return Flow(x, exs)
                        else: exs.append((kind, g, x, w))
                    if nn is None: return Flow(None, exs)
                    st = nn
                return Flow(st, exs)
        return super().s_rfor(s, st)
    def drop(self, k, i, what):
        l = self.lists[k]
        if not 0 <= i < len(l): raise Broken('%s where the list has no element' % what)
        self.state[l[i]] = 'freed'
        self.lists[k] = l[:i] + l[i + 1:]
    def insert(self, st, k, i, args):
        r = self.node(st, args)
        l = self.lists[k]
        self.lists[k] = l[:i] + [r] + l[i:]
        return r
    def args(self, xs, st):
        out = []
        for x in xs:
            v = self.ev_val(x, st, want_lv=True) if x[0] in ('call', 'mcall', 'ctor') else None
            if v is None:
                t = self.tyof(x)
                lv = self.lval(x, st) if x[0] in ('ref', 'mem', 'un') else None
                if lv is not None and lv[0] == 'cell' and (lv[1], lv[2]) not in st.mem and lv[1][0] in ('node', 'tmp', 'var'): v = ('lv', lv)
                else: v = self.ev_val(x, st)
            if isinstance(v, tuple) and v and v[0] == 'lv' and (v[1][1], v[1][2]) in st.mem: v = self.load(st, v[1])
            out.append(v)
        return out
    def order(self, st, r, s, xs):
        if xs:
            v = self.apply(self.ev_val(xs[0], st), st, [cell(r), cell(s)])
        else:
            f = next((f for f in self.prog.all_functions() if f['q'] == self.elem + '::operator<'), None)
            if f is None: raise Unsupported('order of list elements')
            v = self.call_body(f, st, [('ref', cell(s))], this=('ptr', r, ZERO))
        c = const_of(toP(v))
        if c is None: raise Unsupported('undecided order of list elements')
        return bool(c)
    def std_method(self, e, st, q, base, rt, lv, xs):
        k = self.key(lv) if lv[0] == 'cell' else None
        if q.startswith(LIST):
            if k not in self.lists: raise Unsupported('a list of unknown contents at ' + self.where(e[1]))
            l = self.lists[k]
            w = self.where(e[1])
            if base == 'empty': return ZERO if l else ONE
            if base == 'size': return num(len(l))
            if base in ('begin', 'cbegin'): return self.it_at(k, 0)
            if base in ('end', 'cend'): return self.it_at(k, len(l))
            if base in ('before_begin', 'cbefore_begin'): return self.it_at(k, -1)
            if base in ('front', 'back'):
                if not l: raise Broken('%s() of an empty list at %s' % (base, w))
                return ('lv', cell(l[0 if base == 'front' else -1]))
            if base == 'clear':
                for r in l: self.state[r] = 'freed'
                self.lists[k] = []
                return ZERO
            if base in ('pop_front', 'pop_back'):
                self.drop(k, 0 if base == 'pop_front' else len(l) - 1, base + ' at ' + w)
                return ZERO
            if base in ('emplace_front', 'push_front'):
                r = self.insert(st, k, 0, self.args(xs, st))
                return ('lv', cell(r))
            if base in ('emplace_back', 'push_back'):
                r = self.insert(st, k, len(l), self.args(xs, st))
                return ('lv', cell(r))
            if base in ('erase_after', 'erase') and len(xs) == 1:
                k2, i = self.it_index(self.itval(xs[0], st))
                if base == 'erase_after': i += 1
                self.drop(k, i, base + ' at ' + w)
                return self.it_at(k, i)
            if base in ('insert_after', 'emplace_after', 'insert', 'emplace') and len(xs) > 1:
                k2, i = self.it_index(self.itval(xs[0], st))
                if base.endswith('after'): i += 1
                self.insert(st, k, i, self.args(xs[1:], st))
                return self.it_at(k, i)
            if base == 'sort':
                out = []
                for r in l:
                    i = len(out)
                    while i and self.order(st, r, out[i - 1], xs): i -= 1
                    out.insert(i, r)
                self.lists[k] = out
                return ZERO
            if base == 'reverse':
                self.lists[k] = l[::-1]
                return ZERO
            if base in ('remove_if',):
                f = self.ev_val(xs[0], st)
                for r in l:
                    c = const_of(toP(self.apply(f, st, [cell(r)])))
                    if c is None: raise Unsupported('remove_if')
                    if c: self.drop(k, self.lists[k].index(r), base)
                return ZERO
            raise Unsupported('%s at %s' % (q, w))
        return super().std_method(e, st, q, base, rt, lv, xs)
    def touch(self, lv, write):
        r = lv[1]
        while isinstance(r, tuple) and r and r[0] == 'fld': r = r[1]
        if isinstance(r, tuple) and r and r[0] in ('end', 'before'): raise Broken('dereferences the end of a list')
        return super().touch(lv, write)

class Mgr:
    """a tape whose locations are requested and returned"""
    def __init__(self, ctx):
        self.D = D = Loc(ctx.prog, ctx.prog.tus['ADOL-C/src/valuetape/valuetape.cpp'])
        self.st = State()
        g = D.fld('globalTapeVars_')
        f = next((f for f in ctx.prog.all_functions() if f['q'] == 'GlobalTapeVarsCL::GlobalTapeVarsCL' and not f['ps']), None)
        if f is None: raise AnalysisBroken('constructor of GlobalTapeVarsCL not found')
        D.exits = []
        D.call_body(f, self.st, [], this=('ptr', g[1], g[2]))
        self.live, self.vals, self.n = [], {}, 0
        self.plive = []
        self.steps = []
    def call(self, name, *args): return self.D.tape(self.st, name, *args)
    def int(self, v, what):
        c = const_of(toP(v))
        if c is None or c.denominator != 1: raise Unsupported('%s is %s' % (what, T.show(v)[:60]))
        return int(c)
    # -------------------------------------------------------------- snapshots
    def snap(self):
        D = self.D
        return (self.st.copy(), dict(D.lists), dict(D.state), dict(D.size), dict(D.kind), dict(D.elt), dict(D.dyn), list(self.live), dict(self.vals), list(self.plive), list(self.steps))
    def back(self, s):
        D = self.D
        self.st = s[0].copy()
        D.lists, D.state, D.size, D.kind, D.elt, D.dyn = (dict(x) for x in s[1:7])
        self.live, self.vals, self.plive, self.steps = list(s[7]), dict(s[8]), list(s[9]), list(s[10])
    def key(self):
        """the state of the manager up to the names of blocks and values"""
        D = self.D
        seen, out = {}, []
        def canon(v):
            if isP(v):
                c = const_of(v)
                if c is not None: return c
                v = T.unP(v)
            if isinstance(v, tuple) and v and v[0] == 'ptr':
                return ('p', seen.setdefault(v[1], len(seen)), const_of(v[2]))
            return 'v'
        mem = {}
        for (r, o), v in self.st.mem.items():
            root = r
            while isinstance(root, tuple) and root and root[0] in ('fld', 'vec'): root = root[1]
            if isinstance(root, tuple) and root and root[0] == 'blk' and root in D.dyn and D.state.get(root) == 'live' and isP(v) and const_of(v) is not None:
                mem[(repr(r), repr(o))] = const_of(v)
        ix = []
        for r, s in D.state.items():
            if s == 'live' and r[0] == 'blk' and r not in D.dyn:
                vs = []
                for i in range(D.size.get(r) or 0):
                    v = self.st.mem.get((r, num(i)))
                    c = const_of(v) if v is not None and isP(v) else None
                    vs.append(None if c is None else int(c))
                ix.append(tuple(vs))
        ls = []
        for k, l in sorted(D.lists.items(), key=repr):
            if D.state.get(k[0][1] if k[0][0] == 'fld' else k[0]) == 'freed': continue
            ls.append(tuple(tuple((n, const_of(toP(self.st.mem.get((('fld', r, ZERO, n), ZERO), ZERO)))) for n, t, _ in D.prog.classes[D.elem][0]['fields']) for r in l))
        g = [const_of(toP(self.st.mem.get((('fld', ('fld', TAPE, ZERO, 'globalTapeVars_'), ZERO, n), ZERO), ZERO))) for n in ('storeSize', 'numLives', 'numparam', 'maxparam')]
        return (tuple(ls), tuple(sorted(ix, key=repr)), tuple(g), tuple(sorted(mem.items())), frozenset(self.live), len(self.plive))
    # -------------------------------------------------------------- requests
    def check(self, what):
        D, st = self.D, self.st
        if len(set(self.live)) != len(self.live): raise Wrong('after %s two live variables share a location (live: %s)' % (what, self.live))
        n = self.int(self.call('numLives'), 'numLives()')
        if n != len(self.live): raise Wrong('after %s numLives() is %d with %d live variables' % (what, n, len(self.live)))
        s = self.int(self.call('storeSize'), 'storeSize()')
        for l in self.live:
            if l >= s: raise Wrong('after %s the live location %d lies beyond the store of %d' % (what, l, s))
            if l in self.vals:
                v = self.call('get_ad_value', l)
                if v != self.vals[l]: raise Wrong('after %s the variable at location %d no longer has its value' % (what, l))
        for p in self.plive:
            v = self.call('get_pd_value', p)
            if v != self.vals.get(('p', p)): raise Wrong('after %s the parameter %d no longer has its value' % (what, p))
    def next(self, quiet=False):
        l = self.int(self.call('next_loc'), 'the new location')
        if l in self.live: raise Wrong('next_loc gives out location %d, which is live (live: %s)' % (l, sorted(self.live)))
        self.live.append(l)
        self.n += 1
        self.vals[l] = atom(('value', self.n))
        self.call('set_ad_value', l, self.vals[l])
        self.steps.append('next_loc=%d' % l)
        if not quiet: self.check('next_loc')
        return l
    def free(self, l):
        self.steps.append('free_loc(%d)' % l)
        self.live.remove(l); self.vals.pop(l, None)
        self.call('free_loc', l)
        self.check('free_loc(%d)' % l)
    def ensure(self, n):
        self.steps.append('ensureContiguousLocations(%d)' % n)
        self.call('ensureContiguousLocations', n)
        self.check('ensureContiguousLocations(%d)' % n)
        ls = [self.next(True) for _ in range(n)]
        if ls != list(range(ls[0], ls[0] + n)) if ls else False:
            raise Wrong('after ensureContiguousLocations(%d) the next variables get the locations %s' % (n, ls))
        self.check('%d variables after ensureContiguousLocations' % n)
    def param(self):
        l = self.int(self.call('p_next_loc'), 'the new parameter')
        if l != len(self.plive): raise Wrong('parameter %d gets index %d' % (len(self.plive), l))
        self.plive.append(l)
        self.n += 1
        self.vals[('p', l)] = atom(('pvalue', self.n))
        self.call('set_pd_value', l, self.vals[('p', l)])
        self.steps.append('p_next_loc=%d' % l)
        self.check('p_next_loc')

BLOCKS, SINGLE = 0, 1
def explore(job):
    """all histories of one configuration up to the bound; (states, steps, problem)"""
    kind, ctl, maxlive, sizes, frees, limit = job
    M = Mgr(CTX)
    states = steps = 0
    M.param()
    if kind == SINGLE: M.call('setStoreManagerType', 1)
    if ctl: M.call('setStoreManagerControl', num(ctl[0]), num(ctl[1]))
    seen = {M.key()}
    todo = [M.snap()]
    while todo and states < limit:
        s = todo.pop(0)
        states += 1
        M.back(s)
        ops = []
        if len(M.live) < maxlive: ops.append(('next', ()))
        for l in sorted(M.live): ops.append(('free', (l,)))
        if kind == BLOCKS:
            for n in sizes:
                if len(M.live) + n <= maxlive + 4: ops.append(('ensure', (n,)))
        if len(M.plive) < 2: ops.append(('param', ()))
        for nm, a in ops:
            M.back(s)
            steps += 1
            try:
                getattr(M, nm)(*a)
            except Wrong as ex:
                return states, steps, ('bad', '%s; history: %s' % (ex, ', '.join(M.steps)))
            except Broken as ex:
                p = ' via ' + ' <- '.join(getattr(ex, 'path', [])[:4]) if getattr(ex, 'path', None) else ''
                return states, steps, ('bad', '%s%s; history: %s' % (ex, p, ', '.join(M.steps + [nm])))
            except Unsupported as ex:
                return states, steps, ('skip', str(ex))
            if len(M.live) <= maxlive:
                k = M.key()
                if k not in seen:
                    seen.add(k); todo.append(M.snap())
    return states, steps, None

def guarded(h, *a):
    try: return h(*a)
    except Wrong as ex: return 1, 1, ('bad', str(ex))
    except Broken as ex: return 1, 1, ('bad', str(ex))
    except Unsupported as ex: return 1, 1, ('skip', str(ex))

def long_history(job):
    """growth over many reallocations, then everything is returned and requested again"""
    kind, seed = job
    M = Mgr(CTX)
    if kind == SINGLE: M.call('setStoreManagerType', 1)
    x = seed
    k = 0
    try:
        for i in range(60 if not THOROUGH else 200):
            x = (x * 1103515245 + 12345) % (1 << 31)
            k += 1
            r = (x >> 8) % 10
            if r < 5 or not M.live: M.next()
            elif r < 8: M.free(sorted(M.live)[(x >> 12) % len(M.live)])
            elif kind == BLOCKS: M.ensure(1 + (x >> 12) % 9)
            else: M.next()
        for l in list(M.live): M.free(l); k += 1
        if kind == BLOCKS:
            M.ensure(10); k += 1
        for i in range(12): M.next(); k += 1
    except Wrong as ex:
        return k, k, ('bad', '%s; history: %s' % (ex, ', '.join(M.steps[-40:])))
    except Broken as ex:
        p = ' via ' + ' <- '.join(getattr(ex, 'path', [])[:4]) if getattr(ex, 'path', None) else ''
        return k, k, ('bad', '%s%s; history: ... %s' % (ex, p, ', '.join(M.steps[-40:])))
    except Unsupported as ex:
        return k, k, ('skip', str(ex))
    return k, k, None

# ------------------------------------------------------------------ ownership
class Own(Mgr):
    """objects of a class that own a location: special members over objects"""
    def __init__(self, ctx, cls):
        super().__init__(ctx)
        self.cls, self.base = cls, cls.split('<')[0]
        self.objs, self.nobj = {}, 0
        self.given = []
        D = self.D
        D.prims['ValueTape::next_loc'] = D.prims['ValueTape::p_next_loc'] = self.p_next
        D.prims['ValueTape::free_loc'] = D.prims['ValueTape::p_free_loc'] = self.p_free
        D.prims['std::move'] = lambda I, st, e, xs: ('lv', D.lval(xs[0], st))
    def p_next(self, I, st, e, xs):
        self.given.append(len(self.given) + 1)
        self.live.append(self.given[-1])
        return num(self.given[-1])
    def p_free(self, I, st, e, xs):
        l = const_of(toP(self.D.ev_val(xs[1], st)))
        if l not in self.live: raise Wrong('returns location %s, which is %s' % (l, 'returned already' if l in self.given else 'not its own'))
        self.live.remove(l)
        return ZERO
    def fn(self, kind):
        for f in self.D.prog.all_functions():
            if f.get('cls') != self.cls and not f['q'].startswith(self.cls + '::'): continue
            n = f['q'].split('::')[-1]
            ts = [f['tu'].decls[p]['t'] for p in f['ps']]
            own = lambda t: t.replace('const ', '').split(' ')[0] in (self.cls, self.base)
            if kind == 'default' and f.get('ctor') and not ts: return f
            if kind == 'loc' and f.get('ctor') and len(ts) == 2: return f
            if kind == 'move' and f.get('ctor') and len(ts) == 1 and ts[0].endswith('&&') and own(ts[0]): return f
            if kind == 'assign' and n == 'operator=' and ts and ts[0].endswith('&&') and own(ts[0]): return f
            if kind == 'dtor' and n.startswith('~'): return f
            if kind == 'release' and n in ('release', 'release_loc'): return f
            if kind == 'location' and n == 'loc': return f
        return None
    def do(self, kind, obj, *args):
        f = self.fn(kind)
        D = self.D
        D.tu = f['tu']; D.exits = []
        o = ('obj', 'own', obj)
        if kind in ('default', 'loc', 'move') and f.get('ctor'):
            # members with an initialiser in the class
            c = D.prog.classes.get(self.base)
            have = {n for n, w, ie in f.get('inits', ())}
            for n, t, init in (c[0]['fields'] if c else ()):
                if n not in have and init is not None: self.st.mem[(('fld', o, ZERO, n), ZERO)] = D.ev_val(init, self.st)
        try:
            v = D.call_body(f, self.st, list(args), this=('ptr', o, ZERO))
        except Dead:
            raise Wrong('%s stops' % f['q'])
        if kind == 'dtor':
            c = D.prog.classes.get(self.base)
            for n, t, _ in (c[0]['fields'] if c else ()):        # then the members
                g = next((g for g in D.prog.all_functions() if g.get('dtor') and g['q'].startswith(t + '::~') and g.get('body')), None)
                if g is not None:
                    D.tu = g['tu']
                    D.call_body(g, self.st, [], this=('ptr', ('fld', o, ZERO, n), ZERO))
        if isinstance(v, tuple) and v and v[0] == 'lv' and kind in ('location', 'release'): v = D.load(self.st, v[1])
        return v
    def ref(self, i): return ('ref', cell(('obj', 'own', i)))

def ownership(cls):
    """sequences of special members on three objects: who owns which location"""
    n = 0
    try:
        base = Own(CTX, cls)
        if any(base.fn(k) is None for k in ('default', 'move', 'assign', 'dtor', 'location')): return 0, 0, ('skip', 'special members of %s not found' % cls)
        def step(M, own, op):
            """own: object -> location it owns, 'used' without one, absent: not alive"""
            k = op[0]
            if k == 'new':
                before = len(M.given)
                M.do('default', op[1])
                if len(M.given) != before + 1: raise Wrong('the default constructor of %s requests %d locations' % (cls, len(M.given) - before))
                own[op[1]] = M.given[-1]
            elif k == 'move':
                M.do('move', op[1], M.ref(op[2])); own[op[1]], own[op[2]] = own[op[2]], None
            elif k == 'assign':
                M.do('assign', op[1], M.ref(op[2]))
                if op[1] != op[2]: own[op[1]], own[op[2]] = own[op[2]], None
            elif k == 'release':
                v = M.do('release', op[1])
                if const_of(toP(v)) != own[op[1]]: raise Wrong('release() gives %s instead of the location %s' % (T.show(toP(v)), own[op[1]]))
                M.kept.add(own[op[1]]); own[op[1]] = None
            elif k == 'borrow':
                M.do('loc', op[1], ('val', num(op[2])), ('val', num(2)))
                own[op[1]] = ('b', op[2])
            else:
                M.do('dtor', op[1]); del own[op[1]]
            exp = sorted([l for l in own.values() if isinstance(l, int)] + [l for l in M.kept])
            if sorted(M.live) != exp: raise Wrong('locations %s are in use, %s are owned' % (sorted(M.live), exp))
            for o, l in own.items():
                w = l[1] if isinstance(l, tuple) else l
                if w is not None:
                    v = const_of(toP(M.do('location', o)))
                    if v != w: raise Wrong('object %d stands for location %s instead of %s' % (o, v, w))
        def walk(hist, own, depth):
            nonlocal n
            if depth == 0: return None
            ops = []
            for i in range(3):
                if i not in own:
                    ops.append(('new', i))
                    ops += [('move', i, j) for j in own if own[j] is not None]
                    if base.fn('loc') is not None and i == 2: ops.append(('borrow', i, 77))
                else:
                    ops += [('assign', i, j) for j in own if own[j] is not None or i == j and own[i] is not None]
                    if base.fn('release') is not None and isinstance(own[i], int): ops.append(('release', i))
                    ops.append(('dtor', i))
            for op in ops:
                M = Own(CTX, cls); M.kept = set()
                o2 = {}
                n += 1
                try:
                    for p in hist + [op]: step(M, o2, p)
                except (Wrong, Broken) as ex:
                    return '%s after %s' % (ex, ', '.join('%s(%s)' % (p[0], ', '.join(map(str, p[1:]))) for p in hist + [op]))
                bad = walk(hist + [op], o2, depth - 1)
                if bad: return bad
            return None
        bad = walk([], {}, 4 if not THOROUGH else 5)
        return n, n, ('bad', bad) if bad else None
    except Unsupported as ex:
        return n, n, ('skip', str(ex))

CONFIGS = [
    (BLOCKS, None, 5, (1, 2, 3), 1, 420), (BLOCKS, (0, 0), 5, (2, 4), 1, 420), (BLOCKS, (1000000, 1000000), 5, (1, 2, 3), 1, 420),
    (BLOCKS, None, 3, (0, 2, 5, 9), 1, 260), (BLOCKS, (2, 1000000), 6, (3,), 1, 420), (SINGLE, None, 6, (), 1, 420),
]

def job(j):
    if j[0] == 'states': return j, guarded(explore, j[1])
    if j[0] == 'long': return j, guarded(long_history, j[1])
    return j, guarded(ownership, j[1])

def label(j):
    if j[0] == 'states': return '%s manager, control %s, up to %d live, contiguous requests of %s' % ('block' if j[1][0] == BLOCKS else 'singleton', j[1][1] or 'default', j[1][2], j[1][3] or 'none')
    if j[0] == 'long': return '%s manager, history %d of growth and return' % ('block' if j[1][0] == BLOCKS else 'singleton', j[1][1])
    return 'ownership by %s' % j[1]

WHERE = {BLOCKS: 'StoreManagerLocintBlock', SINGLE: 'StoreManagerLocint'}
def check(pid='C17'):
    global CTX
    rep = Report(pid, 'interpretation of the location managers over all histories up to a bound')
    CTX = Ctx(extra=['storemanager.cpp'])
    rep.rule('states', 'from the empty manager, every sequence of next_loc, free_loc (of any live location), ensureContiguousLocations followed by '
             'that many variables, and new parameters, up to the bound on live variables (sequences that reach the same manager state are joined): live '
             'locations are distinct and lie in the store, numLives() counts them, the values of live variables and of parameters survive, the '
             'variables after ensureContiguousLocations(n) get n consecutive locations, parameters get consecutive indices, no list element, block '
             'or store is used outside its extent or after its release')
    rep.rule('long', 'the same along histories with many growths, the return of everything, and new requests')
    rep.rule('own', 'over sequences of construction, move, move assignment (also to itself), release, borrowing and destruction of three objects '
             'every location is owned by exactly one object and is returned exactly once')
    jobs = [('states', c) for c in CONFIGS] + [('long', (k, s)) for k in (BLOCKS, SINGLE) for s in range(1, 4 if not THOROUGH else 12)] \
        + [('own', 'tape_location<adouble>'), ('own', 'adouble')]
    if THOROUGH: jobs += [('states', (BLOCKS, c, n, s, 1, 3000)) for c in (None, (0, 0), (1000000, 1000000)) for n, s in ((6, (1, 2, 3, 4)), (7, (2,)))]
    tot = 0
    with ProcessPoolExecutor(8) as ex:
        for j, (states, steps, prob) in ex.map(job, jobs):
            rep.count('states', states); rep.count('requests', steps)
            tot += steps
            if prob and prob[0] == 'skip': rep.skip(label(j), prob[1])
            else:
                if prob is None: rep.obl += steps - 1; rep.ok += steps - 1
                rep.check(prob is None, label(j), None if prob is None else '%s: %s' % (label(j), prob[1]), label(j))
    rep.floor(1, 'requests')
    return rep.finish()
CHECKS = {'C17': check}
