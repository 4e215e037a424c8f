"""Abstract interpretation of one tape-interpreter sweep function.

The dispatch loop `while (op != marker) switch (op)` is located by structure
(the loop that contains the largest switch over the operation code), the
prologue is interpreted once, everything the loop may modify is havocked, and
every case section is then value-numbered on its own.  Reads of the three tape
streams become symbolic atoms ('L',k), ('V',k), ('TY',k) whose index k is a
symbolic position, so variable-length operations need no unrolling.
"""
import terms as T
from terms import (ZERO, ONE, num, atom, atom_of, isP, toP, add, sub, mul, neg, ite, const_of,
                   c_not, c_and, TRUE, FALSE, truth, boolval, unP)
from algos import Algos
from absint import Interp, State, Unsupported, Dead, cell, NULL, Flow
from load import AnalysisBroken

POS = {'L': ('stream', 'L'), 'V': ('stream', 'V'), 'TY': ('stream', 'TY'), 'TW': ('stream', 'TW')}

def walk(x):
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, list):
            yield y
            st.extend(reversed(y))

def find_dispatch(f):
    """(prologue statement list, loop statement, switch statement, epilogue)"""
    best = [0, None, None]
    def cases(sw):
        b = sw[3]
        return sum(1 for s in (b[2:] if b and b[0] == 'blk' else []) if s and s[0] == 'case')
    def rec(s, loop, path):
        if not isinstance(s, list) or not s: return
        if s[0] in ('while', 'for', 'do') and loop is None:
            for y in s[1:]:
                rec(y, s, path)
            return
        if s[0] == 'switch':
            n = cases(s)
            if n > best[0] and loop is not None:
                best[:] = [n, loop, s]
        if s[0] == 'blk' or s[0] in ('if', 'try', 'label'):
            for y in s[1:]:
                rec(y, loop, path)
        elif loop is not None:
            for y in s[1:]:
                rec(y, loop, path)
    rec(f['body'], None, [])
    if best[0] < 40:
        return None
    pro, epi = [], []
    def split(s):
        """statements before the loop"""
        if s is best[1]: return True
        if s[0] == 'blk':
            for i, y in enumerate(s[2:]):
                if contains(y, best[1]):
                    if split(y):
                        epi.extend(s[2 + i + 1:])
                        return True
                pro.append(y)
        return False
    if not split(f['body']):
        return None
    return pro, best[1], best[2], epi

def contains(s, t):
    if s is t: return True
    if isinstance(s, list):
        return any(contains(y, t) for y in s if isinstance(y, list))
    return False

def assigned_vars(x):
    """decl ids of plain variables assigned anywhere in x"""
    out = set()
    for y in walk(x):
        if not y: continue
        if y[0] == 'asg': t = y[3]
        elif y[0] == 'un' and y[2] in ('++', '--', 'p++', 'p--'): t = y[3]
        else: continue
        while t and t[0] == 'cast': t = t[4]
        if t and t[0] == 'ref': out.add(t[2])
    return out

class SweepInterp(Algos, Interp):
    """primitives of the tape reader"""
    def __init__(self, prog, tu, keep=None):
        super().__init__(prog, tu)
        self.install_algos()
        self.values = {}
        self.bind = {}
        P = self.prims
        V = 'ValueTape::'
        def pos(st, s):
            return toP(st.mem.get((POS[s], ZERO), ZERO))
        def adv(st, s, n):
            self.store(st, cell(POS[s]), add(pos(st, s), n))
        self.pos, self.adv = pos, adv
        def rd(stream):
            def h(I, st, e, xs):
                k = pos(st, stream)
                adv(st, stream, ONE)
                b = self.bind.get(stream)
                if b is not None:
                    c = const_of(k)
                    if c is not None and 0 <= c < len(b): return toP(b[int(c)])
                return atom((stream, k))
            return h
        P[V + 'get_locint_f'] = P[V + 'get_locint_r'] = rd('L')
        P[V + 'get_val_f'] = P[V + 'get_val_r'] = rd('V')
        P[V + 'get_taylor'] = rd('TY')
        def vvf(I, st, e, xs):
            n = toP(self.ev_val(xs[1], st)); k = pos(st, 'V'); adv(st, 'V', n)
            return ('ptr', ('VALS',), k)
        def vvr(I, st, e, xs):
            n = toP(self.ev_val(xs[1], st)); k = pos(st, 'V'); adv(st, 'V', n)
            return ('ptr', ('VALSR', sub(add(k, n), ONE)), ZERO)
        P[V + 'get_val_v_f'] = vvf
        P[V + 'get_val_v_r'] = vvr
        def opread(I, st, e, xs):
            self.ev(st, ('opread',))
            return atom(('nextop',))
        P[V + 'get_op_f'] = P[V + 'get_op_r'] = opread
        def blk(I, st, e, xs):
            self.ev(st, ('block', e[2].split('::')[-1])); return ZERO
        for s in ('op', 'loc', 'val'):
            for d in 'fr': P[V + 'get_%s_block_%s' % (s, d)] = blk
        P[V + 'discard_params_r'] = blk
        # Taylor stack, writing
        def wsc(I, st, e, xs):
            v = toP(self.ev_val(xs[1], st)); k = pos(st, 'TW'); adv(st, 'TW', ONE)
            st.mem[(('TS',), k)] = v; st.wlog.add((('TS',), k))
            return ZERO
        P[V + 'write_scaylor'] = wsc
        def wt(I, st, e, xs):
            vals = [self.ev_val(x, st) for x in xs[1:]]
            base = e[2].split('::')[-1]
            # write_taylor(tay, keep) / write_taylors(tay, keep, degree, numDir) / write_scaylors(tay, n)
            keep = toP(vals[1])
            stride, dirs = (toP(vals[2]), toP(vals[3])) if base == 'write_taylors' else (keep, ONE)
            n = mul(keep, dirs)
            k0 = pos(st, 'TW')
            kc, dc = const_of(keep), const_of(dirs)
            if kc is not None and dc is not None and 0 <= kc * dc <= 64:
                lv = self.deref(vals[0])
                k = k0
                for d in range(int(dc)):
                    for i in range(int(kc)):
                        v = toP(self.load(st, ('lv', lv[1], add(lv[2], add(mul(num(d), stride), num(i))))))
                        st.mem[(('TS',), k)] = v; st.wlog.add((('TS',), k))
                        k = add(k, ONE)
            adv(st, 'TW', n)
            self.ev(st, ('tayblk', self.where_of(vals[0], st), n))
            return ZERO
        for n in ('write_taylor', 'write_taylors', 'write_scaylors'): P[V + n] = wt
        def gt(I, st, e, xs):
            base = e[2].split('::')[-1]
            locv = self.ev_val(xs[1], st)
            n = toP(self.ev_val(xs[2], st))
            lv = self.deref(locv)
            tot = n
            if base == 'get_taylors_p':
                tot = add(mul(sub(n, ONE), toP(self.ev_val(xs[3], st))), ONE)     # one value shared by the directions
            k = pos(st, 'TY')
            adv(st, 'TY', tot)
            self.ev(st, ('taypop', locv, tot))
            b = self.bind.get('TY')
            kc, nc = const_of(k), const_of(n)
            dc = 1 if base == 'get_taylors' else const_of(self.ev_val(xs[3], st))
            if b is not None and None not in (kc, nc, dc) and 0 < nc <= 16 and 0 < dc <= 8:
                # the documented layout: coefficients come back last first; directions share one base value
                kc, nc, dc = int(kc), int(nc), int(dc)
                def pop(j):
                    return toP(b[j]) if 0 <= j < len(b) else atom(('TY', num(j)))
                def put(i, v): self.store(st, ('lv', lv[1], add(lv[2], num(i))), v)
                if base == 'get_taylors':
                    for i in range(nc): put(nc - 1 - i, pop(kc + i))
                else:
                    j = kc
                    for d in reversed(range(dc)):
                        for i in range(nc - 1, 0, -1):
                            put(d * nc + i, pop(j)); j += 1
                    for d in range(dc): put(d * nc, pop(j))
                    self.store(st, cell(POS['TY']), num(j + 1))
                return ZERO
            self.kill_region(st, lv[1], ('TYB', k, tot))
            return ZERO
        P[V + 'get_taylors'] = P[V + 'get_taylors_p'] = gt
        # sequencing / environment
        def nop(I, st, e, xs): return ZERO
        def evd(I, st, e, xs):
            self.ev(st, ('ctl', e[2])); return ZERO
        P[V + 'end_sweep'] = evd
        P[V + 'init_sweep'] = evd
        for n in ('taylor_begin', 'taylor_close', 'taylor_back', 'finish_tay_file'): P[V + n] = evd
        def noret(I, st, e, xs):
            self.exits.append(('fail', self.where(e[1]), st.assume, self.tu.loc(e[1]))); raise Dead()
        P['ADOLCError::fail'] = noret
        P['fprintf'] = P['printf'] = P['fflush'] = nop
        def const(a):
            def h(I, st, e, xs): return atom(a)
            return h
        P[V + 'make_nan'] = P['make_nan'] = const(('nan',))
        P[V + 'make_inf'] = P['make_inf'] = const(('inf',))
        def tapest(I, st, e, xs):
            if len(xs) < 2: return ('ptr', ('stats',), ZERO)
            v = toP(self.ev_val(xs[1], st)); return atom(('stat', v))
        P[V + 'tapestats'] = tapest
        def getter(name):
            def h(I, st, e, xs):
                if len(xs) >= 2:
                    v = self.ev_val(xs[1], st)
                    self.store(st, cell(('tapefld', name)), v); return ZERO
                return self.load(st, cell(('tapefld', name)))
            return h
        def sig(I, st, e, xs):
            if len(xs) >= 2: return ZERO
            return ('ptr', ('signature',), ZERO)
        P[V + 'signature'] = sig
        def pst(I, st, e, xs): return ('ptr', ('PARAMS',), ZERO)
        P[V + 'paramstore'] = pst
        for n in ('ext_diff_fct_index', 'tapeId', 'branchSwitchWarning', 'deg_save', 'tay_numDeps', 'tay_numInds', 'nestedReverseEval',
                  'in_nested_ctx', 'cp_index'):
            P[V + n] = getter(n)
        def alloc(I, st, e, xs):
            for x in xs: self.ev_val(x, st)
            return ('ptr', ('heap', self.newseq(), e[2]), ZERO)
        for n in ('myalloc1', 'myalloc2', 'myalloc3', 'myalloc1_ulong', 'myalloc2_ulong', 'myalloc1_uint', 'malloc', 'calloc', 'realloc'): P[n] = alloc
        for n in ('myfree1', 'myfree2', 'myfree3', 'myfree1_ulong', 'myfree2_ulong', 'free', 'memset'): P[n] = nop
        def ft(I, st, e, xs):
            return ('lv', cell(('tape',)))
        P['findTape'] = ft
        def memcpy(I, st, e, xs):
            d = self.ev_val(xs[0], st); s = self.ev_val(xs[1], st); n = self.ev_val(xs[2], st)
            self.ev(st, ('memcpy', d, s, toP(n)))
            self.kill_region(st, self.deref(d)[1], ('copyof', s, toP(n)))
            return d
        P['memcpy'] = P['std::memcpy'] = memcpy
        def getext(I, st, e, xs):
            v = self.ev_val(xs[0], st); return atom(('extfct', toP(v)))
        for n in ('get_ext_diff_fct', 'get_ext_diff_fct_v2'): P[n] = getext
        def fncall(I, st, e, xs):
            # std::function objects / nested evaluations
            vals = []
            for x in xs:
                try: vals.append(self.ev_val(x, st))
                except Unsupported: vals.append(atom(('?',)))
            return self.opaque_call(e, st, 'fn:' + e[2][:24], 'int', vals)
        self._fncall = fncall

    def where_of(self, v, st):
        return v

    def kill_region(self, st, region, tag):
        for k in list(st.mem):
            if k[0] == region: del st.mem[k]
        st.mem[(('epoch', region), ZERO)] = atom(('ep', tag))
        st.wlog.add((('epoch', region), ZERO))

    def init_hook(self, st, lv):
        r, o = lv[1], lv[2]
        if r == ('VALS',): return atom(('V', o))
        if r == ('PARAMS',): return atom(('pd', o))
        if isinstance(r, tuple) and r and r[0] == 'VALSR': return atom(('V', sub(r[1], o)))
        ep = st.mem.get((('epoch', r), ZERO))
        if ep is not None:
            return atom(('ld', ('e', r, ep), o))
        return None

    def e_mcall(self, e, st, want_lv=False):
        q = e[2]
        if 'function<' in q and q.endswith('operator()'):
            return self._fncall(self, st, e, [e[7]] + e[8:])
        return super().e_mcall(e, st, want_lv)

def set_helpers(prog, tu):
    """helpers of the index-domain interpreters: functions defined next to the
    interpreter that never touch the tape and work on whole sets"""
    out = getattr(prog, '_set_helpers', None)
    if out is not None: return out
    out = set()
    for f in prog.all_functions():
        if f.get('cls'): continue
        ts = [f['tu'].decls[i]['t'] for i in f['ps']]
        if not any('IndexElement' in t or t == 'unsigned int **' for t in ts): continue
        if any(y and y[0] in ('call', 'mcall') and y[2].startswith('ValueTape::') for y in walk(f['body'])): continue
        if find_dispatch(f) is not None: continue
        out.add(f['q'])
    prog._set_helpers = out
    return out

class Section:
    __slots__ = ('name', 'code', 'st', 'rets', 'err', 'line', 'I', 'total', 'aborts')

class Sweep:
    """all case sections of one sweep function"""
    def __init__(self, prog, tu, f, opnames, params=None):
        self.prog, self.tu, self.f = prog, tu, f
        self.opnames = opnames           # code -> name
        self.params = params or {}
        d = find_dispatch(f)
        if d is None:
            raise AnalysisBroken('no dispatch loop in %s' % f['q'])
        self.pro, self.loop, self.sw, self.epi = d
        self.reverse = any(y[0] == 'mcall' and y[2].endswith('get_op_r') for y in walk(self.loop) if y)
        self.sections = {}
        self.labels = {}
        self.undecided = {}
        self._prologue()

    def _prologue(self):
        f = self.f
        I = SweepInterp(self.prog, self.tu)
        hs = set_helpers(self.prog, self.tu)
        if hs: I.opaque = lambda q: q in hs
        self.I = I
        st = State()
        for pid in f['ps']:
            d = self.tu.decls[pid]
            k = I.dkey(pid)
            lv = cell(('param', d['n']))
            st.env[k] = lv
            v = self.params.get(d['n'])
            st.mem[(lv[1], lv[2])] = v if v is not None else atom(('sym', d['n']))
        I.stack.append(f)
        fl = I.seq_exec(self.pro, st)
        if fl.n is None:
            raise AnalysisBroken('prologue of %s never reaches the dispatch loop' % f['q'])
        self.pro_exits = list(I.exits)
        self.pro_rets = fl.ex
        st = fl.n
        self.pro_events = list(st.events)
        # havoc
        hv = assigned_vars(self.loop)
        self.hv = {}; self.h0 = {}
        for id in hv:
            k = I.dkey(id)
            if k in st.env:
                lv = st.env[k]
                if lv[0] == 'cell':
                    a = ('h', self.tu.decls[id]['n'])
                    self.hv[a] = (lv[1], lv[2])
                    self.h0[a] = st.mem.get((lv[1], lv[2]))
                    st.mem[(lv[1], lv[2])] = atom(a)
        for k in list(st.mem):
            r = k[0]
            if isinstance(r, tuple) and r and r[0] in ('heap', 'glob', 'at', 'epoch', 'tapefld'):
                del st.mem[k]
        st.events = []
        st.wlog = set()
        st.assume = ()
        st.rng = {}
        for r in POS.values(): st.mem[(r, ZERO)] = ZERO
        self.start = st
        self.seq0 = I.seq
        body = self.sw[3][2:]
        i = 0
        while i < len(body):
            if body[i][0] in ('case', 'default'):
                names = []
                while i < len(body) and body[i][0] in ('case', 'default'):
                    names.append(body[i])
                    i += 1
                for n in names:
                    if n[0] == 'case':
                        self.labels[n[2]] = (i, n[1])
                    else:
                        self.labels['default'] = (i, n[1])
            else:
                i += 1

    def section(self, code):
        s = self.sections.get(code)
        if s is None:
            s = self.sections[code] = self._run(code)
        return s

    def _run(self, code):
        s = Section()
        s.code, s.name = code, self.opnames.get(code, str(code))
        s.err = None; s.st = None; s.rets = []; s.aborts = []
        lab = self.labels.get(code)
        if lab is None:
            lab = self.labels.get('default')
            if lab is None:
                s.err = 'missing'; s.line = None
                return s
        start, l = lab
        s.line = self.tu.loc(l)
        I = self.I
        I.seq = self.seq0
        I.depth = 0; I.loopN = {}; I.exits = []
        st = self.start.copy()
        # the switch variable has the case's value
        sv = self.sw[2]
        while sv[0] == 'cast': sv = sv[4]
        if sv[0] == 'ref' and code != 'default':
            lv = st.env.get(I.dkey(sv[2]))
            if lv is not None: st.mem[(lv[1], lv[2])] = num(code)
        try:
            f = I.seq_exec(self.sw[3][2:][start:], st)
        except Unsupported as ex:
            s.err = 'unsupported: %s' % ex
            return s
        except RecursionError:
            s.err = 'unsupported: recursion'
            return s
        s.aborts = list(I.exits)
        m = f.n
        for kind, g, x, v in reversed(f.ex):
            if kind == 'break':
                m = x if m is None else I.merge(g, x, m)
            else:
                s.rets.append((kind, g, x, v))
        s.st = m
        s.I = I
        return s

def op_enum(prog):
    for name, vals in prog.enums.items():
        if name.split('::')[-1] == 'OPCODES' or ('assign_ind' in vals and 'end_of_tape' in vals):
            return {v: k for k, v in vals.items()}, dict(vals)
    raise AnalysisBroken('operation code enumeration not found')
