"""The storage of a tape: buffers, block files, Taylor stack.

The storage code (BufferState, TapeInfos, the block and sweep functions of
ValueTape) is interpreted over a memory of cells: positions, counters, buffer
sizes and file offsets by constant propagation, the contents symbolically.
Arithmetic on unsigned long wraps.  stdio is a model: a file is a map from byte
offsets to elements, a handle a position in it.  The literal for the size of an
I/O chunk is replaced by a few bytes so that chunked transfers are reached.
"""
import terms as T
from terms import ZERO, ONE, num, atom, isP, toP, add, sub, const_of, TRUE, FALSE
from absint import Interp, State, Flow, Unsupported, Dead, cell, NULL
from drive import Drive, Broken, SIZES

U64 = 1 << 64
UNS = {'unsigned long', 'size_t', 'std::size_t', 'unsigned long long'}
SGN = {'long', 'ptrdiff_t', 'std::ptrdiff_t', 'long long'}
ELT = dict(SIZES); ELT.update({'unsigned char': 1})
TAPE = ('obj', 'tape')

def wrap(v, t):
    if not isP(v): return v
    c = const_of(v)
    if c is None or c.denominator != 1: return v
    if t in UNS and not 0 <= c < U64: return num(int(c) % U64)
    if t in SGN and not -(U64 // 2) <= c < U64 // 2: return num((int(c) + U64 // 2) % U64 - U64 // 2)
    return v

class Store(Drive):
    LIMIT = 100000
    CHUNK = 24
    def __init__(self, prog, tu, **kw):
        super().__init__(prog, tu, **kw)
        self.files, self.handles, self.elt = {}, {}, {}
        self.opened = []
        P = self.prims
        for nm in ('fopen', 'fclose', 'fseek', 'fread', 'fwrite', 'rewind', 'remove', 'fflush', 'ftell'):
            P[nm] = P['std::' + nm] = getattr(self, 'f_' + nm)
        P['ValueTape::initSparse'] = lambda I, st, e, xs: ZERO
        P['ValueTape::compare_adolc_ids'] = lambda I, st, e, xs: ZERO
        P['get_adolc_id'] = lambda I, st, e, xs: ('lv', cell(('obj', 'id')))
        P['std::begin'] = P['std::cbegin'] = lambda I, st, e, xs: self.bounds(xs[0], st, False)
        P['std::end'] = P['std::cend'] = lambda I, st, e, xs: self.bounds(xs[0], st, True)
        self._fn = {}
    # ------------------------------------------------------------ machine integers
    def e_int(self, e, st):
        v = int(e[2])
        return num(self.chunk(v))
    def chunk(self, v):
        if isinstance(v, int) and v >= 1 << 20 and v < 1 << 40 and v & (v - 1) == 0:
            return max(v * self.CHUNK >> 30, 1)
        return v
    def e_ref(self, e, st):
        d = self.decl(e[2])
        if 'cv' in d: return num(self.chunk(d['cv']))
        return super().e_ref(e, st)
    def e_bin(self, e, st):
        v = super().e_bin(e, st)
        return wrap(v, e[5]) if len(e) > 5 else v
    def e_cast(self, e, st):
        return wrap(super().e_cast(e, st), e[3])
    def tyof(self, e):
        if e[0] == 'ref': return self.decl(e[2])['t'].replace('const ', '')
        if e[0] == 'mem': return e[6]
        if e[0] == 'idx': return None
        return None
    def e_asg(self, e, st):
        v = super().e_asg(e, st)
        t = self.tyof(e[3])
        w = wrap(v, t) if t else v
        if w is not v: self.store(st, self.lval_pure(e[3], st), w)
        return w
    def e_un(self, e, st):
        v = super().e_un(e, st)
        if e[2] in ('++', '--', 'p++', 'p--'):
            t = self.tyof(e[3])
            lv = self.lval(e[3], st)
            x = self.load(st, lv)
            w = wrap(x, t) if t else x
            if w is not x:
                self.store(st, lv, w)
                if e[2][0] != 'p': return w
        return v
    def compare(self, op, a, b):
        for x, y in ((a, b), (b, a)):
            if x == NULL and isP(y) and y == ZERO: return super().compare(op, ZERO, ZERO)
        if op in ('==', '!=') and all(not isP(x) and x[0] == 'ptr' for x in (a, b)) and a[1] != b[1]:
            return TRUE if op == '!=' else FALSE
        return super().compare(op, a, b)
    def opaque_call(self, e, st, q, rt, vals):
        b = q.split('::')[-1]
        if b in ('free_loc', 'alloc_loc', 'setStoreManagerControl', 'ensure_block'): return ZERO
        return super().opaque_call(e, st, q, rt, vals)
    def e_mcall(self, e, st, want_lv=False):
        if e[6] and e[2].split('::')[-1] == 'free_loc':
            for x in e[8:]: self.ev_val(x, st)
            return ZERO
        return super().e_mcall(e, st, want_lv)
    def e_new(self, e, st):
        v = super().e_new(e, st)
        self.elt[v[1]] = ELT.get(e[2].replace('const ', ''))
        return v
    def a_min(self, I, st, e, xs):
        vs = [self.ev_val(x, st) for x in xs]
        vs = [self.load(st, v[1]) if isinstance(v, tuple) and v and v[0] == 'lv' else v for v in vs]
        c = [const_of(toP(v)) for v in vs]
        if None in c: raise Unsupported('std::min of unknown values')
        return num(min(c))
    # ------------------------------------------------------------ arrays, spans, owning pointers
    def copy_arr(self, st, src, dst):
        s, d = ('vec', src[1], src[2]), ('vec', dst[1], dst[2])
        for k in [k for k in st.mem if k[0] == d]: del st.mem[k]
        for (r, o), v in list(st.mem.items()):
            if r == s: st.mem[(d, o)] = v
        k = (('vecsize', src[1], src[2]), ZERO)
        if k in st.mem: st.mem[(('vecsize', dst[1], dst[2]), ZERO)] = st.mem[k]
    def vec_hook(self, st, lv, t, vals):
        if 'std::array' in t and vals and isinstance(vals[0], tuple) and vals[0] and vals[0][0] in ('lv', 'objv'):
            self.copy_arr(st, vals[0][1], lv)
            return
        return super().vec_hook(st, lv, t, vals)
    def e_ctor(self, e, st, want_lv=False):
        t = e[2]
        if t.startswith('std::span'): return self.mkspan(e, st)
        if t.startswith('std::array') and len(e) == 6:
            src = self.lval(e[5], st)
            dst = cell(('tmp', self.newseq())); st.news.add(dst[1])
            self.copy_arr(st, src, dst)
            return ('objv', dst)
        if t.startswith('std::reverse_iterator') and len(e) == 6: return self.ev_val(e[5], st)
        if t.startswith('std::unique_ptr'):
            if len(e) == 5: return NULL
            v = self.ev_val(e[5], st)
            if isinstance(v, tuple) and v and v[0] in ('lv', 'objv'):
                x = self.load(st, v[1]); self.store(st, v[1], NULL)
                return x
            return v
        return super().e_ctor(e, st, want_lv)
    def construct(self, e, st, lv):
        if e[2].startswith(('std::unique_ptr', 'std::span', 'std::reverse_iterator')): return False
        if e[2].startswith('std::array') and len(e) == 6:
            self.copy_arr(st, self.lval(e[5], st), lv)
            return True
        return super().construct(e, st, lv)
    def mkspan(self, e, st):
        if len(e) != 7: raise Unsupported('std::span at ' + self.where(e[1]))
        p, q = self.ev_val(e[5], st), self.ev_val(e[6], st)
        n = int(const_of(toP(q))) if isP(q) else self.span(p, q)
        if n < 0: raise Broken('span of %d elements' % n)
        return ('span', p, n)
    def s_decl(self, s, st):
        for id, init, static in s[2:]:
            d = self.decl(id)
            if init is not None and not static and d['t'].replace('const ', '').startswith(('std::span', 'std::reverse_iterator')):
                lv = cell(('var', d['n'], self.newseq())); st.news.add(lv[1])
                st.env[self.dkey(id)] = lv
                st.mem[(lv[1], lv[2])] = self.ev_val(init, st)
                continue
            f = super().s_decl([s[0], s[1], [id, init, static]], st)
            if not static and not d['t'].endswith('&'):
                lv = st.env.get(self.dkey(id))
                if lv is not None and lv[0] == 'cell' and (lv[1], lv[2]) in st.mem:
                    st.mem[(lv[1], lv[2])] = wrap(st.mem[(lv[1], lv[2])], d['t'].replace('const ', ''))
        return Flow(st)
    def s_rfor(self, s, st):
        r = self.rfor_listed(s, st)
        if r is not None: return r
        vd, rng, body = s[2], s[3], s[4]
        lv = self.lval(rng, st)
        v = st.mem.get((lv[1], lv[2])) if lv[0] == 'cell' else None
        if not (isinstance(v, tuple) and v and v[0] == 'span'): return super().s_rfor(s, st)
        exs = []
        for i in range(v[2]):
            st.env[self.dkey(vd[0])] = self.deref(self.ptr_add(v[1], num(i)))
            f = self.exec(body, st)
            nn = f.n
            for kind, g, x, w in f.ex:
                if kind == 'continue': nn = x
                elif kind == 'break': return Flow(x, exs)
                else: exs.append((kind, g, x, w))
            if nn is None: return Flow(None, exs)
            st = nn
        return Flow(st, exs)
    def bounds(self, x, st, end):
        lv = self.lval(x, st)
        n = self.size_of(st, lv)
        if end and const_of(n) is None: n = num(64)
        return ('ptr', ('vec', lv[1], lv[2]), n if end else ZERO)
    def std_method(self, e, st, q, base, rt, lv, xs):
        if q.startswith('std::unique_ptr'):
            k = (lv[1], lv[2])
            if base == 'get': return self.load(st, lv)
            if base == 'operator bool': return T.boolval(self.truth(self.load(st, lv))) if False else (ZERO if self.null(self.load(st, lv)) else ONE)
            if base == 'release':
                v = self.load(st, lv); self.store(st, lv, NULL)
                return v
            if base in ('reset', 'operator='):
                v = self.ev_val(xs[0], st) if xs else NULL
                if isinstance(v, tuple) and v and v[0] in ('lv', 'objv'):
                    w = self.load(st, v[1])
                    if (v[1][1], v[1][2]) != k: self.store(st, v[1], NULL)
                    v = w
                old = self.load(st, lv)
                self.store(st, lv, v)
                if not self.null(old): self.close(old, e)
                return ('lv', lv)
        v = st.mem.get((lv[1], lv[2])) if lv[0] == 'cell' else None
        if q.startswith('std::span') and isinstance(v, tuple) and v and v[0] == 'span':
            if base in ('begin', 'data', 'cbegin'): return v[1]
            if base in ('end', 'cend'): return self.ptr_add(v[1], num(v[2]))
            if base == 'rbegin': return self.ptr_add(v[1], num(v[2]))
            if base == 'rend': return v[1]
            if base == 'size': return num(v[2])
            if base == 'operator[]': return ('lv', self.deref(self.ptr_add(v[1], toP(self.ev_val(xs[0], st)))))
        if q.startswith('std::reverse_iterator'):
            if base == 'operator*': return ('lv', self.deref(self.ptr_add(self.load(st, lv), num(-1))))
            if base == 'operator++':
                old = self.load(st, lv)
                self.store(st, lv, self.ptr_add(old, num(-1)))
                return old if xs else ('lv', lv)
        if q.startswith('std::stack'):
            for x in xs: self.ev_val(x, st)
            if base in ('push', 'pop', 'emplace'): return ZERO
            if base in ('top',): return ('lv', cell(('obj', 'stacktop')))
            if base in ('empty', 'size'): return ZERO if base == 'empty' else ONE
        if q.startswith('std::array') and base == 'operator=':
            v = self.ev_val(xs[0], st)
            self.copy_arr(st, v[1] if isinstance(v, tuple) and v and v[0] in ('lv', 'objv') else self.lval(xs[0], st), lv)
            return ('lv', lv)
        return super().std_method(e, st, q, base, rt, lv, xs)
    def e_call(self, e, st, want_lv=False):
        if e[2] == 'std::operator==' and len(e) == 7 and 'reverse_iterator' in e[3]:
            a, b = self.ev_val(e[5], st), self.ev_val(e[6], st)
            return ONE if a == b else ZERO
        return super().e_call(e, st, want_lv)
    def default_assign(self, f, st, dst, src):
        if src[0] == 'cell' and dst[0] == 'cell': self.copy_obj(st, src, dst)
        else: super().default_assign(f, st, dst, src)
    def init_hook(self, st, lv):
        r = lv[1]
        while isinstance(r, tuple) and r and r[0] in ('fld', 'arr', 'vec', 'vecsize') and len(r) > 1: r = r[1]
        if r == TAPE or isinstance(r, tuple) and r and r[:1] == ('tmp',) and r in st.news: return ZERO
        return super().init_hook(st, lv)
    # ------------------------------------------------------------ stdio
    def null(self, v): return v == NULL or isP(v) and v == ZERO
    def handle(self, v, e, what):
        if isP(v) and v != ZERO: v = T.unP(v)
        if self.null(v): raise Broken('%s on a null FILE pointer at %s' % (what, self.where(e[1])))
        if v[0] != 'ptr' or v[1][0] != 'file': raise Unsupported('%s of %s' % (what, T.show(v)))
        h = self.handles[v[1]]
        if not h['open']: raise Broken('%s on a closed file (%s) at %s' % (what, h['name'], self.where(e[1])))
        return h
    def close(self, v, e): self.handle(v, e, 'fclose')['open'] = False
    def f_fopen(self, I, st, e, xs):
        name, mode = self.ev_val(xs[0], st), self.ev_val(xs[1], st)
        if name[0] != 'str' or mode[0] != 'str': raise Unsupported('fopen of an unknown file at ' + self.where(e[1]))
        name, mode = name[1], mode[1].replace('b', '')
        if mode[0] == 'r' and name not in self.files: return NULL
        if mode[0] == 'w': self.files[name] = {}
        elif name not in self.files: self.files[name] = {}
        r = ('file', len(self.handles) + 1)
        self.handles[r] = dict(name=name, pos=0, open=True, mode=mode, data=self.files[name])
        return ('ptr', r, ZERO)
    def f_fclose(self, I, st, e, xs):
        self.close(self.ev_val(xs[0], st), e)
        return ZERO
    def f_remove(self, I, st, e, xs):
        n = self.ev_val(xs[0], st)
        if n[0] != 'str': raise Unsupported('remove of an unknown file at ' + self.where(e[1]))
        return ZERO if self.files.pop(n[1], None) is not None else num(-1)
    def f_fflush(self, I, st, e, xs): return ZERO
    def f_rewind(self, I, st, e, xs):
        self.handle(self.ev_val(xs[0], st), e, 'rewind')['pos'] = 0
        return ZERO
    def f_ftell(self, I, st, e, xs): return num(self.handle(self.ev_val(xs[0], st), e, 'ftell')['pos'])
    def f_fseek(self, I, st, e, xs):
        h = self.handle(self.ev_val(xs[0], st), e, 'fseek')
        o, w = self.cint(xs[1], st), self.cint(xs[2], st)
        if w == 1: o += h['pos']
        elif w != 0: raise Unsupported('fseek from the end at ' + self.where(e[1]))
        o = const_of(wrap(num(o), 'long'))
        if o < 0: return num(-1)
        h['pos'] = int(o)
        return ZERO
    def xfer(self, I, st, e, xs, wr):
        p = self.ev_val(xs[0], st)
        sz, n = self.cint(xs[1], st), self.cint(xs[2], st)
        h = self.handle(self.ev_val(xs[3], st), e, 'fwrite' if wr else 'fread')
        if wr and h['mode'][0] == 'r' and '+' not in h['mode'] or not wr and h['mode'] in ('w', 'a'):
            raise Broken('%s a file opened with mode %s at %s' % ('writes to' if wr else 'reads from', h['mode'], self.where(e[1])))
        if self.null(p): raise Broken('transfer to or from a null pointer at ' + self.where(e[1]))
        if isP(p): p = T.unP(p)
        if p[0] != 'ptr': raise Unsupported('transfer at ' + self.where(e[1]))
        data, k = h['data'], self.elt.get(p[1])
        tot = sz * n
        if k is None:
            # a structure (identification, statistics)
            if wr:
                lv = cell(p[1], p[2])
                snap = {q: v for q, v in st.mem.items() if self.under(q[0], p[1])}
                self.wipe(data, h['pos'], tot)
                data[h['pos']] = (tot, ('raw', p[1], tuple(snap.items())))
                h['pos'] += tot
                return num(n)
            x = data.get(h['pos'])
            if x is None or x[0] != tot:
                if not self.has(data, h['pos'], tot): return ZERO
                raise Broken('reads %d bytes at offset %d of %s which were not written as such at %s' % (tot, h['pos'], h['name'], self.where(e[1])))
            h['pos'] += tot
            return num(n)
        if tot % k: raise Unsupported('transfer of a part of an element at ' + self.where(e[1]))
        if h['pos'] % k: raise Broken('transfer at the unaligned offset %d of %s at %s' % (h['pos'], h['name'], self.where(e[1])))
        if not wr and not self.has(data, h['pos'], tot):
            return ZERO
        o = const_of(p[2])
        for i in range(tot // k):
            lv = cell(p[1], num(int(o) + i))
            try:
                if wr:
                    v = self.load(st, lv)
                    x = data.get(h['pos'])
                    if x is None or x[0] != k: self.wipe(data, h['pos'], k)
                    data[h['pos']] = (k, v)
                else:
                    x = data.get(h['pos'])
                    self.store(st, lv, x[1] if x is not None and x[0] == k else atom(('raw', h['name'], h['pos'])))
            except Broken as ex:
                raise Broken('%s: %s at %s' % ('fwrite' if wr else 'fread', ex, self.where(e[1])))
            h['pos'] += k
        return num(n)
    def f_fread(self, I, st, e, xs): return self.xfer(I, st, e, xs, False)
    def f_fwrite(self, I, st, e, xs): return self.xfer(I, st, e, xs, True)
    def under(self, r, root):
        while True:
            if r == root: return True
            if not (isinstance(r, tuple) and r and r[0] in ('fld', 'vec', 'arr', 'vecsize')): return False
            r = r[1]
    def wipe(self, data, pos, n):
        for o in [o for o in data if o < pos + n and o + data[o][0] > pos and isinstance(o, int)]: 
            s, v = data.pop(o)
            if o < pos: data[o] = (pos - o, ('cut',))
            if o + s > pos + n: data[pos + n] = (o + s - pos - n, ('cut',))
    def has(self, data, pos, n):
        """every byte of [pos, pos+n) has been written"""
        end = max((o + s for o, (s, _) in data.items()), default=0)
        return pos + n <= end
    def a_memset(self, I, st, e, xs):
        p = self.ev_val(xs[0], st); v = self.cint(xs[1], st); n = self.cint(xs[2], st)
        if isP(p): p = T.unP(p)
        k = self.elt.get(p[1]) if p[0] == 'ptr' else None
        if not k or v != 0 or n % k: raise Unsupported('memset at ' + self.where(e[1]))
        if n // k > 100000: raise Broken('memset of %d bytes at %s' % (n, self.where(e[1])))
        for i in range(n // k): self.to_(st, p, i, ZERO)
        return p
    def a_memcpy(self, I, st, e, xs):
        d, s = self.ev_val(xs[0], st), self.ev_val(xs[1], st)
        n = self.cint(xs[2], st)
        if n == 0: return d
        d, s = (T.unP(x) if isP(x) else x for x in (d, s))
        if d[0] != 'ptr' or s[0] != 'ptr': raise Broken('memcpy of %d bytes from or to a null pointer at %s' % (n, self.where(e[1])))
        k = self.elt.get(d[1]) or self.elt.get(s[1])
        if not k or n % k: raise Unsupported('memcpy at ' + self.where(e[1]))
        vs = [self.at_(st, s, i) for i in range(n // k)]
        for i, v in enumerate(vs): self.to_(st, d, i, v)
        return d
    # ------------------------------------------------------------ calls from outside
    def call_body(self, f, st, args, this=None):
        try:
            return super().call_body(f, st, args, this)
        except Broken as ex:
            if not getattr(ex, 'path', None): ex.path = []
            ex.path.append(f['q'])
            raise
    def fn(self, name, n=None, m=None):
        k = (name, n, m)
        f = self._fn.get(k)
        if f is None:
            c = [f for f in self.prog.all_functions() if f['q'] == name and f.get('body') and (n is None or len(f['ps']) == n) and (m is None or m in f['m'])]
            if not c: raise Unsupported('no definition of %s' % name)
            f = self._fn[k] = c[0]
        return f
    def tape(self, st, name, *args, m=None):
        """a method of ValueTape on the tape"""
        f = self.fn('ValueTape::' + name, len(args), m)
        self.tu = f['tu']
        st.wlog = set(); st.events = []
        self.exits = []
        al = [('val', num(a) if isinstance(a, int) else a) for a in args]
        try:
            v = self.call_body(f, st, al, this=('ptr', TAPE, ZERO))
        except Dead:
            x = self.exits[-1] if self.exits else ('stop', '?', (), '?')
            b = Broken('%s fails (%s at %s)' % (name, x[3] or x[0], x[1]))
            b.path = ['ValueTape::' + name]
            raise b
        if isinstance(v, tuple) and v and v[0] == 'lv': v = self.load(st, v[1])
        return v
    def fld(self, *names):
        r, o = TAPE, ZERO
        for n in names: r, o = ('fld', r, o, n), ZERO
        return cell(r, o)
    def setf(self, st, v, *names): self.store(st, self.fld(*names), v if not isinstance(v, int) else num(v))
    def getf(self, st, *names): return self.load(st, self.fld(*names))
    def array(self, st, name, vals, k=8):
        p = self.arr(st, name, (len(vals),), lambda i: vals[i])
        self.elt[p[1]] = k
        return p
    def open_files(self): return sorted(h['name'] for h in self.handles.values() if h['open'])
