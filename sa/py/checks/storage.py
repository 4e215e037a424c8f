"""C13, C14: what is put on a tape or on the Taylor stack is what is taken from it (store.py)."""
import os
from concurrent.futures import ProcessPoolExecutor
import terms as T
from terms import ZERO, ONE, num, atom, toP, const_of, isP
from absint import State, Unsupported, Dead, cell, NULL
import ctx as CX
from ctx import Ctx
from checks.tape import std_params
from report import Report
from load import AnalysisBroken
from drive import Broken
from store import Store, TAPE

CTX = None
THOROUGH = os.environ.get('VERIF_TIER') == 'thorough'

class Wrong(Exception):
    pass

class Hist:
    """one history on one tape: interprets the storage code step by step"""
    def __init__(self, ctx, OB, LB, VB, TB):
        self.cx = ctx
        self.sizes = (OB, LB, VB, TB)
        self.D = D = Store(ctx.prog, ctx.prog.tus['ADOL-C/src/valuetape/valuetape.cpp'])
        self.st = st = State()
        P = D.prims
        for nm in ('findTape', 'currentTape'): P[nm] = lambda I, st, e, xs: ('lv', cell(TAPE))
        P['currentTapeStack'] = lambda I, st, e, xs: ('lv', cell(('obj', 'stack')))
        for nm in ('setCurrentTape', 'currentTapePtr', 'setCurrentTapePtr'): P[nm] = lambda I, st, e, xs: ZERO
        self.pval = []
        for n, v in zip(('operationBufferSize', 'locationBufferSize', 'valueBufferSize', 'taylorBufferSize'), self.sizes):
            D.setf(st, v, 'globalTapeVars_', n)
        self.code = ctx.codes
        self.steps = []
        self.n = 0
    # -------------------------------------------------------------- calls
    def call(self, name, *args, m=None):
        return self.D.tape(self.st, name, *args, m=m)
    def free(self, name, *args):
        """a function of the interface"""
        D = self.D
        f = D.fn(name, len(args))
        D.tu = f['tu']; self.st.wlog = set(); self.st.events = []; D.exits = []
        try:
            return D.call_body(f, self.st, [('val', num(a)) for a in args])
        except Dead:
            x = D.exits[-1] if D.exits else ('stop', '?', (), '?')
            b = Broken('%s fails (%s at %s)' % (name, x[3] or x[0], x[1])); b.path = [name]
            raise b
    def fresh(self, kind):
        self.n += 1
        return atom((kind, self.n))
    # -------------------------------------------------------------- recording
    def record(self, seq, keep=0, flag=0, store=0, params=0, explicit=None):
        """seq: (locations, values, taylors) per operation"""
        D, st = self.D, self.st
        self.steps.append('recording of %d operations%s%s' % (len(seq), ' with keep' if keep else '', ' to files' if flag else ''))
        vals = [atom(('store', self.n, i)) for i in range(store)]
        self.n += 1
        pv = [atom(('par', self.n, i)) for i in range(params)]
        D.setf(st, store, 'globalTapeVars_', 'storeSize'); D.setf(st, store, 'globalTapeVars_', 'numLives')
        D.setf(st, params, 'globalTapeVars_', 'numparam')
        if store: D.setf(st, D.array(st, 'store%d' % self.n, vals), 'globalTapeVars_', 'store')
        D.setf(st, D.array(st, 'pstore%d' % self.n, pv) if params else NULL, 'globalTapeVars_', 'pStore')
        self.names()
        self.tb = explicit[3] if explicit else self.sizes[3]
        if explicit is not None: self.free('trace_on', 1, keep, *explicit, 0)
        else: self.free('trace_on', 1, keep)
        if const_of(D.getf(st, 'tapeInfos_', 'workMode')) != 1: raise Wrong('trace_on does not start to record')
        rec, tay = [], []
        c = 0
        k = 0
        for nl, nv, nt in seq:
            ext = nl if nl > 9 else 0
            k += 1
            op = num(40 + k % 60)
            self.call('put_op', op, ext)
            ls, vs = [], []
            for _ in range(nl):
                v = self.fresh('loc'); ls.append(v); self.call('put_loc', v)
            for _ in range(nv):
                v = self.fresh('val'); vs.append(v); self.call('put_val', v)
            for _ in range(nt):
                v = self.fresh('tay')
                self.call('increment_numTays_Tape')
                if keep:
                    tay.append(v); self.call('write_scaylor', v)
            rec.append((op, ls, vs))
        if store:
            # the live variables may have changed
            vals2 = [atom(('final', self.n, i)) for i in range(store)]
            D.setf(st, D.array(st, 'store%db' % self.n, vals2), 'globalTapeVars_', 'store')
        else: vals2 = []
        if store: self.free('trace_off', flag)
        else:
            # no live variable: nothing to keep
            self.call('stop_trace', flag)
            self.call('workMode', 0)
        if keep: tay += list(reversed(vals2))
        self.rec, self.store, self.params, self.tay = rec, vals, pv, tay
        self.idle('recording')
    def names(self):
        for n in ('op', 'loc', 'val', 'tay'): self.D.setf(self.st, ('str', n), 'perTapeInfos_', n + '_fileName')
    def parameters(self):
        if not self.params: return
        p = self.D.getf(self.st, 'perTapeInfos_', 'paramstore')
        if self.D.null(p): raise Wrong('there are no parameters after the start of the sweep')
        vs = [self.D.at_(self.st, p, i) for i in range(len(self.params))]
        if vs != self.params: raise Wrong('the parameters of the sweep are %s instead of %s' % ([T.show(toP(v)) for v in vs], [T.show(v) for v in self.params]))
    def set_params(self):
        n = len(self.params)
        self.steps.append('new values for the %d parameters' % n)
        self.n += 1
        pv = [atom(('newpar', self.n, i)) for i in range(n)]
        self.call('set_param_vec', 1, n, self.D.array(self.st, 'np%d' % self.n, pv) if n else NULL)
        self.params = pv
        self.idle('assignment of parameters')
    def idle(self, what):
        if const_of(D_mode(self)) != 0: raise Wrong('the tape is not released after the %s' % what)
        o = [f for f in self.D.open_files() if f != 'tay']
        if o: raise Wrong('the %s leaves the file(s) of the %s open' % (what, ', '.join(o)))
    # -------------------------------------------------------------- reading
    def forward(self):
        self.steps.append('forward sweep')
        c = self.code
        self.call('init_sweep', m='Forward')
        self.parameters()
        ops = iter(self.rec)
        got = 0
        stock = list(self.store)
        first = True
        for guard in range(100000):
            op = self.call('get_op_f')
            k = const_of(toP(op))
            if k == c['end_of_op']:
                self.call('get_op_block_f')
                x = const_of(toP(self.call('get_op_f')))
                if x != c['end_of_op']: raise Wrong('the block of operations does not start with the mark of its predecessor')
            elif k == c['end_of_int']: self.call('get_loc_block_f')
            elif k == c['end_of_val']: self.call('get_val_block_f')
            elif k == c['start_of_tape']:
                if not first: raise Wrong('start_of_tape inside of the tape')
            elif k == c['end_of_tape']: break
            elif k == c['take_stock_op']:
                size, base = self.call('get_locint_f'), self.call('get_locint_f')
                n, b = const_of(size), const_of(base)
                if n is None or b is None: raise Wrong('take_stock_op reads %s, %s as its range' % (T.show(size), T.show(base)))
                p = self.call('get_val_v_f', int(n))
                vs = [self.D.at_(self.st, p, i) for i in range(int(n))]
                if b != len(self.store) - len(stock) or vs != stock[:int(n)]:
                    raise Wrong('the values of the live variables %d..%d come back as %s' % (b, b + n - 1, [T.show(v) for v in vs]))
                stock = stock[int(n):]
            elif k == c['death_not'] and got == len(self.rec):
                a, b = const_of(self.call('get_locint_f')), const_of(self.call('get_locint_f'))
                if (a, b) != (0, len(self.store) - 1): raise Wrong('death_not reads the range %s..%s' % (a, b))
            else:
                if got >= len(self.rec): raise Wrong('more operations come back than were put (%s)' % T.show(toP(op)))
                wop, wl, wv = self.rec[got]
                got += 1
                if op != wop: raise Wrong('operation %d comes back as %s instead of %s' % (got, T.show(toP(op)), T.show(wop)))
                ls = [self.call('get_locint_f') for _ in wl]
                if ls != wl: raise Wrong('the locations of operation %d come back as %s instead of %s' % (got, [T.show(toP(v)) for v in ls], [T.show(v) for v in wl]))
                if len(wv) > 1 and got % 2:
                    p = self.call('get_val_v_f', len(wv))
                    vs = [self.D.at_(self.st, p, i) for i in range(len(wv))]
                else: vs = [self.call('get_val_f') for _ in wv]
                if vs != wv: raise Wrong('the values of operation %d come back as %s instead of %s' % (got, [T.show(toP(v)) for v in vs], [T.show(v) for v in wv]))
            first = False
        if got != len(self.rec) or stock: raise Wrong('only %d of %d operations come back' % (got, len(self.rec)))
        self.call('end_sweep')
        self.idle('forward sweep')
    def reverse(self):
        self.steps.append('reverse sweep')
        c = self.code
        self.call('init_sweep', m='Reverse')
        self.parameters()
        got = len(self.rec)
        stock = list(self.store)
        op = self.call('get_op_r')
        if const_of(toP(op)) != c['end_of_tape']: raise Wrong('the reverse sweep does not start at end_of_tape but at %s' % T.show(toP(op)))
        for guard in range(100000):
            k = const_of(toP(op))
            if k == c['end_of_op']:
                self.call('get_op_block_r')
                x = const_of(toP(self.call('get_op_r')))
                if x != c['end_of_op']: raise Wrong('the block of operations does not end with the mark')
            elif k == c['end_of_int']: self.call('get_loc_block_r')
            elif k == c['end_of_val']: self.call('get_val_block_r')
            elif k == c['start_of_tape']: break
            elif k == c['end_of_tape']: self.call('discard_params_r')
            elif k == c['take_stock_op']:
                base, size = self.call('get_locint_r'), self.call('get_locint_r')
                n, b = const_of(size), const_of(base)
                if n is None or b is None: raise Wrong('take_stock_op reads %s, %s as its range' % (T.show(size), T.show(base)))
                p = self.call('get_val_v_r', int(n))
                vs = [self.D.at_(self.st, p, i) for i in range(int(n))]
                if b + n != len(stock) or vs != stock[int(b):]: raise Wrong('the values of the live variables %d..%d come back as %s' % (b, b + n - 1, [T.show(v) for v in vs]))
                stock = stock[:int(b)]
            elif k == c['death_not'] and got == len(self.rec):
                b, a = const_of(self.call('get_locint_r')), const_of(self.call('get_locint_r'))
                if (a, b) != (0, len(self.store) - 1): raise Wrong('death_not reads the range %s..%s' % (a, b))
            else:
                if got <= 0: raise Wrong('more operations come back than were put (%s)' % T.show(toP(op)))
                wop, wl, wv = self.rec[got - 1]
                if op != wop: raise Wrong('operation %d comes back as %s instead of %s' % (got, T.show(toP(op)), T.show(wop)))
                ls = [self.call('get_locint_r') for _ in wl][::-1]
                if ls != wl: raise Wrong('the locations of operation %d come back as %s instead of %s' % (got, [T.show(toP(v)) for v in ls], [T.show(v) for v in wl]))
                if len(wv) > 1 and got % 2:
                    p = self.call('get_val_v_r', len(wv))
                    vs = [self.D.at_(self.st, p, i) for i in range(len(wv))]
                else: vs = [self.call('get_val_r') for _ in wv][::-1]
                if vs != wv: raise Wrong('the values of operation %d come back as %s instead of %s' % (got, [T.show(toP(v)) for v in vs], [T.show(v) for v in wv]))
                got -= 1
            op = self.call('get_op_r')
        if got or stock: raise Wrong('%d of %d operations do not come back' % (got, len(self.rec)))
        self.call('end_sweep')
        self.idle('reverse sweep')
    def stats(self):
        D, st = self.D, self.st
    # -------------------------------------------------------------- Taylor stack
    def taylor_forward(self, seq, deg):
        """a forward sweep that keeps: seq of ('s',) | ('v', n) | ('b', keep) | ('t', keep, degree, dirs)"""
        D, st = self.D, self.st
        self.steps.append('forward sweep that keeps %d coefficients' % sum(1 if x[0] == 's' else x[1] if x[0] in 'vb' else x[1] * x[3] for x in seq))
        self.call('init_sweep', m='Forward')
        self.parameters()
        self.call('taylor_begin', self.tb, deg)
        self.tay = []
        for x in seq:
            self.n += 1
            if x[0] == 's':
                v = self.fresh('tay'); self.tay.append(v); self.call('write_scaylor', v)
            elif x[0] in 'vb':
                vs = [self.fresh('tay') for _ in range(x[1])]
                self.call('write_scaylors' if x[0] == 'v' else 'write_taylor', D.array(st, 'w%d' % self.n, vs), x[1])
                self.tay += vs
            else:
                _, keep, degree, dirs = x
                ld = max(keep, degree)
                vs = [self.fresh('tay') for _ in range(ld * dirs)]
                self.call('write_taylors', D.array(st, 'w%d' % self.n, vs), keep, degree, dirs)
                for d in range(dirs): self.tay += vs[d * ld:d * ld + keep]
        self.call('taylor_close')
        self.call('end_sweep')
    def taylor_reverse(self, pops):
        """pops: cyclic pattern of ('s',) | ('v', n) | ('p', degree, dirs)"""
        D, st = self.D, self.st
        self.steps.append('reverse sweep over the Taylor stack')
        self.call('init_sweep', m='Reverse')
        self.parameters()
        self.call('taylor_back')
        left = list(self.tay)
        i = 0
        while left:
            x = pops[i % len(pops)]
            i += 1
            if x[0] == 'v' and x[1] > len(left): x = ('s',)
            if x[0] == 'p' and (x[1] - 1) * x[2] + 1 > len(left): x = ('s',)
            if x[0] == 's':
                v = self.call('get_taylor')
                w = left.pop()
                if v != w: raise Wrong('coefficient %d comes back as %s instead of %s' % (len(left), T.show(toP(v)), T.show(w)))
            elif x[0] == 'v':
                self.n += 1
                p = D.array(st, 'r%d' % self.n, [ZERO] * x[1])
                self.call('get_taylors', p, x[1])
                vs = [D.at_(st, p, j) for j in range(x[1])]
                w = left[-x[1]:]; del left[-x[1]:]
                if vs != w: raise Wrong('coefficients %d.. come back as %s instead of %s' % (len(left), [T.show(toP(v)) for v in vs], [T.show(v) for v in w]))
            else:
                _, degree, dirs = x
                self.n += 1
                p = D.array(st, 'r%d' % self.n, [ZERO] * (degree * dirs))
                self.call('get_taylors_p', p, degree, dirs)
                k = (degree - 1) * dirs + 1
                w = left[-k:]; del left[-k:]
                exp = []
                for d in range(dirs): exp += [w[0]] + w[1 + d * (degree - 1):1 + (d + 1) * (degree - 1)]
                vs = [D.at_(st, p, j) for j in range(degree * dirs)]
                if vs != exp: raise Wrong('coefficients %d.. come back as %s instead of %s' % (len(left), [T.show(toP(v)) for v in vs], [T.show(v) for v in exp]))
        self.call('end_sweep')

def D_mode(h): return toP(h.D.getf(h.st, 'tapeInfos_', 'workMode'))

# ------------------------------------------------------------------ instances
def lcg(seed):
    x = seed * 2654435761 % (1 << 32) or 1
    while True:
        x = (x * 1103515245 + 12345) % (1 << 31)
        yield x >> 8

def ops(n, seed, maxl=4, big=None):
    g = lcg(seed)
    out = []
    for i in range(n):
        nl, nv, nt = next(g) % (maxl + 1), (0, 0, 1, 1, 2, 3)[next(g) % 6], next(g) % 2
        if big and i % big == big - 1: nl = 10 + next(g) % 8
        out.append((nl, nv, nt))
    return out

def tape_instances():
    for k in range(6 if THOROUGH else 1): yield from tape_block(1000 * k)

def tape_block(i):
    # every fill level of every buffer, in core, on files by overflow, on files by request
    for OB in (3, 4, 5, 6, 7, 9, 13, 40, 400):
        for k in range(3):
            i += 1
            VB = (5, 6, 7, 8, 9, 10, 12, 17, 300)[(i * 4) % 9]
            LB = 56 + (i * 5) % 19 if i % 4 else 400
            yield dict(sizes=(OB, LB, VB, 50), n=(36, 50, 22)[k], seed=i, flag=i % 2, store=(1, 3, 7, 12, 26)[i % 5], params=(0, 0, 1, 3, 11, 25)[(i // 2) % 6], maxl=4, big=None)
    for LB in range(57, 75):
        i += 1
        yield dict(sizes=(5 + i % 4, LB, 6 + i % 5, 50), n=30 + i % 7, seed=i, flag=i % 2, store=1 + i % 3, params=i % 3, maxl=8 if i % 3 else 4, big=None)
    for LB in (72, 76, 80, 84):
        i += 1
        yield dict(sizes=(7, LB, 9, 50), n=30, seed=i, flag=i % 2, store=2, params=0, maxl=3, big=5)
    for VB in range(5, 13):
        for P in (0, 1, VB - 1, VB, VB + 1, 2 * VB, 2 * VB + 3):
            i += 1
            yield dict(sizes=(8, 70 if i % 2 else 300, VB, 50), n=4 + i % 9, seed=i, flag=i % 2, store=1 + i % (2 * VB), params=P, maxl=3, big=None)

def tape_run(h, x):
    seq = ops(x['n'], x['seed'], x['maxl'], x['big'])
    # some of the recordings are made with buffers of their own size
    other = tuple(v + 7 + x['seed'] % 3 for v in x['sizes'])
    k = x['seed'] % 5
    h.record(seq, flag=x['flag'], store=x['store'], params=x['params'], explicit=other if k in (0, 3) else None)
    if x['seed'] % 3 == 0:
        h.reverse(); h.set_params(); h.forward(); h.forward()
    else:
        h.forward(); h.set_params(); h.reverse(); h.reverse()
    # the tape is recorded again
    seq = ops(x['n'] // 2 + 3, x['seed'] + 1000, x['maxl'], x['big'])
    h.record(seq, flag=(x['flag'] + x['seed'] // 2) % 2, store=x['store'], params=x['params'] // 2, explicit=other if k in (0, 1) else None)
    h.forward(); h.reverse()

def stack_instances():
    i = 0
    pops = [[('s',)], [('v', 1), ('v', 2), ('v', 3)], [('v', 5), ('s',)], [('p', 3, 2), ('s',), ('v', 2)], [('p', 2, 3)], [('v', 9), ('s',), ('v', 4)]]
    kinds = [[('s',)], [('b', 3)], [('v', 4), ('s',)], [('t', 2, 3, 2)], [('b', 7), ('s',), ('v', 2)], [('t', 3, 3, 1), ('v', 11), ('s',)]]
    for TB in (1, 2, 3, 4, 5, 7, 8, 11):
        for tot in range(4 * TB + 3) if THOROUGH else sorted({0, 1, TB - 1, TB, TB + 1, 2 * TB - 1, 2 * TB, 2 * TB + 1, 3 * TB, 4 * TB + 2}):
            i += 1
            yield dict(TB=TB, tot=tot, kinds=kinds[i % len(kinds)], pops=pops[(i // 2) % len(pops)], seed=i)
def fill(kinds, tot):
    out, n, i = [], 0, 0
    size = lambda x: 1 if x[0] == 's' else x[1] if x[0] in 'vb' else x[1] * x[3]
    while n < tot:
        x = kinds[i % len(kinds)]
        i += 1
        if n + size(x) > tot: x = ('s',)
        out.append(x); n += size(x)
    return out
def stack_run(h, x):
    k = x['seed'] % 3
    other = h.sizes[:3] + (h.sizes[3] + 2,)
    h.record([(1, 0, 0)], flag=x['seed'] % 2, store=1, explicit=other if k == 0 else None)
    seq = fill(x['kinds'], x['tot'])
    h.taylor_forward(seq, 1)
    h.taylor_reverse(x['pops']); h.taylor_reverse(x['pops'])
    seq = fill(x['kinds'][::-1], x['tot'] // 2 + 1)
    h.taylor_forward(seq, 0)
    h.taylor_reverse([('s',)])
    if k == 1: h.record([(1, 0, 0)], flag=x['seed'] % 2, store=1, explicit=other)
    if k == 0: h.record([(1, 0, 0)], store=1)
    h.taylor_forward(fill([('s',)], x['tot']), 0)
    h.taylor_reverse(x['pops'])

def keep_instances():
    i = 0
    for TB in (2, 3, 4, 5, 8, 60):
        for n in (0, 1, 2, 5, 9, 14):
            for store in (1, 3):
                i += 1
                yield dict(TB=TB, n=n, store=store, seed=i)
def keep_run(h, x):
    seq = ops(x['n'], x['seed'])
    k = x['seed'] % 3
    other = h.sizes[:3] + (h.sizes[3] + 1,)
    h.record(seq, keep=1, flag=x['seed'] % 2, store=x['store'], explicit=other if k == 0 else None)
    h.taylor_reverse([('s',)]); h.taylor_reverse([('s',), ('v', 2)])
    h.record(ops(x['n'] + 2, x['seed'] + 50), keep=1, flag=x['seed'] % 2, store=x['store'], explicit=other if k == 1 else None)
    h.taylor_reverse([('v', 2), ('s',)])
    h.forward()

def job(a):
    kind, x = a
    try:
        if kind == 'tape':
            h = Hist(CTX, *x['sizes'])
            run = tape_run
        else:
            h = Hist(CTX, 6 + x['seed'] % 5, 60 + x['seed'] % 9, 8, x['TB'])
            run = stack_run if kind == 'stack' else keep_run
    except Unsupported as ex:
        return a, 'undecided', str(ex), ''
    try:
        run(h, x)
    except (Broken, Wrong) as ex:
        return a, 'bad', str(ex), '; '.join(h.steps) + ' (in %s)' % ' < '.join(getattr(ex, 'path', [])[:4])
    except Unsupported as ex:
        return a, 'undecided', str(ex), '; '.join(h.steps)
    return a, 'ok', len(h.steps), h.n

def describe(kind, x):
    if kind == 'tape':
        return 'buffers of %d operations, %d locations, %d values; %d operations, %d live variables, %d parameters, %s' % (
            x['sizes'][0], x['sizes'][1], x['sizes'][2], x['n'], x['store'], x['params'], 'on files' if x['flag'] else 'files when a buffer is full')
    if kind == 'stack':
        return 'Taylor buffer of %d, %d coefficients written as %s and read as %s' % (x['TB'], x['tot'], x['kinds'], x['pops'])
    return 'Taylor buffer of %d, %d operations recorded with keep, %d live variables' % (x['TB'], x['n'], x['store'])

def run_all(rep, kinds):
    und = 0
    with ProcessPoolExecutor(8) as ex:
        for a, status, info, more in ex.map(job, kinds, chunksize=4):
            kind, x = a
            text = describe(kind, x)
            if status == 'undecided':
                rep.skip(text, '%s: %s' % (text, info)); und += 1
                continue
            key = '%s:%s' % (kind, text)
            rep.count(kind)
            rep.check(status == 'ok', key, '%s: %s after %s' % (text, info, more) if status == 'bad' else text, sample=text)
    return und

# ------------------------------------------------------------------ the readers
def events(st, kinds):
    return [e for e in st.events if e and e[0] in kinds]

def readers(rep, C):
    """marks of the tape and the protocol of a sweep in every evaluator"""
    names, codes = C.names, C.codes
    for name in CX.SWEEPS:
        try: S = C.sweep(name, **std_params(name))
        except (AnalysisBroken, Unsupported) as ex:
            rep.skip('reader:' + name, ex); continue
        d = 'r' if S.reverse else 'f'
        expect = {'end_of_op': [('block', 'get_op_block_' + d), ('opread',)], 'end_of_int': [('block', 'get_loc_block_' + d)], 'end_of_val': [('block', 'get_val_block_' + d)]}
        if S.reverse: expect['end_of_tape'] = [('block', 'discard_params_r')]
        for op, exp in expect.items():
            s = S.section(codes[op])
            if s.err or s.st is None:
                if s.err == 'missing' or s.err is None: rep.check(False, 'reader:%s:%s' % (name, op), '%s does not handle %s' % (name, op))
                else: rep.skip('reader:%s:%s' % (name, op), s.err)
                continue
            got = [tuple(e[:2]) if e[0] == 'block' else ('opread',) for e in events(s.st, ('block', 'opread'))]
            rep.count('marks')
            rep.check(got == exp and not s.rets, 'reader:%s:%s' % (name, op), '%s: %s at %s does %s instead of %s' % (name, op, s.line, [x[-1] for x in got], [x[-1] for x in exp]),
                      sample='%s: %s at %s does %s' % (name, op, s.line, [x[-1] for x in got]))

def c13():
    global CTX
    rep = Report('C13', 'abstract interpretation of the storage code of the tape over histories of recordings and sweeps')
    rep.rule('history', 'for buffer sizes around every fill level, operations, locations, values, live variables and parameters read back by forward and reverse sweeps are the ones that were put, '
             'after recording in core, on files by overflow and on files by request, after recording again and after new parameter values; positions, counters and file offsets are computed exactly, contents are symbols')
    rep.rule('memory', 'no access of the storage code outside of a buffer, to a closed or null file or to data that was never written')
    rep.rule('reader', 'each evaluator answers end_of_op, end_of_int, end_of_val and end_of_tape with exactly the block function of its direction')
    C = Ctx(sweeps=list(CX.SWEEPS), rec=False, extra=FILES)
    CTX = C
    run_all(rep, [('tape', x) for x in tape_instances()])
    readers(rep, C)
    rep.floor(60)
    return rep.finish()

def c14():
    global CTX
    rep = Report('C14', 'abstract interpretation of the Taylor stack over histories of pushes and pops')
    rep.rule('stack', 'for Taylor buffers around every fill level the coefficients popped by get_taylor, get_taylors and get_taylors_p are the ones pushed by write_scaylor, write_scaylors, write_taylor and write_taylors, '
             'last first, for repeated reverse sweeps and repeated forward sweeps, in core and over files')
    rep.rule('keep', 'the values saved while recording with keep, including those of the live variables, come back in reverse order')
    rep.rule('memory', 'no access of the storage code outside of a buffer, to a closed or null file or to data that was never written')
    CTX = Ctx(sweeps=['zos_forward', 'fos_reverse'], rec=False, extra=FILES)
    run_all(rep, [('stack', x) for x in stack_instances()] + [('keep', x) for x in keep_instances()])
    rep.floor(40)
    return rep.finish()

FILES = ['tape_interface.cpp', 'valuetape/valuetape.cpp']
CHECKS = {'C13': c13, 'C14': c14}
