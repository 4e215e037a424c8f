"""C19: threads share no mutable state.

Every object with static storage in the translation units of the library is
classified: immutable (const, or no use anywhere changes it), one per thread,
atomic, a process-wide setting that only its setters change -- or shared and
mutable, which is a violation.  The names of the files of a tape must depend on
an index that every thread draws for itself from an atomic counter, and library
functions with hidden static state must not be called.
"""
from ctx import Ctx
from report import Report
from load import AnalysisBroken

UNSAFE = {'strtok', 'asctime', 'ctime', 'gmtime', 'localtime', 'rand', 'srand', 'random', 'srandom', 'drand48', 'lrand48', 'srand48', 'tmpnam', 'tempnam',
          'setlocale', 'lgamma', 'readdir', 'getpwnam', 'getpwuid', 'ecvt', 'fcvt', 'l64a', 'hcreate', 'hsearch', 'putenv', 'setenv', 'unsetenv', 'chdir', 'umask'}
# process-wide settings, changed by their setters only
SETTINGS = {'adtl::adouble::numDir': {'adtl::setNumDir'},
            'adtl_hov::adouble::numDir': {'adtl_hov::setNumDir'}, 'adtl_hov::adouble::degree': {'adtl_hov::setDegree'},
            'adtl_hov::adouble::forward_mode': {'adtl_hov::setMode'}}

def subexprs(x):
    """all expression nodes below x, with the parent chain"""
    st = [x]
    while st:
        e = st.pop()
        yield e
        for c in e:
            if isinstance(c, list) and c:
                st.append(c)

def is_const(t):
    t = t.strip()
    if t.endswith('&'): return False
    if '*' in t: return t.rstrip().endswith('const')
    return t.startswith('const ') or t.endswith(' const')

def uses(tu, f, ids, const_ref):
    """(decl id, 'write' | 'address', location) for the uses of the given variables in a body that change them or may"""
    out = []
    def walk(e, ctx):
        if not isinstance(e, list) or not e: return
        k = e[0]
        if isinstance(k, list):
            for c in e: walk(c, 'read')
            return
        if k == 'ref':
            if len(e) > 2 and e[2] in ids and ctx != 'read': out.append((e[2], ctx, e[1]))
        elif k == 'cast': walk(e[4], 'read' if e[2] in ('LValueToRValue', 'ArrayToPointerDecay') and ctx != 'write' else ctx)
        elif k == 'mem': walk(e[2], 'read' if e[5] else ctx)
        elif k == 'idx': walk(e[2], ctx); walk(e[3], 'read')
        elif k == 'un': walk(e[3], 'write' if '++' in e[2] or '--' in e[2] else 'address' if e[2] == '&' else 'read')
        elif k == 'asg': walk(e[3], 'write'); walk(e[4], 'read')
        elif k in ('call', 'ctor'):
            q, m = (e[2], e[3])
            args = [c for c in e[4:] if isinstance(c, list)]
            for n, c in enumerate(args): walk(c, 'read' if const_ref(m, n) else 'address')
        elif k == 'mcall':
            xs = [c for c in e[5:] if isinstance(c, list)]
            # object of a member function: changed unless the function is const; a pointer is only read
            if xs: walk(xs[0], 'read' if e[3].startswith('_ZNK') or e[5] == 1 else 'write' if not e[2].endswith('operator->') else 'read')
            for n, c in enumerate(xs[1:]): walk(c, 'read' if const_ref(e[3], n) else 'address')
        elif k == 'return': walk(e[2] if len(e) > 2 else None, 'read' if not (f['rt'].rstrip().endswith('&') and not f['rt'].startswith('const ')) else 'address')
        elif k == 'decl':
            for d in e[2:]:
                t = tu.decls[d[0]]['t'] if isinstance(d, list) and d and d[0] in tu.decls else ''
                if isinstance(d, list) and len(d) > 1: walk(d[1], 'address' if t.rstrip().endswith('&') and not t.startswith('const ') else 'read')
        else:
            for c in e[1:]: walk(c, 'read')
    for c in f.get('inits') or []: walk(c, 'read')
    walk(f['body'], 'read')
    return out

def check(pid='C19'):
    rep = Report(pid, 'classification of every object with static storage, uses of each over the whole program; flow of the thread index into file names')
    cx = Ctx(all=True)
    prog = cx.prog
    rep.rule('static', 'every object with static storage defined or used in the library is const, never changed, thread_local, atomic, or a documented setting changed by its setter only')
    rep.rule('calls', 'no function of the C library with hidden static state is called')
    rep.rule('files', 'the names of the files of a tape are made from the tape and from an index drawn once per thread from an atomic counter')
    objs = {}
    for path, tu in prog.tus.items():
        for i, d in tu.decls.items():
            if d['k'] not in ('global', 'static'): continue
            w = tu.loc(d['l'])
            if 'ADOL-C/' not in w: continue
            key = (d['q'] or d['n']) if d['k'] == 'global' else d['n']
            o = objs.setdefault((key, w), {'d': d, 'ids': {}})
            o['ids'].setdefault(path, set()).add(i)
            if d.get('tls'): o['tls'] = True
        for g in tu.globals:
            if g['tls']:
                d = tu.decls.get(g['id'])
                if d:
                    o = objs.get(((d['q'] or d['n']), tu.loc(d['l'])))
                    if o: o['tls'] = True
    sig = {}
    for tu in prog.tus.values():
        for f in tu.funcs: sig.setdefault(f['m'], [tu.decls[p]['t'] if p in tu.decls else '' for p in f['ps']])
    def const_ref(m, n):
        """parameter n of this function cannot change its argument"""
        if m not in sig: return unknown(m)
        t = sig[m][n] if n < len(sig[m]) else ''
        return not t.rstrip().endswith('&') or t.startswith('const ')
    def unknown(m): return isinstance(m, str) and 'R' not in m.replace('RK', '')
    writers = {}
    done = set()
    nfun = 0
    for path, tu in prog.tus.items():
        ids = {}
        for key, o in objs.items():
            for i in o['ids'].get(path, ()): ids[i] = key
        for f in tu.funcs:
            fk = (f['m'], tu.loc(f['l']))
            if fk in done: continue
            done.add(fk); nfun += 1
            if ids:
                for i, how, l in uses(tu, f, ids, const_ref):
                    writers.setdefault(ids[i], []).append((f['q'], how, tu.loc(l)))
            for e in subexprs(f['body'] or []):
                if e[0] == 'call' and isinstance(e[2], str):
                    q = e[2]
                    if q.split('::')[-1] in UNSAFE and q.count('::') <= 1 and (q.startswith('std::') or '::' not in q):
                        rep.check(False, 'call:%s:%s' % (f['q'], q), '%s: %s calls %s, which keeps its state in an object shared by all threads' % (tu.loc(e[1]), f['q'], q))
                    else: rep.count('calls')
    rep.count('functions', nfun)
    rep.check(True, 'calls', '')
    for (key, w), o in sorted(objs.items()):
        t = o['d']['t']
        rep.count('objects')
        if o.get('tls') or is_const(t) or 'atomic' in t.split('<')[0]:
            rep.check(True, 'static:' + key, '', '%s (%s) %s' % (key, w, 'thread_local' if o.get('tls') else t)); continue
        ws = writers.get((key, w), [])
        if key in SETTINGS:
            bad = [x for x in ws if x[1] != 'address' and x[0] not in SETTINGS[key]]
            rep.check(not bad, 'static:' + key, lambda: '%s: the setting %s is changed outside its setter, in %s (%s)' % (w, key, bad[0][0], bad[0][2])); continue
        hard = [x for x in ws if x[1] == 'write']
        if ws and not hard:
            rep.skip('static:%s' % key, '%s: a reference to %s is given away in %s (%s)' % (w, key, ws[0][0], ws[0][2])); continue
        ws = hard
        rep.check(not ws, 'static:%s:%s' % (w.split(':')[0], key), lambda: '%s: %s (%s) is shared by all threads and changed: %s in %s (%s)' % (
            w, key, t, ws[0][1], ws[0][0], ws[0][2]), '%s (%s) never changed' % (key, w))
    files(prog, rep)
    rep.floor(40, 'objects')
    return rep.finish()

def files(prog, rep):
    """the string createFileName returns is built from the thread index and the tape id"""
    index = set()    # functions whose result is one number per thread: a thread_local variable initialised from an atomic read-modify-write
    for tu in prog.tus.values():
        for f in tu.funcs:
            if not f['body']: continue
            for e in subexprs(f['body']):
                if e[0] == 'return':
                    for r in subexprs(e[1:]):
                        if r and r[0] == 'ref' and len(r) > 2:
                            d = tu.decls.get(r[2])
                            if d and d.get('tls') and drawn(tu, f, r[2]): index.add(f['q'])
    rep.count('thread index functions', len(index))
    fs, seen = [], set()
    for tu in prog.tus.values():
        for f in tu.funcs:
            if f['q'].endswith('::createFileName') and f['body'] and f['m'] not in seen: seen.add(f['m']); fs.append((tu, f))
    if not fs: rep.skip('files', 'no createFileName'); return
    for tu, f in fs:
        for what, idx, s0 in (('the index of the thread, drawn from an atomic counter', index, set()), ('the number of the tape', set(), set(f['ps'][:1])), ('the kind of the file', set(), set(f['ps'][1:2]))):
            s1 = set(s0)
            for _ in range(8):
                n = len(s1)
                taint(tu, f, idx, s1)
                if len(s1) == n: break
            rets = [e for e in subexprs(f['body']) if e[0] == 'return']
            rep.check(bool(rets) and all(has(e, idx, s1) for e in rets), 'files:' + what.split(',')[0],
                      '%s: the file name %s returns does not depend on %s' % (tu.loc(f['l']), f['q'], what), '%s depends on %s' % (f['q'], what))

def drawn(tu, f, did):
    for e in subexprs(f['body']):
        if e[0] == 'decl':
            for d in e[2:]:
                if isinstance(d, list) and d[0] == did and isinstance(d[1], list):
                    for x in subexprs(d[1]):
                        if x and x[0] in ('mcall', 'call') and isinstance(x[2], str) and 'atomic' in x[2] and x[2].split('::')[-1] in ('fetch_add', 'fetch_sub', 'operator++', 'operator--'): return True
    return False

def has(e, index, seen):
    for x in subexprs(e):
        if not x: continue
        if x[0] == 'ref' and len(x) > 2 and x[2] in seen: return True
        if x[0] == 'call' and x[2] in index: return True
    return False

def base(e):
    for x in subexprs(e):
        if x and x[0] == 'ref' and len(x) > 2: return x[2]
    return None

def taint(tu, f, index, seen):
    for e in subexprs(f['body']):
        if not e: continue
        if e[0] in ('call', 'mcall') and has(e, index, seen):
            # the object or an argument that receives the others
            for c in e[3:]:
                if isinstance(c, list) and c:
                    b = base(c)
                    if b is not None and (tu.decls.get(b) or {}).get('k') in ('local', 'static'): seen.add(b)
        elif e[0] == 'asg' and has(e[4], index, seen):
            b = base(e[3])
            if b is not None: seen.add(b)
        elif e[0] == 'decl':
            for d in e[2:]:
                if isinstance(d, list) and len(d) > 1 and isinstance(d[1], list) and has(d[1], index, seen): seen.add(d[0])

CHECKS = {'C19': check}
