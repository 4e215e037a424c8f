"""Build/refresh the extractor, run it over /repo's current sources, load the IR."""
import hashlib, json, os, subprocess, sys, tempfile, shutil, fcntl, shlex
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
SA = os.path.dirname(HERE)
VERIF = os.path.dirname(SA)
REPO = os.environ.get('ADOLC_SA_REPO', '/repo')
CACHE = os.environ.get('ADOLC_SA_CACHE', os.path.join(VERIF, '.cache'))

class AnalysisBroken(Exception):
    """The analysis lost an anchor / could not parse: an error of the check,
    never a pass and never a violation."""

def _sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)

def tool():
    os.makedirs(CACHE, exist_ok=True)
    src = os.path.join(SA, 'extract', 'extract.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    exe = os.path.join(CACHE, 'extract-' + h)
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(exe):
            lib = '/usr/lib/llvm-18/lib'
            cmd = ['clang++', '-O0', '-std=c++17', '-fno-rtti', '-I/usr/lib/llvm-18/include',
                   '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS',
                   '-D_GNU_SOURCE', src, '-o', exe + '.tmp', lib + '/libclang-cpp.so.18.1', lib + '/libLLVM-18.so']
            r = _sh(cmd)
            if r.returncode:
                raise AnalysisBroken('cannot build the extractor:\n' + r.stdout[-3000:])
            os.rename(exe + '.tmp', exe)
    return exe

def compdb(scratch):
    bld = os.path.join(scratch, 'cfg')
    cmd = ['cmake', '-S', REPO, '-B', bld, '-G', 'Ninja', '-DCMAKE_C_COMPILER=/usr/bin/gcc',
           '-DCMAKE_CXX_COMPILER=/usr/bin/g++', '-DCMAKE_BUILD_TYPE=Debug', '-DBUILD_TESTS=OFF',
           '-DBUILD_INTERFACE=ON', '-DENABLE_SPARSE=ON', '-DColPack_DIR=/opt/vp/colpack-cmake',
           '-DENABLE_BOOST_POOL=ON', '-DENABLE_DOCEXA=OFF', '-DENABLE_ADDEXA=OFF',
           '-DFETCHCONTENT_FULLY_DISCONNECTED=ON', '-DCMAKE_EXPORT_COMPILE_COMMANDS=ON']
    r = _sh(cmd)
    f = os.path.join(bld, 'compile_commands.json')
    if r.returncode or not os.path.exists(f):
        raise AnalysisBroken('cmake configure failed:\n' + r.stdout[-3000:])
    out = {}
    for e in json.load(open(f)):
        out.setdefault(os.path.realpath(e['file']), shlex.split(e['command']))
    return out

def flags_of(cmd):
    fl, i = [], 1
    while i < len(cmd):
        a = cmd[i]
        if a.startswith(('-D', '-I', '-U')):
            fl.append(a)
            if a in ('-D', '-I', '-U'):
                i += 1; fl.append(cmd[i])
        elif a in ('-isystem', '-include'):
            fl += [a, cmd[i + 1]]; i += 1
        i += 1
    return fl + ['-std=c++20', '-w', '-resource-dir=/usr/lib/llvm-18/lib/clang/18']

class TU:
    def __init__(self, path, d):
        self.path = path
        self.files = d['files']
        self.decls = {int(k): v for k, v in d['decls'].items()}
        self.funcs = d['funcs']
        self.classes = [c for c in d['classes'] if 'q' in c]
        self.enums = [c for c in d['classes'] if 'enum' in c]
        self.globals = d['globals']
        self.bym = {f['m']: f for f in self.funcs}
        for f in self.funcs:
            f['tu'] = self
    def loc(self, l):
        i = l // 1000000
        p = self.files[i] if i < len(self.files) else '?'
        p = os.path.normpath(p)
        if p.startswith(REPO.rstrip('/') + '/'):
            p = p[len(REPO.rstrip('/')) + 1:]
        return '%s:%d' % (p, l % 1000000)
    def file_of(self, l):
        return self.loc(l).rsplit(':', 1)[0]

class Program:
    def __init__(self, tus):
        self.tus = tus
        self.bym = {}
        self.classes = {}
        self.enums = {}
        for t in tus.values():
            for f in t.funcs:
                if f['m'] not in self.bym and not f.get('internal'):
                    self.bym[f['m']] = f
            for c in t.classes:
                self.classes.setdefault(c['q'], (c, t))
            for e in t.enums:
                self.enums.setdefault(e['enum'], dict(e['vals']))
    def resolve(self, tu, mangled):
        """function record for a callee as seen from tu"""
        f = tu.bym.get(mangled)
        if f is None:
            f = self.bym.get(mangled)
        return f
    def all_functions(self):
        """each function once (TU-internal ones per TU)"""
        seen = set()
        for t in self.tus.values():
            for f in t.funcs:
                k = (f['m'], t.path if f.get('internal') else '')
                if k in seen:
                    continue
                seen.add(k)
                yield f

WITNESS = os.path.join(SA, 'witness')

def load(rel=None, verbose=False, witness=()):
    """rel: predicate on repo-relative path (None = all library TUs);
    witness: pairs (translation unit of ours that instantiates templates of the
    library, library TU whose flags it takes); left out if it does not parse."""
    exe = tool()
    scratch = tempfile.mkdtemp(prefix='adolc-sa-')
    try:
        db = compdb(scratch)
        jobs = []
        R = os.path.realpath(REPO)
        for f, c in sorted(db.items()):
            r = os.path.relpath(f, R)
            if rel is None or rel(r):
                jobs.append((f, r, c))
        for w, ref in witness:
            c = db.get(os.path.join(R, ref))
            if c: jobs.append((os.path.join(WITNESS, w), 'witness/' + w, c))
        if not jobs:
            raise AnalysisBroken('no translation units selected')
        def one(j):
            f, r, c = j
            out = os.path.join(scratch, r.replace('/', '__') + '.json')
            # a front end that fails for lack of resources gets another try
            for i in range(3):
                p = _sh([exe, REPO.rstrip('/') + '/', out, f, '--'] + flags_of(c))
                if p.returncode == 0 and os.path.exists(out): return r, out, p.stdout
            return r, None, p.stdout
        tus = {}
        with ThreadPoolExecutor(max_workers=8) as ex:
            for r, out, log in ex.map(one, jobs):
                if out is None and r.startswith('witness/'): continue
                if out is None:
                    raise AnalysisBroken('cannot parse %s:\n%s' % (r, log[-2000:]))
                tus[r] = TU(r, json.load(open(out)))
        return Program(tus)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

if __name__ == '__main__':
    p = load()
    print(len(p.tus), sum(len(t.funcs) for t in p.tus.values()))
