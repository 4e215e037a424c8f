"""Shared context of a check run: the program, the operation table, the corpus."""
import os, sys
sys.setrecursionlimit(200000)
import load, sweep, model, record
import terms as T
from terms import num
from load import AnalysisBroken

SRC = 'ADOL-C/src/'
# the interpreters, by public entry point: translation unit, mode family
SWEEPS = {
    'zos_forward': 'zos_forward', 'zos_pl_forward': 'zos_pl_forward',
    'fos_forward': 'fos_forward', 'fos_pl_forward': 'fos_pl_forward', 'fos_pl_sig_forward': 'fos_pl_sig_forward',
    'fov_forward': 'fov_forward', 'fov_offset_forward': 'fov_offset_forward', 'fov_pl_forward': 'fov_pl_forward',
    'fov_pl_sig_forward': 'fov_pl_sig_forward',
    'hos_forward': 'hos_forward', 'hov_forward': 'hov_forward', 'hov_wk_forward': 'hov_wk_forward',
    'fos_reverse': 'fos_reverse', 'fos_pl_reverse': 'fos_pl_reverse', 'fos_pl_sig_reverse': 'fos_pl_sig_reverse',
    'fov_reverse': 'fov_reverse', 'fov_pl_reverse': 'fov_pl_reverse',
    'hos_ti_reverse': 'hos_reverse', 'hos_ov_reverse': 'hos_ov_reverse', 'hov_ti_reverse': 'hov_reverse',
    'int_forward_tight': 'int_forward_t', 'int_forward_safe': 'int_forward_s',
    'int_reverse_tight': 'int_reverse_t', 'int_reverse_safe': 'int_reverse_s',
    'indopro_forward_tight': 'indopro_forward_t', 'indopro_forward_safe': 'indopro_forward_s',
    'indopro_forward_absnormal': 'indopro_forward_pl',
    'nonl_ind_forward_tight': 'nonl_ind_forward_t', 'nonl_ind_forward_safe': 'nonl_ind_forward_s',
    'nonl_ind_old_forward_tight': 'nonl_ind_old_forward_t', 'nonl_ind_old_forward_safe': 'nonl_ind_old_forward_s',
    'tape_doc': 'tapedoc/tapedoc',
}
REC_FILES = ('adouble', 'advector', 'pdouble')
# helpers the sweeps call
SUPPORT = ('convolut.cpp', 'adalloc.cpp', 'storemanager.cpp', 'adolcerror.cpp', 'tape_interface.cpp')

def tu_of(sw): return SRC + SWEEPS[sw] + '.cpp'

class Ctx:
    def __init__(self, sweeps=(), rec=True, extra=(), all=False, witness=()):
        pk = os.environ.get('ADOLC_SA_PICKLE')     # development only
        if pk:
            import pickle
            self.prog = pickle.load(open(pk, 'rb'))
        else:
            want = {tu_of(s) for s in sweeps}
            if rec: want |= {SRC + f + '.cpp' for f in REC_FILES}
            want |= {SRC + e for e in extra}
            sup = {SRC + e for e in SUPPORT}
            self.prog = load.load(None if all else (lambda r: r in want or r in sup or r.startswith(SRC + 'valuetape/')), witness=witness)
            if not all:
                miss = want - set(self.prog.tus)
                if miss: raise AnalysisBroken('not part of the build: %s' % sorted(miss))
        self.names, self.codes = sweep.op_enum(self.prog)
        self._sw = {}
        self._corpus = {}

    def sweep_fn(self, name):
        tu = self.prog.tus.get(tu_of(name))
        if tu is None: raise AnalysisBroken('no translation unit for %s' % name)
        for f in tu.funcs:
            if f['q'] == name and sweep.find_dispatch(f) is not None: return tu, f
        # the dispatch loop may have moved into a helper
        raise AnalysisBroken('no interpreter loop found in %s' % name)

    def sweep(self, name, **params):
        k = (name, tuple(sorted(params.items())))
        S = self._sw.get(k)
        if S is None:
            tu, f = self.sweep_fn(name)
            pn = {tu.decls[i]['n'] for i in f['ps']}
            S = sweep.Sweep(self.prog, tu, f, self.names, {a: num(b) for a, b in params.items() if a in pn})
            self._sw[k] = S
        return S

    def corpus(self, **kw):
        k = tuple(sorted(kw.items()))
        c = self._corpus.get(k)
        if c is None:
            und = []
            c = self._corpus[k] = (model.corpus(self.prog, undecided=und, **kw), und)
        return c
