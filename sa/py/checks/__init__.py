import importlib, os
from load import AnalysisBroken
def run(pid):
    for n in sorted(os.listdir(os.path.dirname(__file__))):
        if n.endswith('.py') and not n.startswith('_'):
            m = importlib.import_module('checks.' + n[:-3])
            if pid in getattr(m, 'CHECKS', {}):
                return m.CHECKS[pid]()
    raise AnalysisBroken('no check for ' + pid)
