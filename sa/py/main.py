import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(200000)
import threading
from load import AnalysisBroken

def run():
    global rc
    pid = sys.argv[1]
    import checks
    try:
        rc = checks.run(pid)
    except AnalysisBroken as ex:
        print('ANALYSIS-BROKEN %s: %s' % (pid, ex))
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 3
rc = 3
threading.stack_size(512 * 1024 * 1024)
t = threading.Thread(target=run)
t.start(); t.join()
sys.stdout.flush()
os._exit(rc)
