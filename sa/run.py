"""python3 sa/run.py <ID> : decide one property on the current tree"""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(30000)
import threading
threading.stack_size(1 << 29)


def main():
    import lib
    pid = sys.argv[1]
    ck = lib.Check(pid)
    cks.append(ck)
    m = importlib.import_module('checks.' + pid.lower())
    ck.guard('analysis', m.run, ck)
    if not ck.obs:
        ck.bad('floor', 'the analysis produced no obligation at all')
    for _ in range(5):
        try:
            return ck.finish()
        except lib.TimeUp:
            pass
    return 2


rc = []
cks = []
t = threading.Thread(target=lambda: rc.append(main()))
t.start()
while t.is_alive():
    t.join(0.5)
    if cks and t.is_alive() and cks[0].watch():
        import ctypes, lib
        ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(t.ident), ctypes.py_object(lib.TimeUp))
        t.join(3)
sys.stdout.flush()
os._exit(rc[0] if rc else 2)
