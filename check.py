#!/opt/veriftools/pyvenv/bin/python3
"""check.py Cxx [quick|thorough]"""
import glob, importlib, os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [H + '/dwsa', H + '/dwsa/props']
sys.setrecursionlimit(300000)
import threading
threading.stack_size(512 * 1024 * 1024)


def main():
    import fw
    for m in sorted(glob.glob(H + '/dwsa/props/*.py')):
        importlib.import_module(os.path.basename(m)[:-3])
    pid = sys.argv[1]
    tier = (sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    global rc
    P = None
    if os.environ.get('DW_PICKLE'):
        import pickle
        f = os.environ['DW_PICKLE']
        if os.path.exists(f):
            P = pickle.load(open(f, 'rb'))
        else:
            import prog
            P = prog.Prog()
            pickle.dump(P, open(f, 'wb'))
    if pid == 'all':
        rc = 0
        for p in sorted(fw.PROPS):
            rc = max(rc, fw.run(p, tier, seed, P))
            sys.stdout.flush()
    else:
        rc = fw.run(pid, tier, seed, P)


rc = 2
t = threading.Thread(target=main)
t.start()
t.join()
sys.stdout.flush()
os._exit(rc)
