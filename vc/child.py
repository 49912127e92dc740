"""child.py ID TIER SEED OUT: run the deductive part of one property, write JSON."""
import sys, os, json, time, threading, importlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(100000)
threading.stack_size(512 * 1024 * 1024)


def go():
    pid, tier, seed, out = sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4]
    from vc.ctx import Ctx
    from vc import prove as P
    m = importlib.import_module('props.' + pid)
    cx = Ctx(pid, tier, seed)
    t = time.time()
    m.prove(cx)
    units = []
    for u in cx.units:
        units.append({k: u[k] for k in ('function', 'status', 'obligations', 'wall_s', 'reason') if k in u})
    loops, notes, assumed = 0, [], []
    for e in cx.engines:
        loops += getattr(e, 'nloops', 0)
        notes += [n for n in e.notes if n not in notes]
        for a in e.assumed:
            if a not in assumed:
                assumed.append(a)
    res = {'results': cx.results, 'units': units, 'functions': cx.functions, 'by': P.STATS.by,
           'solver_s': round(P.STATS.solver_s, 2), 'assumptions': cx.assumptions + [str(a) for a in assumed],
           'trusted': cx.trusted + STD, 'unsupported': [u for u in units if u['status'] != 'ok'], 'loops': loops,
           'normal_form': getattr(cx, 'trivially', 0), 'notes': [str(n)[:300] for n in notes][:40]}
    with open(out, 'w') as f:
        json.dump(res, f, default=str)


STD = ['verifier: /verif/vc (symbolic executor over the clang 18 AST of the real sources, loop summariser, obligation printer)',
       'clang 18 front end (AST), z3 4.x API, cvc5 1.1.2',
       'double treated as real numbers; int and UINT arithmetic treated as mathematical integers',
       'OpenMP pragmas and timers dropped (sequential reading of parallel loops)',
       'models of the C++ standard library, MPI, PETSc and stdio calls in vc/models.py']

t = threading.Thread(target=go)
t.start()
t.join()
