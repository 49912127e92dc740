import sys,time
sys.path.insert(0,'/verif')
sys.setrecursionlimit(100000)
import importlib
from vc.ctx import Ctx
pid=sys.argv[1]
m=importlib.import_module('props.'+pid)
t=time.time()
cx=Ctx(pid); m.prove(cx)
for u in cx.units: print({k:v for k,v in u.items() if k!='failed'}, u['failed'][:5]); 
bad=cx.failed()
print(len(cx.results),'obls',len(bad),'failed',round(time.time()-t,1),'s trivially',getattr(cx,'trivially',0))
for r in bad[:6]: print({k:(str(v)[:700]) for k,v in r.items()})
from vc import prove as P
print(P.STATS.by,P.STATS.solver_s, cx.last.notes[:5], cx.last.assumed)
