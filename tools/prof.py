import sys, cProfile, pstats, signal
sys.path.insert(0,'/verif'); sys.path.insert(0,'/repo')
from vf import run, api, core, shim
prop,name,pi,lim=sys.argv[1],sys.argv[2],int(sys.argv[3]),float(sys.argv[4])
api.load(prop); h=api.REG[prop][name]
import time
ex=core.Explorer((lambda c:h.fn(c)) if h.params[pi] is None else (lambda c:h.fn(c,h.params[pi])),budget=h.budget,deadline=time.time()+lim,feas=h.feas,max_depth=h.max_depth)
pr=cProfile.Profile(); pr.enable(); ex.run(shim.patcher); pr.disable()
print(ex.paths, len(ex.obls), ex.unsupported, {o.name:o.status for o in ex.obls if o.status!='proved'})
from vf import solve
print(dict(solve.STATS))
pstats.Stats(pr).sort_stats('cumtime').print_stats(28)
