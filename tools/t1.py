import sys,warnings; warnings.simplefilter("ignore")
sys.setrecursionlimit(3000)
sys.path.insert(0,'/verif')
import importlib,time
m=importlib.import_module('contracts.'+sys.argv[1])
from engine import core
for g in m.R.groups:
    if len(sys.argv)>2 and sys.argv[2] not in g.name: continue
    for lab,f in (("proof",g.proof),("bounded",g.bounded)):
        if f is None: continue
        t=time.time()
        try: r=core.explore(f,g.maxpaths)
        except Exception as e:
            import traceback
            tb=traceback.extract_tb(e.__traceback__)
            print(g.name,lab,"CRASH",type(e).__name__,str(e)[:300],["%s:%d"%(x.filename.split("/")[-1],x.lineno) for x in tb[-6:]]); continue
        print(g.name,lab,r.status(),"obs",len(r.obs),"paths",r.paths,"%.2fs z3 %d %.2fs"%(time.time()-t,r.z3calls,r.z3time))
        for o in r.failed[:5]: print("   FAIL",o.name,o.detail[:600], o.path)
        for u in sorted(set(r.unsupported))[:5]: print("   UNSUP",u[:400])
