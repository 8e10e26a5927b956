import sys,time,os; sys.path.insert(0,'/verif')
from engine.vc import *
from engine import cparse
from engine.lib import LIB
from specs import world as w, mpi
from specs.reg import CONTRACTS
import specs.all
names=[a for a in sys.argv[1:] if a[0]!='-']
e0=Engine(CONTRACTS,LIB); e0.load_all()
for nm in names or list(CONTRACTS):
    c=CONTRACTS[nm]
    t=time.time()
    e=Engine(CONTRACTS,LIB,opts=dict(c.unit_opts)); e.tus,e.funcs=e0.tus,e0.funcs
    try:
        verify(e,c,w.world,int(os.environ['CASE']) if 'CASE' in os.environ else None)
    except (Unsupported,Unattachable) as x:
        print(nm,'!!',type(x).__name__,x)
        if '-t' in sys.argv: raise
    bad=[o for o in e.stats.obl if o.status!='proved']
    print('%-36s obl %d bad %d paths %d rets %s q %d %.1fs inl %s'%(nm,len(e.stats.obl),len(bad),e.stats.paths,e.rets,e.stats.queries,time.time()-t,sorted(e.stats.inlined)))
    seen={}
    for o in bad:
        seen[o.name]=seen.get(o.name,0)+1
        if seen[o.name]>3: continue
        print('    ',o.name,o.status,round(o.time,2),'line',o.line,o.detail[-70:])
        if '-m' in sys.argv and o.model is not None: print(o.goal, o.model)
