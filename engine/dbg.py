import sys,run,z3
from core import *
P=run.Program(sys.argv[1])
lab=sys.argv[3]
class R(run.Runner):
    def obligation(self,I,label,c):
        n=len(self.fails)
        super().obligation(I,label,c)
        if label.startswith(lab) and sum(self.obl.get(label,[0,0,0])[1:])>0:
            print('COND',c); print(I.ex.dec, I.ex.keep, I.ex.depth, I.ex.solver.num_scopes())
            for p in I.ex.path_conds: print('  PC',str(p).replace('\n',' ')[:300])
            for p in I.ex.factlist:
                if has_quant(p): print('  Q',str(p).replace('\n',' ')[:300])
            ex=I.ex; ex.solver.set('timeout',20000); ex.solver.push(); ex.solver.add(z3.Not(c)); import time; t=time.time(); print(ex.solver.check(), ex.solver.reason_unknown(), time.time()-t); print(ex.solver.num_scopes(), len(ex.solver.assertions())); open('/tmp/q.smt2','w').write(ex.solver.to_smt2()); sys.exit()
r=R(P)
import time
root=[x for x in P.roots if x.endswith(sys.argv[2])][0]
loops=None
for _ in range(30):
    res=r.task(root,int(sys.argv[4]) if len(sys.argv)>4 else None,[[]],900,time.time()+900,loops=loops)
    loops=res['loops']
    if not res['err']: break
print(res['err'],res['where'])
