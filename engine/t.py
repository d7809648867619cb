import sys
from program import Program
from absint import *
P=Program('/verif/build/dump/'+sys.argv[1])
f=P.find(sys.argv[2])
E=Engine(P, sync=sys.argv[1]=='sync', panics='-np' not in sys.argv)
import time; t=time.time()
ps=E.run(f, E.args_for(f))
print(len(ps), E.steps, time.time()-t)
for p in ps[:int(sys.argv[3]) if len(sys.argv)>3 else 20]:
    print("---", p.kind, p.value if p.value is not None else p.info)
    for k,v in p.facts.items():
        if isinstance(k,T): print("   F", k, '=', v)
    for e in p.events: print("   E", e)
print(E.unmodelled)
