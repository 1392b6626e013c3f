# run every obligation of a module at random concrete sizes: nothing may be refuted on the unchanged tree
import sys,random,time
sys.path.insert(0,'/verif/engine'); sys.setrecursionlimit(20000)
import importlib, spec, run
mod=sys.argv[1]; n=int(sys.argv[2]); random.seed(int(sys.argv[3]) if len(sys.argv)>3 else 1)
obs=importlib.import_module("contracts."+mod).OBLIGATIONS
from collections import Counter
cnt=Counter()
for o in random.sample(obs,min(n,len(obs))):
    spec.SIZES.clear()
    spec.run_obligation(o["fn"],30)
    names=dict(spec.SIZES)
    cs=run.concrete_sizes(names,60)
    for sz in random.sample(cs,min(5,len(cs))):
        spec.CONCRETE[0]=sz
        t=time.time()
        try: r=spec.run_obligation(o["fn"],30)
        finally: spec.CONCRETE[0]=None
        cnt[r[0]]+=1
        if r[0]!="proved" and not (r[0]=="unsupported" and "vacuous" in r[1]):
            print(r[0],o["name"],sz,r[1][:400])
print(mod,cnt)
