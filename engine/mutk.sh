#!/bin/bash
# mutk.sh <csrc file> <python expr: s -> s> [filter] : obligations of the kernels on a changed copy
set -e
D=/tmp/mu/k$$; mkdir -p $D; cp -a /repo/philtorch /repo/setup.py $D/ 
python3 - "$D/philtorch/$1" "$2" <<'P'
import sys
f,e=sys.argv[1:3]
s=open(f).read(); t=eval(e,{"s":s})
assert t!=s,"no change"
open(f,"w").write(t)
P
cd /verif/engine; VERIF_REPO=$D timeout 600 python3-vt - "${3:-}" <<'P'
import sys
sys.path.insert(0,'.')
sys.argv=["x",sys.argv[1]]
import run,importlib,collections
m=importlib.import_module("contracts.kern")
c=collections.Counter(); ex={}
obs=[o for o in m.OBLIGATIONS if sys.argv[1] in o["name"]]
import multiprocessing as mp
run.OBS=obs
with mp.get_context("fork").Pool(6) as p:
    rs=p.map(run._go,range(len(obs)),chunksize=4)
for r in rs:
    c[r["status"]]+=1
    ex.setdefault(r["status"],(r["name"],r.get("detail","")[:160]))
print(dict(c)); [print("   ",k,v) for k,v in ex.items() if k!="proved"]
P
rm -rf $D
