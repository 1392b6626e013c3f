import sys
sys.path.insert(0,'/verif/engine'); sys.setrecursionlimit(20000)
import importlib, spec, numev
import expr as X, regions
mod,name,sz=sys.argv[1],sys.argv[2],eval(sys.argv[3])
o=[o for o in importlib.import_module("contracts."+mod).OBLIGATIONS if o["name"]==name][0]
busy=[0]
def val(ts):
    if busy[0]: return None
    busy[0]=1
    try: 
        v=numev.Env(1).terms(ts.t if isinstance(ts,X.Expr) else ts,{}); return (v.a,v.b)
    except Exception as e: return None
    finally: busy[0]=0
bad=[0]
TR=len(sys.argv)>5
def wrap(fn,name,inp=lambda a:a[0],out=lambda r:r):
    def g(*a,**k):
        v=val(list(inp(a).t) if isinstance(inp(a),X.Expr) else list(inp(a)))
        r=fn(*a,**k)
        w=val(out(r))
        if TR: print(name, v is not None and w is not None and (v==w, v==(0,0)), list(inp(a).t if isinstance(inp(a),X.Expr) else inp(a)) , "-->", out(r))
        if v is not None and w is not None and v!=w and bad[0]<3:
            bad[0]+=1
            print("DIFF in",name,"\n  in ",inp(a).t if isinstance(inp(a),X.Expr) else inp(a),"\n  out",out(r))
        return r
    return g
X.normalize=wrap(X.normalize,"normalize")
X.unfold=wrap(X.unfold,"unfold",out=lambda r:r[0])
X.simp_term=wrap(X.simp_term,"simp_term",inp=lambda a:[a[0]],out=lambda r: r)if len(sys.argv)>4 else X.simp_term
regions.drop=wrap(regions.drop,"drop",inp=lambda a:a[1])
spec.CONCRETE[0]=sz
print(spec.run_obligation(o["fn"],60)[:2])
