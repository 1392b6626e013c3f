import sys
sys.setrecursionlimit(10000)
from spec import *
import load
from load import Loader
import time
L=Loader(ext=True)
m=L.module("philtorch.lti.recur")
def H(name,a,init,x,B,N):
    return new_rec(name,(B,N),1,lambda i: a(i)*app(S[0],(i[0],i[1]-1))+x(i), lambda i:init(i))
def f(akind,ikind,real=True):
    def run():
        B=size("B");N=size("N")
        a=arg("a",() if akind==0 else (B,) if akind=='B' else (1,),real); init=arg("init",() if ikind==0 else (B,) if ikind=='B' else (1,),real); x=arg("x",(B,N),real)
        y=m._scalar_recursion_loop(a,init,x) if akind else m._scalar_recursion_loop(a,init,x)
        A=lambda b: a.at(() if akind==0 else (b,) if akind=='B' else (ZERO,))
        I=lambda b: init.at(() if ikind==0 else (b,) if ikind=='B' else (ZERO,))
        s=new_rec("H",(B,N),1,None,None,real)
        s.rule=lambda i: A(i[0])*app(s,(i[0],i[1]-1))+x.at(i)
        s.init=lambda i: I(i[0])
        ensures(y,(B,N),lambda i: app(s,i),"h",real)
    return run
for ak in ('B',1):
  for ik in ('B',1):
    t=time.time(); print(ak,ik,run_obligation(f(ak,ik)),time.time()-t)
