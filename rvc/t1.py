import time,sys
from alg import *; import sx, cxx
from sx import *
from elemapi import *
t=time.time()
P=cxx.Program(["Manifolds/Manifold.cpp","Manifolds/Stiefel.cpp","Manifolds/Element.cpp"])
print("load",time.time()-t)
def mk(rt): rt.elemapi=ElemAPI()
def body(rt):
    n,p=var("n",isint=True),var("p",isint=True)
    X=sym("X",n,p); add_rule((letter(X,1),letter(X)),M.eye(p))
    x=Elem(n,p,m=M.sym(X)); x.name="x"
    Z=sym("Z",n,p)
    e=Elem(n,p,m=M.sym(Z)); 
    o=Obj("Stiefel",rt,n=n,p=p,IsIntrApproach=False,EMPTYEXTR=Elem(n,p))
    res=Elem(n,p)
    fn=P.lookup("Stiefel","ExtrProjection")[0]
    rt.run(fn,o,[x,e,Ptr(res)])
    r=res.val()
    print(r)
    if not ((x.val().T*r)+(r.T*x.val())).iszero(): raise Fail("not tangent")
t=time.time()
for r in explore(P,body,mk=mk): print(r.status,r.msg,r.pc,r.used,r.inlined)
def body2(rt):
    n,p=var("n",isint=True),var("p",isint=True)
    X=sym("X",n,p); add_rule((letter(X,1),letter(X)),M.eye(p))
    Om=sym("Om",p,p,symm=-1); Nn=sym("N",n,p); add_rule((letter(X,1),letter(Nn)),M.zero(p,p))
    eps=var("eps",sq={})
    x=Elem(n,p,m=M.sym(X)); x.name="x"
    e=Elem(n,p,m=(M.sym(X)*M.sym(Om)+M.sym(Nn)).scale(eps)); 
    o=Obj("Stiefel",rt,n=n,p=p,IsIntrApproach=False,EMPTYEXTR=Elem(n,p))
    res=Elem(n,p)
    fn=P.lookup("Stiefel","PolarRetraction")[0]
    rt.run(fn,o,[x,e,Ptr(res)])
    print(res.val())
for r in explore(P,body2,mk=mk): print(r.status,r.msg,r.pc,r.used,r.inlined)
print(time.time()-t)
