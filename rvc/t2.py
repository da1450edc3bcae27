import time,sys,traceback
from alg import *; import sx, cxx
from sx import *
from elemapi import *
import loops
from loops import LoopRT, BLAS
P=cxx.Program(["Manifolds/Manifold.cpp","Manifolds/Stiefel.cpp","Manifolds/Element.cpp"])
def mk(rt):
    rt.elemapi=ElemAPI(); rt.free.update(BLAS)
def setup(rt):
    n,p=var("n",isint=True),var("p",isint=True)
    rt.dimfacts+= [Cond("<",S.of(0),p),Cond("<=",p,n)]
    X=sym("X",n,p); add_rule((letter(X,1),letter(X)),M.eye(p))
    x=Elem(n,p,m=M.sym(X)); x.name="x"
    d=n*p-p*(p+1)/2
    o=Obj("Stiefel",rt,n=n,p=p,IsIntrApproach=False,EMPTYEXTR=Elem(n,p),IntrinsicDim=d,HasHHR=False)
    return n,p,d,X,x,o
def tan(n,p,X,nm="1"):
    Om=sym("Om"+nm,p,p,symm=-1); Nn=sym("N"+nm,n,p); add_rule((letter(X,1),letter(Nn)),M.zero(p,p))
    return M.sym(X)*M.sym(Om)+M.sym(Nn)
def call(rt,o,name,*a,cls="Stiefel"):
    return rt.run(P.lookup(cls,name)[0],o,list(a))
def qf(rt):
    n,p,d,X,x,o=setup(rt)
    e=Elem(n,p,m=tan(n,p,X)); res=Elem(n,p)
    call(rt,o,"qfRetraction",x,e,Ptr(res))
    r=res.val(); print("qf",r, (r.T*r))
def qf2(rt):
    n,p,d,X,x,o=setup(rt)
    e=Elem(n,p,m=tan(n,p,X).scale(var("eps",sq={}))); res=Elem(n,p)
    call(rt,o,"qfRetraction",x,e,Ptr(res))
    r=res.val(); print("qf eps",r)
def intr(rt):
    n,p,d,X,x,o=setup(rt)
    e=Elem(n,p,m=tan(n,p,X)); res=Elem(d,1); ex=Elem(n,p)
    call(rt,o,"ObtainIntrHHR",x,e,Ptr(res))
    print("intr",res.val())
    print(" norm", res.val().dot(res.val()), e.val().dot(e.val()), (res.val().dot(res.val())-e.val().dot(e.val())).iszero())
    call(rt,o,"ObtainExtrHHR",x,res,Ptr(ex))
    print("back",ex.val(), (ex.val()-e.val()).iszero())
def extr(rt):
    n,p,d,X,x,o=setup(rt)
    v=Elem(d,1,m=M.sym(sym("v",d,1))); ex=Elem(n,p); r2=Elem(d,1)
    call(rt,o,"ObtainExtrHHR",x,v,Ptr(ex))
    E=ex.val(); print("extr",E,"tangent",(x.val().T*E+E.T*x.val()).iszero())
    call(rt,o,"ObtainIntrHHR",x,ex,Ptr(r2))
    print("back",r2.val())
def diffqf(rt):
    n,p,d,X,x,o=setup(rt)
    e=Elem(n,p,m=tan(n,p,X)); y=Elem(n,p); z=Elem(n,p,m=tan(n,p,X,"2")); res=Elem(n,p); res2=Elem(n,p)
    call(rt,o,"qfRetraction",x,e,Ptr(y))
    y.name="y"
    call(rt,o,"DiffqfRetraction",x,e,y,z,Ptr(res),False)
    r=res.val(); 
    print("diffqf",r)
    print(" tangent",(y.val().T*r+r.T*y.val()).iszero())
for b in (qf,qf2,intr,extr,diffqf):
    t=time.time()
    for r in explore(P,b,mk=mk,rtcls=LoopRT): print(b.__name__,r.status,r.msg,r.pc,"%.2f"%(time.time()-t))
