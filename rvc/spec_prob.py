"""C16: EucGrad is the derivative of f and EucHessianEta the derivative of EucGrad, for every problem in the algebra's reach.

f is executed at X + eps*eta with eps^2 = 0: the coefficient of eps is the exact directional derivative of the cost the code
computes; it must equal <EucGrad(X), eta>. EucGrad executed at X + eps*eta gives the exact derivative of the gradient."""
from geo import *
import num


def at(m, name="x", cplx=False):
    e = elem(m, name, cplx)
    return e


def derivs(rt, o, X, eta, cplx=False, hess=True, mk=None, smooth=None, dirs=None):
    """X, eta: matrices (M) or lists of matrices (product). smooth(value, X) removes a nonsmooth part of the cost."""
    prod = isinstance(X, list)

    def point(t):
        if prod:
            p = Elem()
            p.elements = [at(x + e.scale(eps()) if t else x, "x%d" % i, cplx) for i, (x, e) in enumerate(zip(X, eta))]
            for q in p.elements:
                q.parent = p
            return p
        return at(X + eta.scale(eps()) if t else X, "x", cplx)

    def vec(v, nm):
        if prod:
            p = Elem()
            p.elements = [elem(m, nm, cplx) for m in v]
            return p
        return elem(v, nm, cplx)

    def blank():
        if prod:
            p = Elem()
            p.elements = [out(x.r, x.c, "result", cplx) for x in X]
            return p
        return out(X.r, X.c, "result", cplx)

    def vals(e):
        return [q.val() for q in e.elements] if prod else [e.val()]
    x, xe = point(False), point(True)
    before = vals(x)
    v = S.of(rt.tonum(reach(rt, o, "f", x)))
    for a, b in zip(vals(x), before):
        eq(rt, a, b, "the cost leaves the point unchanged")
    ve = S.of(rt.tonum(reach(rt, o, "f", xe)))
    if smooth:
        v, ve = smooth(v, x), smooth(ve, xe)
    g, ge = blank(), blank()
    r = reach(rt, o, "EucGrad", x, Ptr(g))
    G = vals(g)
    for a, b in zip(vals(x), before):
        eq(rt, a, b, "the gradient leaves the point unchanged")
    dd = S.of(0)
    for a, b in zip(G, eta if prod else [eta]):
        dd = dd + a.dot(b)
    eq(rt, num.epscoef(ve, 0), v, "the cost is evaluated at the same point")
    eq(rt, num.epscoef(ve, 1), dd, "EucGrad is the derivative of the cost")
    # a second evaluation gives the same gradient whatever the output held
    g2 = vec([M.sym(sym("junk%d" % i, m.r, m.c)) for i, m in enumerate(G)] if prod else M.sym(sym("junk", X.r, X.c)), "result")
    reach(rt, o, "EucGrad", x, Ptr(g2))
    for a, b in zip(vals(g2), G):
        eq(rt, a, b, "a repeated evaluation gives the same gradient")
    if not hess:
        return
    reach(rt, o, "EucGrad", xe, Ptr(ge))
    h = blank()
    e = vec(eta, "eta")
    reach(rt, o, "EucHessianEta", x, e, Ptr(h))
    for a, b, c, d in zip(vals(ge), vals(h), G, vals(e)):
        eq(rt, num.epscoef(a, 0), c, "the gradient is evaluated at the same point")
        eq(rt, b, num.epscoef(a, 1), "EucHessianEta is the derivative of EucGrad")
    for a, b in zip(vals(e), eta if prod else [eta]):
        eq(rt, a, b, "the direction is left unchanged")


def dims(rt, **kw):
    r = []
    for k, v in kw.items():
        d = newdim(k, pick(v))
        rt.dimfacts.append(Cond("<", S.of(0), d))
        r.append(d)
    return r


def vecD(p, name):
    z = sym(name, p, p, symm=1, num=lambda I: np.diag(I.rng.standard_normal(int(I.s(p)))))
    z.tags.add("diag")
    return ElemAPI().vecnew(M.sym(z))


from elemapi import ElemAPI


for cls, cplx in (("StieBrockett", False), ("CStieBrockett", True)):
    @ob("C16", cls + ": cost, gradient and Hessian", group="prob")
    def _(rt, cls=cls, cplx=cplx):
        n, p = dims(rt, n=[3, 4, 2], p=[2, 1, 2])
        B = M.sym(sym("B", n, n, symm=1))
        D = vecD(p, "D")
        D.cplx = cplx
        o = Obj(cls, rt, B=elem(B, "B", cplx), D=D, n=n, p=p)
        X, E = M.sym(sym("X", n, p)), M.sym(sym("E", n, p))
        derivs(rt, o, X, E, cplx)
        x = at(X, "x", cplx)
        eq(rt, S.of(rt.tonum(reach(rt, o, "f", x))), X.dot(B * X * D.val().D), cls + " cost is tr(X'B X D)")


@ob("C16", "EucQuadratic: cost, gradient and Hessian", group="prob")
def _(rt):
    n, = dims(rt, n=[3, 4, 2])
    A = M.sym(sym("A", n, n, symm=1))
    o = Obj("EucQuadratic", rt, A=elem(A, "A"))
    X, E = M.sym(sym("X", n, S.of(1))), M.sym(sym("E", n, S.of(1)))
    derivs(rt, o, X, E)


@ob("C16", "GrassRQ: cost, gradient and Hessian", group="prob")
def _(rt):
    n, p = dims(rt, n=[3, 4, 2], p=[2, 1, 2])
    B = M.sym(sym("B", n, n, symm=1))
    o = Obj("GrassRQ", rt, B=elem(B, "B"), n=n, p=p)
    derivs(rt, o, M.sym(sym("X", n, p)), M.sym(sym("E", n, p)))


@ob("C16", "ProdStieSumBrockett: cost, gradient and Hessian", group="prob")
def _(rt):
    n, p, m, q = dims(rt, n=[3, 4, 2], p=[2, 1, 2], m=[4, 3, 5], q=[1, 2, 3])
    B = [M.sym(sym("B%d" % i, k, k, symm=1)) for i, k in ((1, n), (2, n), (3, m))]
    D = [vecD(k, "D%d" % i) for i, k in ((1, p), (2, p), (3, q))]
    dom = Obj("MultiManifolds", rt)

    def stv(rt_, o_, a):
        a = [z.get() if isinstance(z, (Cell, FieldCell)) else z for z in a]
        r = a[3].to if isinstance(a[3], Ptr) else a[3]
        for u, w in zip(a[2].elements, list(r.elements)):
            w.setval(u.val().scale(S.of(rt_.tonum(a[1]))))
        return r
    dom.contracts["ScalarTimesVector"] = stv
    o = Obj("ProdStieSumBrockett", rt, B1=elem(B[0]), B2=elem(B[1]), B3=elem(B[2]), D1=D[0], D2=D[1], D3=D[2], n=n, p=p, m=m, q=q, Domain=Ptr(dom))
    X = [M.sym(sym("X%d" % i, a, b)) for i, a, b in ((1, n, p), (2, n, p), (3, m, q))]
    E = [M.sym(sym("E%d" % i, a, b)) for i, a, b in ((1, n, p), (2, n, p), (3, m, q))]
    derivs(rt, o, X, E)


@ob("C16", "SFRQLyapunov: cost, gradient and Hessian", group="prob")
def _(rt):
    n, p, k = dims(rt, n=[3, 4, 2], p=[2, 1, 2], Cp=[1, 2, 3])
    A, B = M.sym(sym("A", n, n, symm=1)), M.sym(sym("Mm", n, n, symm=1))
    C_ = M.sym(sym("Cc", n, k))
    o = Obj("SFRQLyapunov", rt, Aptr=Ptr(Obj("SparseMatrix", rt, M=A)), Mptr=Ptr(Obj("SparseMatrix", rt, M=B)), C=elem(C_, "C"), Cp=k, n=n, p=p)
    X = M.sym(sym("X", n, p))
    derivs(rt, o, X, M.sym(sym("E", n, p)))
    eq(rt, S.of(rt.tonum(reach(rt, o, "f", at(X)))), (X.T * A * X).dot(X.T * B * X) - (C_.T * X).dot(C_.T * X), "documented cost")


@ob("C16", "FRankEWeightApprox: cost, gradient and Hessian", group="prob")
def _(rt):
    m, n = dims(rt, m=[3, 2, 2], n=[2, 3, 4])
    A, W = M.sym(sym("A", m, n)), M.sym(sym("W", m * n, m * n, symm=1))
    o = Obj("FRankEWeightApprox", rt, A=elem(A), W=elem(W), m=m, n=n, r=S.of(1))
    derivs(rt, o, M.sym(sym("X", m, n)), M.sym(sym("E", m, n)))


def l1(e):
    return fn("l1", e.val() if isinstance(e, Elem) else e)


@ob("C16", "SphereTxRQ: cost, gradient and Hessian", group="prob")
def _(rt):
    d, = dims(rt, d=[3, 4, 2])
    Hh = M.sym(sym("Hess", d, d, symm=1))
    root = at(M.sym(sym("root", d, S.of(1))), "root")
    pr = Obj("Problem", rt)

    def isroot(e):
        e = rt.elemapi.elem(e)
        need(rt, e is root or (e.hasval() and e.val() is root.val()), "the Hessian is taken at the root point")

    def hv(rt_, o_, a):
        isroot(a[0])
        v = rt_.elemapi.elem(a[1]).val()
        r = rt_.elemapi.elem(a[2])
        r.setval(Hh * v)
        return r
    pr.contracts["HessianEta"] = hv
    mn = Obj("Manifold", rt)

    def metric(rt_, o_, a):
        isroot(a[0])
        return rt_.elemapi.elem(a[1]).val().dot(rt_.elemapi.elem(a[2]).val())

    def stv(rt_, o_, a):
        isroot(a[0])
        r = rt_.elemapi.elem(a[3])
        r.setval(rt_.elemapi.elem(a[2]).val().scale(S.of(rt_.tonum(a[1]))))
        return r
    mn.contracts.update({"Metric": metric, "ScalarTimesVector": stv})
    b = rt.decide(batom("ismin"))
    o = Obj("SphereTxRQ", rt, prob=Ptr(pr), mani=Ptr(mn), root=root, ismin=b, TmpTV=out(d, S.of(1), "TmpTV"))
    X = M.sym(sym("X", d, S.of(1)))
    derivs(rt, o, X, M.sym(sym("E", d, S.of(1))))
    v = X.dot(Hh * X)
    eq(rt, S.of(rt.tonum(reach(rt, o, "f", at(X)))), v if b else -v, "the quadratic form of the Hessian, negated when the largest eigenvalue is sought")


@ob("C16", "SphereSparsestVector: gradient of the cost away from kinks", group="prob")
def _(rt):
    m, n = dims(rt, m=[3, 4, 2], n=[2, 3, 2])
    o = Obj("SphereSparsestVector", rt, Q=elem(M.sym(sym("Q", m, n))), m=m, n=n)
    derivs(rt, o, M.sym(sym("X", n, S.of(1))), M.sym(sym("E", n, S.of(1))), hess=False)


for cls in ("StieSPCA", "FRankESparseApprox"):
    @ob("C16", cls + ": smooth part of the cost, gradient and Hessian", group="prob")
    def _(rt, cls=cls):
        n, p, m = dims(rt, n=[3, 4, 2], p=[2, 1, 2], m=[2, 3, 4])
        lam = var("lambda", nonneg=True)
        # the smooth part: absolute values enter the cost only through the weighted l1 norm, which is left out
        rt.over = {"fabs": lambda rt_, a: S.of(0)}
        if cls == "StieSPCA":
            o = Obj(cls, rt, B=elem(M.sym(sym("B", m, n))), n=n, m=m, p=p, **{"lambda": lam})
            X, E = M.sym(sym("X", n, p)), M.sym(sym("E", n, p))
        else:
            o = Obj(cls, rt, A=elem(M.sym(sym("A", m, n))), n=n, m=m, r=p, **{"lambda": lam})
            X, E = M.sym(sym("X", m, n)), M.sym(sym("E", m, n))
        derivs(rt, o, X, E)


def plumbing(rt, numgrad):
    """a problem whose derivative routines and domain are known only by contract: opaque linear maps"""
    n, d = dims(rt, n=[4, 5, 3], d=[2, 3, 1])
    one = S.of(1)
    intr = rt.decide(batom("domain.IsIntrApproach"))
    I_, X_ = M.sym(sym("Intr", d, n)), M.sym(sym("Extr", n, d))
    P, Hc = M.sym(sym("GradConv", n, n)), M.sym(sym("HessConv", n, n))
    g, Hn = M.sym(sym("egrad", n, one)), M.sym(sym("ehess", n, n))
    gn, Hnn = M.sym(sym("numgrad", n, one)), M.sym(sym("numhess", n, n))
    x = at(M.sym(sym("x", n, one)), "x")
    log = []
    E = rt.elemapi.elem
    dom = Obj("Manifold", rt)

    def isx(e):
        need(rt, E(e) is x, "every conversion is taken at the given point")

    def setres(a, m):
        r = E(a)
        r.setval(m, m.r, m.c)
        return r

    def put(f, k):
        def c(rt_, o_, a):
            return f(rt_, a)
        dom.contracts[k] = c
    put(lambda rt_, a: intr, "GetIsIntrinsic")
    put(lambda rt_, a: out(n, one, "EMPTYEXTR"), "GetEMPTYEXTR")
    put(lambda rt_, a: out(d, one, "EMPTYINTR"), "GetEMPTYINTR")
    put(lambda rt_, a: out(d if intr else n, one, "EMPTY"), "GetEMPTY")

    def egg(rt_, a):
        isx(a[0])
        v = E(a[1]).val()
        x.fields["EGrad"] = elem(v, "EGrad")
        return setres(a[3], P * v)

    def ehh(rt_, a):
        isx(a[0])
        log.append(("dir", E(a[1]).val()))
        return setres(a[4], Hc * E(a[2]).val())

    def oi(rt_, a):
        isx(a[0])
        return setres(a[2], I_ * E(a[1]).val())

    def oe(rt_, a):
        isx(a[0])
        return setres(a[2], X_ * E(a[1]).val())
    put(egg, "EucGradToGrad")
    put(ehh, "EucHvToHv")
    put(oi, "ObtainIntr")
    put(oe, "ObtainExtr")
    o = Obj("Problem", rt, Domain=Ptr(dom), NumGradHess=numgrad)

    def eg(rt_, o_, a):
        isx(a[0])
        return setres(a[1], g)

    def eh(rt_, o_, a):
        isx(a[0])
        return setres(a[2], Hn * E(a[1]).val())

    def neg(rt_, o_, a):
        isx(a[0])
        return setres(a[1], gn)

    def neh(rt_, o_, a):
        isx(a[0])
        return setres(a[2], Hnn * E(a[1]).val())
    o.contracts.update({"EucGrad": eg, "EucHessianEta": eh, "Problem::EucGrad": neg, "Problem::EucHessianEta": neh})
    return n, d, intr, I_, X_, P, Hc, (gn if numgrad else g), (Hnn if numgrad else Hn), x, o, log


for numgrad in (False, True):
    @ob("C16", "Problem::Grad composes gradient and conversions%s" % (" (numerical)" if numgrad else ""), group="prob")
    def _(rt, numgrad=numgrad):
        n, d, intr, I_, X_, P, Hc, g, Hn, x, o, log = plumbing(rt, numgrad)
        r = out(d if intr else n, S.of(1))
        reach(rt, o, "Grad", x, Ptr(r))
        eq(rt, r, I_ * (P * g) if intr else P * g, "Grad is the converted Euclidean gradient in the representation of the domain")

    @ob("C16", "Problem::HessianEta composes Hessian and conversions%s" % (" (numerical)" if numgrad else ""), group="prob")
    def _(rt, numgrad=numgrad):
        n, d, intr, I_, X_, P, Hc, g, Hn, x, o, log = plumbing(rt, numgrad)
        k = d if intr else n
        w = M.sym(sym("w", k, S.of(1)))
        e = elem(w, "etax")
        r = out(k, S.of(1))
        reach(rt, o, "HessianEta", x, e, Ptr(r))
        v = X_ * w if intr else w
        eq(rt, r, I_ * (Hc * (Hn * v)) if intr else Hc * (Hn * v), "HessianEta is the converted Euclidean Hessian action in the representation of the domain")
        eq(rt, log[0][1], v, "the conversion receives the extrinsic direction")
        eq(rt, e, w, "the direction is left unchanged")


@ob("C16", "Problem::EucHessianEta is exact for quadratic costs and zero for the zero direction", group="prob")
def _(rt):
    n, = dims(rt, n=[3, 4, 2])
    A = M.sym(sym("A", n, n, symm=1))
    b = M.sym(sym("b", n, S.of(1)))
    X = M.sym(sym("X", n, S.of(1)))
    zero = rt.decide(batom("zero direction"))
    E_ = M.sym(sym("E", n, S.of(1)))
    v = M.zero(n, S.of(1)) if zero else E_
    if not zero:
        rt.assume(Cond("<", S.of(0), E_.dot(E_)))
    E = rt.elemapi.elem
    x = at(X, "x")
    x.fields["EGrad"] = elem(A * X + b)
    dom = Obj("Manifold", rt)
    fpts = []

    def put(k, f):
        dom.contracts[k] = lambda rt_, o_, a: f(rt_, [z.get() if isinstance(z, (Cell, FieldCell)) else z for z in a])
    put("Metric", lambda rt_, a: E(a[1]).val().dot(E(a[2]).val()))
    put("GetEMPTYEXTR", lambda rt_, a: out(n, S.of(1), "EMPTYEXTR"))

    def stv(rt_, a):
        r = E(a[3])
        r.setval(E(a[2]).val().scale(S.of(rt_.tonum(a[1]))))
        return r

    def vlc(rt_, a):
        raise Fail("Euclidean gradients are not tangent vectors: the vector operations of the domain do not apply to them")
    put("ScalarTimesVector", stv)
    put("VectorLinearCombination", vlc)
    put("ScalarVectorAddVector", vlc)
    o = Obj("Problem", rt, Domain=Ptr(dom))

    def f(rt_, o_, a):
        y = E(a[0])
        fpts.append(y)
        return var("fval%d" % len(fpts))

    def eg(rt_, o_, a):
        y = E(a[0])
        need(rt, any(y is p for p in fpts) or y is x, "the cost is evaluated before the gradient at the same point")
        r = E(a[1])
        r.setval(A * y.val() + b)
        return r
    o.contracts.update({"f": f, "EucGrad": eg})
    r = out(n, S.of(1))
    e = elem(v, "etax")
    reach(rt, o, "EucHessianEta", x, e, Ptr(r))
    eq(rt, r, A * v, "the difference quotient of a linear gradient is exact")
    eq(rt, x, X, "the point is left unchanged")
    eq(rt, e, v, "the direction is left unchanged")
