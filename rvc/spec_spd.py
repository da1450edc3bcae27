"""Symmetric positive definite matrices, affine-invariant and Euclidean metrics. Every point is x = L L' with L its Cholesky factor."""
from geo import *
from spec_stiefel import g_elem
from spec_stiefel2 import beta_block
from elemapi import expsym

EUC, AF = 0, 1


def enums(prog):
    return {}


class Spd:
    canon = False

    def __init__(self, rt, cached=False, **cfg):
        self.rt = rt
        ns = [2, 3, 1, 4, 2, 3]
        self.n = n = newdim("n", lambda I: ns[I.seed % 6])
        rt.dimfacts += [Cond("<", S.of(0), n)]
        self.d = n * (n + 1) / 2
        self.L = self.low("L")
        self.x = elem(M.sym(self.L) * M.sym(self.L).T, "x")
        if cached:
            self.x.fields["_L"] = elem(M.sym(self.L), "_L")
        f = dict(n=n, IsIntrApproach=False, HasHHR=False, metric=S.of(AF), retr=S.of(SEC), VecTran=S.of(VTPARA),
                 EMPTYEXTR=out(n, n, "EMPTYEXTR"), EMPTYINTR=out(self.d, 1, "EMPTYINTR"), IntrinsicDim=self.d, ExtrinsicDim=n * n)
        for k, v in cfg.items():
            f[k] = S.of(v) if isinstance(v, int) and not isinstance(v, bool) else v
        self.euc = cfg.get("metric") == EUC
        self.o = Obj("SPDManifold", rt, **f)

    def low(self, nm):
        def num(I):
            a = np.tril(I.rng.standard_normal((int(I.s(self.n)),) * 2), -1)
            return a + np.diag(0.5 + I.rng.random(int(I.s(self.n))))
        L = sym(nm, self.n, self.n, num=num)
        L.tags.add("lowerpos")
        return L

    def tan(self, tag="1"):
        return M.sym(sym("S" + tag, self.n, self.n, symm=1))

    def amb(self, tag="Z"):
        return M.sym(sym(tag, self.n, self.n))

    def e(self, m, name=""):
        return elem(m, name)

    def res(self, name="result"):
        return out(self.n, self.n, name)

    def istan(self, m, what):
        eq(self.rt, m, m.T, what + ": result is tangent (symmetric)")

    def metric(self, a, b, X=None):
        if self.euc:
            return a.dot(b)
        L = M.sym(self.L)
        if X is not None and not X.same(self.x.val()):
            Xi = inverse(X)
            return (Xi * a * Xi).dot(b)
        Li = inverse(L)
        return (Li * a * Li.T).dot(Li * b * Li.T)

    def call(self, name, *a, **k):
        return reach(self.rt, self.o, name, *a, **k)


EXP, SEC = 0, 1
PTRAN, VTPARA = 0, 1
METS = (("AFFINV", AF), ("EUCLIDEAN", EUC))


@ob("C04", "SPDManifold::ExtrProjection and Projection")
def _(rt):
    g = Spd(rt)
    z, r, r2 = g.amb(), g.res(), g.res()
    g.call("ExtrProjection", g.x, g.e(z), Ptr(r))
    v = r.val()
    g.istan(v, "ExtrProjection")
    t = g.tan("t")
    eq(rt, (z - v).dot(t), 0, "the removed part is orthogonal to every symmetric matrix")
    g.call("ExtrProjection", g.x, g.e(t), Ptr(r2))
    eq(rt, r2, t, "tangent vectors are left unchanged")
    e = g.e(z)
    g.call("ExtrProjection", g.x, e, Ptr(e))
    eq(rt, e, v, "ExtrProjection with result = input")
    g.call("Projection", g.x, g.e(z), Ptr(r2))
    eq(rt, r2, v, "Projection (extrinsic mode) is the orthogonal projection")
    g = Spd(rt, IsIntrApproach=True)
    w = M.sym(sym("v", g.d, 1))
    r = out(g.d, 1)
    g.call("Projection", g.x, elem(w), Ptr(r))
    eq(rt, r, w, "Projection (intrinsic mode) keeps intrinsic vectors")


@ob(("C04", "C06", "C08"), "SPDManifold::Metric")
def _(rt):
    for cached in (False, True):
        g = Spd(rt, cached=cached)
        a, b = g.tan("1"), g.tan("2")
        eq(rt, g.call("Metric", g.x, g.e(a), g.e(b)), g.metric(a, b), "affine-invariant metric tr(x^-1 a x^-1 b)")
        g = Spd(rt, metric=EUC)
        eq(rt, g.call("Metric", g.x, g.e(a), g.e(b)), a.dot(b), "Euclidean metric")


def retract(rt, g, eta, mode, cached=True):
    r = g.res("y")
    if mode == "intrinsic":
        v = elem(M.sym(sym("v", g.d, 1)), "v")

        def contract(rt_, o, a):
            need(rt_, g_elem(a[0]) is g.x and g_elem(a[1]) is v, "ObtainExtr is applied to the base point and the given vector")
            g_elem(a[2]).setval(eta)
            return g_elem(a[2])
        for nm in ("ObtainExtr", "ObtainExtrAF", "ObtainExtrEuc"):
            g.o.contracts[nm] = contract
        e = v
    else:
        e = g.e(eta, "eta")
    g.call("Retraction", g.x, e, Ptr(r))
    return r


for mode in ("extrinsic", "intrinsic"):
    for cached in (False, True):
        @ob("C05", "SPDManifold::Retraction SECONDORDER %s%s" % (mode, ", cached factor" if cached else ""))
        def _(rt, mode=mode, cached=cached):
            g = Spd(rt, retr=SEC, cached=cached, IsIntrApproach=mode == "intrinsic")
            eta = g.tan("1")
            y = retract(rt, g, eta, mode)
            X, L = g.x.val(), M.sym(g.L)
            W = inverse(L) * (X + eta)
            eq(rt, y, (X + W.T * W).scale(S.const(Fraction(1, 2))), "y = (x + W'W)/2 with W = L^-1 (x + eta): positive definite")

        @ob("C05", "SPDManifold::Retraction SECONDORDER %s%s: first order" % (mode, ", cached factor" if cached else ""))
        def _(rt, mode=mode, cached=cached):
            g = Spd(rt, retr=SEC, cached=cached, IsIntrApproach=mode == "intrinsic")
            eta = g.tan("1").scale(eps())
            y = retract(rt, g, eta, mode)
            d0d1(rt, y.val(), g.x.val(), g.tan("1") if False else coeff(eta, 1), "second-order retraction agrees with x + eta to first order")

        @ob("C05", "SPDManifold::Retraction EXP %s%s" % (mode, ", cached factor" if cached else ""))
        def _(rt, mode=mode, cached=cached):
            g = Spd(rt, retr=EXP, cached=cached, IsIntrApproach=mode == "intrinsic")
            eta = g.tan("1")
            y = retract(rt, g, eta, mode)
            L = M.sym(g.L)
            eq(rt, y, L * expsym(inverse(L) * eta * inverse(L).T) * L.T, "y = L exp(L^-1 eta L^-T) L' : positive definite")

        @ob("C05", "SPDManifold::Retraction EXP %s%s: first order" % (mode, ", cached factor" if cached else ""))
        def _(rt, mode=mode, cached=cached):
            g = Spd(rt, retr=EXP, cached=cached, IsIntrApproach=mode == "intrinsic")
            eta = g.tan("1").scale(eps())
            y = retract(rt, g, eta, mode)
            d0d1(rt, y.val(), g.x.val(), coeff(eta, 1), "exponential map agrees with x + eta to first order")

for mname, mv in METS:
    @ob("C06", "SPDManifold::EucGradToGrad " + mname)
    def _(rt, mv=mv):
        g = Spd(rt, metric=mv)
        G0, r = g.tan("G"), g.res()
        g.call("EucGradToGrad", g.x, g.e(G0, "egf"), Ptr(prob(rt)), Ptr(r))
        v = r.val()
        g.istan(v, "EucGradToGrad")
        t = g.tan("t")
        eq(rt, g.metric(v, t), G0.dot(t), "<grad, xi>_x = <egf, xi> for every tangent xi")
        e = g.e(G0, "egf")
        g.call("EucGradToGrad", g.x, e, Ptr(prob(rt)), Ptr(e))
        eq(rt, e, v, "EucGradToGrad with result = input")

    @ob("C07", "SPDManifold::EucHvToHv " + mname)
    def _(rt, mv=mv):
        g = Spd(rt, metric=mv)
        G0, E, r = g.tan("G"), g.tan("E"), g.res()
        eta, z = g.tan("1"), g.tan("z")
        g.x.fields["EGrad"] = g.e(G0, "EGrad")
        g.call("EucHvToHv", g.x, g.e(eta, "eta"), g.e(E, "exix"), Ptr(prob(rt)), Ptr(r))
        v = r.val()
        g.istan(v, "EucHvToHv")
        acc = M.zero(g.n, g.n)
        if mv == AF:
            L = M.sym(g.L)
            q = inverse(L) * eta
            s = inverse(L) * z
            acc = (q.T * s + s.T * q).scale(S.const(Fraction(1, 2)))
        eq(rt, g.metric(v, z), E.dot(z) + G0.dot(acc), "<Hess eta, xi>_x = <EucHess[eta], xi> + <egf, second-order term of the geodesic>")
        e = g.e(E, "exix")
        g.call("EucHvToHv", g.x, g.e(eta, "eta"), e, Ptr(prob(rt)), Ptr(e))
        eq(rt, e, v, "EucHvToHv with result = exix")

    @ob(("C06", "C07"), "SPDManifold::EucGradToGrad keeps the Euclidean gradient, " + mname)
    def _(rt, mv=mv):
        g = Spd(rt, metric=mv)
        G0, r = g.tan("G"), g.res()
        g.call("EucGradToGrad", g.x, g.e(G0, "egf"), Ptr(prob(rt, usehess=True)), Ptr(r))
        need(rt, "EGrad" in g.x.fields, "EucGradToGrad stores the Euclidean gradient on x when the Hessian is used")
        eq(rt, g.x.fields["EGrad"], G0, "the stored Euclidean gradient is egf")

    for cached in (False, True):
        @ob("C08", "SPDManifold::ObtainIntr/ObtainExtr %s%s" % (mname, ", cached factor" if cached else ""))
        def _(rt, mv=mv, cached=cached):
            g = Spd(rt, metric=mv, cached=cached)
            t = g.tan("1")
            if mv == AF:
                t = M.sym(g.L) * t * M.sym(g.L).T       # every symmetric matrix has this form, L being invertible
            r, b = out(g.d, 1), g.res("back")
            g.call("ObtainIntr", g.x, g.e(t, "eta"), Ptr(r))
            v = r.val()
            eq(rt, v.dot(v), g.metric(t, t), "ObtainIntr is isometric")
            g.call("ObtainExtr", g.x, r, Ptr(b))
            eq(rt, b, t, "ObtainExtr(ObtainIntr(eta)) = eta")
            w = M.sym(sym("w", g.d, 1))
            b2, r2 = g.res("ext"), out(g.d, 1)
            g.call("ObtainExtr", g.x, elem(w, "w"), Ptr(b2))
            g.istan(b2.val(), "ObtainExtr")
            g.call("ObtainIntr", g.x, b2, Ptr(r2))
            eq(rt, r2, w, "ObtainIntr(ObtainExtr(v)) = v")


@ob("C10", "SPDManifold::DiffRetraction SECONDORDER")
def _(rt):
    g = Spd(rt, retr=SEC)
    e1, xi = g.tan("1"), g.tan("2")
    y, ye = g.res("y"), g.res("ye")
    eta = g.e(e1, "eta")
    g.call("Retraction", g.x, eta, Ptr(y))
    r = g.res()
    g.call("DiffRetraction", g.x, eta, y, g.e(xi), Ptr(r), False)
    g.call("Retraction", g.x, g.e(e1 + xi.scale(eps())), Ptr(ye))
    eq(rt, r, coeff(ye.val(), 1), "derivative of the retraction (dual numbers)")
    g.istan(r.val(), "DiffRetraction")
    e = g.e(xi)
    g.call("DiffRetraction", g.x, eta, y, e, Ptr(e), False)
    eq(rt, e, r.val(), "DiffRetraction with result = xi")


@ob(("C09", "C10"), "SPDManifold::DiffRetraction SECONDORDER locking data (Euclidean metric)")
def _(rt):
    g = Spd(rt, retr=SEC, metric=EUC)
    eta = g.e(g.tan("1"), "eta")
    y = g.res("y")
    g.call("Retraction", g.x, eta, Ptr(y))
    beta_block(rt, g, "DiffRetraction", g.x, eta, y, g.res)


@ob("C09", "SPDManifold::transports intrinsic")
def _(rt):
    g = Spd(rt, IsIntrApproach=True)
    v = elem(M.sym(sym("v", g.d, 1)))
    y = g.e(M.sym(sym("Y", g.n, g.n)), "y")
    H = elem(M.sym(sym("H", g.d, g.d)))
    for nm in ("VectorTransport", "InverseVectorTransport"):
        r = out(g.d, 1)
        g.call(nm, g.x, v, y, v, Ptr(r))
        eq(rt, r, v.val(), nm)
    r = out(g.d, g.d)
    g.call("TranHInvTran", g.x, v, y, H, Ptr(r))
    eq(rt, r, H.val(), "TranHInvTran")


@ob("C09", "SPDManifold::ParallelTranslation")
def _(rt):
    for mv in (AF,):
        g = Spd(rt, VecTran=PTRAN, metric=mv, retr=EXP)
        e1, a, b = g.tan("1"), g.tan("a"), g.tan("b")
        L = M.sym(g.L)
        Li = inverse(L)
        E = expsym((Li * e1 * Li.T).scale(S.const(Fraction(1, 2))))
        y = g.e(L * E * E * L.T, "y")       # exp(S) = exp(S/2)^2
        eta = g.e(e1)
        r, s = g.res(), g.res()
        g.call("VectorTransport", g.x, eta, y, g.e(a), Ptr(r))
        g.call("VectorTransport", g.x, eta, y, g.e(b), Ptr(s))
        g.istan(r.val(), "ParallelTranslation")
        P = L * E * Li
        eq(rt, r, P * a * P.T, "parallel translation along the geodesic: P a P' with P = L exp(L^-1 eta L^-T/2) L^-1")
        Fi = inverse(E) * Li
        eq(rt, (Fi * r.val() * Fi.T).dot(Fi * s.val() * Fi.T), g.metric(a, b), "isometric")
        e = g.e(a)
        g.call("VectorTransport", g.x, eta, y, e, Ptr(e))
        eq(rt, e, r.val(), "VectorTransport with result = xi")


@ob("C09", "SPDManifold::Beta and locking dispatch")
def _(rt):
    g = Spd(rt)
    eta = g.e(g.tan("1"), "eta")
    eq(rt, g.call("Beta", g.x, eta), 1, "Beta is 1 without the locking option")
    g = Spd(rt, HasHHR=True)
    b = Elem(S.of(3), S.of(1))
    b.arr = Arr(M.sym(sym("bt", 3, 1)))
    eta.fields["beta"] = b
    v = g.call("Beta", g.x, eta)
    eq(rt, v, rt.entget(DP(b.arr, S.of(0), elem=b), S.of(0)), "Beta returns the stored scalar")
    g = Spd(rt, HasHHR=True, IsIntrApproach=True)
    hit = []

    def c(rt_, o, a):
        hit.append(a)
        return g_elem(a[-1])
    v = elem(M.sym(sym("v", g.d, 1)))
    for nm in ("VectorTransport", "InverseVectorTransport"):
        g.o.contracts["LC" + nm] = c
        r = out(g.d, 1)
        hit.clear()
        g.call(nm, g.x, eta, g.x, v, Ptr(r))
        need(rt, len(hit) == 1 and g_elem(hit[0][3]) is v and g_elem(hit[0][-1]) is r, nm + " with the locking option uses LC" + nm)
