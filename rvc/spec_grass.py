"""Grassmann manifold: representatives X with X'X = I, horizontal vectors X'N = 0, metric of the embedding."""
from geo import *
from spec_stiefel import St, g_elem, QF
from spec_stiefel2 import step, beta_block
from loops import signdiag


class Gr(St):
    CLS = "Grassmann"

    def __init__(self, rt, **cfg):
        St.__init__(self, rt, **cfg)
        self.d = (self.n - self.p) * self.p
        self.o.f["IntrinsicDim"] = self.d
        self.o.f["EMPTYINTR"] = out(self.d, 1, "EMPTYINTR")

    def tan(self, tag="1", X=None):
        X = X or self.X
        N = sym("N" + tag, self.n, self.p, num=lambda I: (lambda x, g: g - x @ (x.T @ g))(
            I.symv(X), I.rng.standard_normal((int(I.s(self.n)), int(I.s(self.p))))))
        add_rule((letter(X, 1), letter(N)), M.zero(self.p, self.p))
        return M.sym(N)

    def hor(self, Y, tag):
        """an arbitrary horizontal vector at Y"""
        W = M.sym(sym(tag, self.n, self.p))
        return W - Y * (Y.T * W)

    def istan(self, m, what, X=None):
        X = M.sym(X or self.X) if not isinstance(X, M) else X
        eq(self.rt, X.T * m, M.zero(self.p, self.p), what + ": result is horizontal (X'Z = 0)")


def reg():
    G = Gr

    @ob("C04", "Grassmann::ExtrProjection")
    def _(rt):
        g = G(rt)
        z, r = g.amb(), g.res()
        g.call("ExtrProjection", g.x, g.e(z), Ptr(r))
        v = r.val()
        g.istan(v, "ExtrProjection")
        t = g.tan("t")
        eq(rt, (z - v).dot(t), 0, "ExtrProjection: the removed part is orthogonal to every horizontal vector")
        r2 = g.res()
        g.call("ExtrProjection", g.x, g.e(t), Ptr(r2))
        eq(rt, r2, t, "ExtrProjection: horizontal vectors are left unchanged")
        e = g.e(z)
        g.call("ExtrProjection", g.x, e, Ptr(e))
        eq(rt, e, v, "ExtrProjection with result = input")

    @ob("C04", "Grassmann::Projection dispatch")
    def _(rt):
        g = G(rt, IsIntrApproach=False)
        z, r, r2 = g.amb(), g.res(), g.res()
        g.call("Projection", g.x, g.e(z), Ptr(r))
        g.call("ExtrProjection", g.x, g.e(z), Ptr(r2))
        eq(rt, r, r2.val(), "Projection (extrinsic mode) is the orthogonal projection")
        g = G(rt, IsIntrApproach=True)
        v = M.sym(sym("v", g.d, 1))
        r = out(g.d, 1)
        g.call("Projection", g.x, elem(v), Ptr(r))
        eq(rt, r, v, "Projection (intrinsic mode) keeps intrinsic vectors")

    for mode in ("extrinsic", "intrinsic"):
        for what in ("on the manifold", "zero vector", "first order"):
            @ob("C05", "Grassmann::Retraction QF %s: %s" % (mode, what))
            def _(rt, mode=mode, what=what):
                g = G(rt, IsIntrApproach=mode == "intrinsic")
                eta = g.tan("1")
                if what == "first order":
                    eta = eta.scale(eps())
                if what == "zero vector":
                    eta = M.zero(g.n, g.p)
                r = g.res("y")
                e = g.e(eta, "eta")
                if mode == "intrinsic":
                    e = elem(M.sym(sym("v", g.d, 1)), "v")

                    def contract(rt_, o, a):
                        need(rt_, g_elem(a[0]) is g.x and g_elem(a[1]) is e, "ObtainExtr is applied to the base point and the given vector")
                        g_elem(a[2]).setval(eta)
                        return g_elem(a[2])
                    g.o.contracts["ObtainExtr"] = contract
                g.call("Retraction", g.x, e, Ptr(r))
                y = r.val()
                if what == "on the manifold":
                    g.onman(y, "QF retraction")
                elif what == "zero vector":
                    eq(rt, y, g.x.val(), "retraction of the zero vector is the point itself")
                else:
                    d0d1(rt, y, g.x.val(), coeff(eta, 1), "QF retraction agrees with x + eta to first order")

    @ob("C06", "Grassmann::EucGradToGrad")
    def _(rt):
        g = G(rt)
        G0, r = g.amb("G"), g.res()
        g.call("EucGradToGrad", g.x, g.e(G0, "egf"), Ptr(prob(rt)), Ptr(r))
        v = r.val()
        g.istan(v, "EucGradToGrad")
        t = g.tan("t")
        eq(rt, v.dot(t), G0.dot(t), "EucGradToGrad: <grad, xi>_x = <egf, xi> for every horizontal xi")
        e = g.e(G0, "egf")
        g.call("EucGradToGrad", g.x, e, Ptr(prob(rt)), Ptr(e))
        eq(rt, e, v, "EucGradToGrad with result = input")

    @ob("C07", "Grassmann::EucHvToHv")
    def _(rt):
        g = G(rt)
        X = g.x.val()
        S0, W = sym("GS", g.p, g.p, symm=1), g.amb("GW")
        G0 = X * M.sym(S0) + W - X * (X.T * W)      # gradients of functions of the subspace: X'G symmetric (and zero where f is homogeneous)
        E, r = g.amb("EH"), g.res()
        eta, z = g.tan("1"), g.tan("z")
        g.x.fields["EGrad"] = g.e(G0, "EGrad")
        g.call("EucHvToHv", g.x, g.e(eta, "eta"), g.e(E, "exix"), Ptr(prob(rt)), Ptr(r))
        v = r.val()
        g.istan(v, "EucHvToHv")
        q = lambda a: -(X * (a.T * a))
        acc = (q(eta + z) - q(eta) - q(z)).scale(S.const(Fraction(1, 2)))
        eq(rt, v.dot(z), E.dot(z) + G0.dot(acc), "EucHvToHv: <Hess eta, xi> = <EucHess[eta], xi> + <egf, second-order term of the geodesic>")
        e = g.e(E, "exix")
        g.call("EucHvToHv", g.x, g.e(eta, "eta"), e, Ptr(prob(rt)), Ptr(e))
        eq(rt, e, v, "EucHvToHv with result = exix")

    @ob(("C06", "C07"), "Grassmann::EucGradToGrad keeps the Euclidean gradient for EucHvToHv")
    def _(rt):
        g = G(rt)
        G0, r = g.amb("G"), g.res()
        g.call("EucGradToGrad", g.x, g.e(G0, "egf"), Ptr(prob(rt, usehess=True)), Ptr(r))
        need(rt, "EGrad" in g.x.fields, "EucGradToGrad stores the Euclidean gradient on x when the Hessian is used")
        eq(rt, g.x.fields["EGrad"], G0, "the stored Euclidean gradient is egf")

    for fk in ("no cached factors", "factors cached by the retraction"):
        @ob("C08", "Grassmann::ObtainIntr/ObtainExtr, " + fk)
        def _(rt, fk=fk):
            g = G(rt)
            if fk == "no cached factors":
                x, t = g.x, g.tan("1")
            else:
                x = g.res("y")
                g.call("Retraction", g.x, g.e(g.tan("0"), "eta"), Ptr(x))
                x.name = "y"
                t = g.hor(x.val(), "W1")
            r, b = out(g.d, 1), g.res("back")
            g.call("ObtainIntr", x, g.e(t, "eta"), Ptr(r))
            v = r.val()
            eq(rt, v.dot(v), t.dot(t), "ObtainIntr is isometric")
            rv = out(g.d, 1)
            g.call("ObtainIntr", x, g.e(t + x.val() * M.sym(sym("Vv", g.p, g.p)), "eta"), Ptr(rv))
            eq(rt, rv, v, "ObtainIntr sees the horizontal part only")
            g.call("ObtainExtr", x, r, Ptr(b))
            eq(rt, b, t, "ObtainExtr(ObtainIntr(eta)) = eta")
            w = M.sym(sym("w", g.d, 1))
            b2, r2 = g.res("ext"), out(g.d, 1)
            g.call("ObtainExtr", x, elem(w, "w"), Ptr(b2))
            g.istan(b2.val(), "ObtainExtr", x.val())
            g.call("ObtainIntr", x, b2, Ptr(r2))
            eq(rt, r2, w, "ObtainIntr(ObtainExtr(v)) = v")

    @ob("C10", "Grassmann::DiffRetraction extrinsic")
    def _(rt):
        g = G(rt)
        eta, y = step(rt, g, "QF")
        W = g.tan("2")
        r, e = g.res(), g.e(W, "xi")
        g.call("DiffRetraction", g.x, eta, y, g.e(W, "xi"), Ptr(r), False)
        D, Y = r.val(), y.val()
        R = y.fields["_HHR"].val().R
        eq(rt, Y * (signdiag(R) * R), g.x.val() + eta.val(), "x + eta = y R")
        Ri = inverse(R) * signdiag(R)
        eq(rt, W * Ri - Y * (Y.T * (W * Ri)), D - Y * (Y.T * D), "horizontal part of the derivative is (I - yy') W R^-1")
        g.call("DiffRetraction", g.x, eta, y, e, Ptr(e), False)
        eq(rt, e, D, "DiffRetraction with result = xi")
        eq(rt, Y.T * D, M.zero(Y.c, Y.c), "the result is horizontal at y")

    @ob("C10", "Grassmann::DiffRetraction intrinsic")
    def _(rt):
        g = G(rt)
        eta, y = step(rt, g, "QF")
        W = g.tan("2")
        r0 = g.res()
        g.call("DiffRetraction", g.x, eta, y, g.e(W, "xi"), Ptr(r0), False)
        g.o.f["IsIntrApproach"] = True
        w, r, z = elem(M.sym(sym("w", g.d, 1)), "w"), out(g.d, 1), M.sym(sym("z", g.d, 1))

        def ext(rt_, o, a):
            need(rt_, g_elem(a[0]) is g.x and g_elem(a[1]) is w, "ObtainExtr at the base point of the given vector")
            g_elem(a[2]).setval(W)
            return g_elem(a[2])

        def intr(rt_, o, a):
            need(rt_, g_elem(a[0]) is y, "ObtainIntr at the new point")
            # coordinates at y see the horizontal part only (first intrinsic obligation of C08)
            Y, D = y.val(), g_elem(a[1]).val()
            eq(rt_, D - Y * (Y.T * D), r0.val(), "of the derivative (horizontal part)")
            g_elem(a[2]).setval(z)
            return g_elem(a[2])
        g.o.contracts.update(ObtainExtr=ext, ObtainIntr=intr, Metric=lambda rt_, o, a: g_elem(a[1]).val().dot(g_elem(a[2]).val()))
        g.call("DiffRetraction", g.x, elem(M.sym(sym("e", g.d, 1))), y, w, Ptr(r), False)
        eq(rt, r, z, "the intrinsic result is the derivative in coordinates at the new point")

    @ob("C10", "Grassmann::coTangentVector is the adjoint of the differentiated retraction")
    def _(rt):
        g = G(rt)
        eta, y = step(rt, g, "QF")
        W = g.tan("2")
        zeta = g.hor(y.val(), "Zy")
        r, c = g.res(), g.res()
        g.call("DiffRetraction", g.x, eta, y, g.e(W, "xi"), Ptr(r), False)
        g.call("coTangentVector", g.x, eta, y, g.e(zeta, "zeta"), Ptr(c))
        g.istan(c.val(), "coTangentVector")
        eq(rt, r.val().dot(zeta), W.dot(c.val()), "<DR[xi], zeta> = <xi, coTangent(zeta)>")

    @ob(("C09", "C10"), "Grassmann::DiffRetraction locking data")
    def _(rt):
        g = G(rt)
        eta, y = step(rt, g, "QF")
        beta_block(rt, g, "DiffRetraction", g.x, eta, y, g.res)

    @ob("C09", "Grassmann::Beta")
    def _(rt):
        g = G(rt)
        eta = g.e(g.tan("1"), "eta")
        eq(rt, g.call("Beta", g.x, eta), 1, "Beta is 1 without the locking option")
        g = G(rt, HasHHR=True)
        eta = g.e(g.tan("1"), "eta")
        b = Elem(S.of(3), S.of(1))
        b.arr = Arr(M.sym(sym("bt", 3, 1)))
        eta.fields["beta"] = b
        v = g.call("Beta", g.x, eta)
        eq(rt, v, rt.entget(DP(b.arr, S.of(0), elem=b), S.of(0)), "Beta returns the stored scalar")


reg()
