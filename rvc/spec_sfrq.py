"""Symmetric positive semidefinite matrices of fixed rank, Y O(p) with Y = X C (X orthonormal columns, C invertible); every full
column rank Y is of this form.  Where the code factorises Y, C is the upper triangular factor the factorisation returns."""
from geo import *
from spec_stiefel import g_elem
from spec_stiefel2 import beta_block
from loops import signdiag

EUC, HGZ, QEUC = 0, 1, 2
METS = (("EUC", EUC), ("HGZ", HGZ), ("QEUC", QEUC))
PARA, PROJ = 0, 1
HALF = Fraction(1, 2)


class Sf:
    CLS = "SymFixedRankQ"
    cplx = False

    def __init__(self, rt, tri=False, **cfg):
        self.rt = rt
        ps = [1, 2, 3, 2, 1, 3]
        self.n = n = newdim("n", lambda I: ps[I.seed % 6] + [1, 0, 2, 3][I.seed % 4])
        self.p = p = newdim("p", lambda I: ps[I.seed % 6])
        rt.dimfacts += [Cond("<", S.of(0), p), Cond("<=", p, n)]
        self.d = 2 * n * p - p * p if self.cplx else n * p - p * (p - 1) / 2
        self.X, self.C = self.point("", tri)
        self.Y = M.sym(self.X) * M.sym(self.C)
        self.x = elem(self.Y, "x", self.cplx)
        f = dict(n=n, p=p, IsIntrApproach=False, HasHHR=False, metric=S.of(EUC), VecTran=S.of(PARA), EMPTYEXTR=out(n, p, "EMPTYEXTR", self.cplx),
                 EMPTYINTR=out(self.d, 1, "EMPTYINTR"), IntrinsicDim=self.d, ExtrinsicDim=n * p)
        for k, v in cfg.items():
            f[k] = S.of(v) if isinstance(v, int) and not isinstance(v, bool) else v
        self.m = cfg.get("metric", EUC)
        self.o = Obj(self.CLS, rt, **f)

    def point(self, tag, tri=False):
        n, p = self.n, self.p
        X = sym("X" + tag, n, p, num=lambda I: np.linalg.qr(I.rng.standard_normal((int(I.s(n)), int(I.s(p)))))[0])
        add_rule((letter(X, 1), letter(X)), M.eye(p))

        def cn(I):
            k = int(I.s(p))
            a = I.rng.standard_normal((k, k))
            if tri:
                a = np.triu(a, 1)
            return a + np.diag((1.5 + I.rng.random(k)) * np.where(I.rng.random(k) < .5, -1, 1))
        Cl = sym("C" + tag, p, p, num=cn)
        if tri:
            Cl.tags.add("upper")
        return X, Cl

    def perp(self, tag, X=None):
        X = X or self.X
        N = sym(tag, self.n, self.p, num=lambda I: (lambda x, g: g - x @ (x.T @ g))(
            I.symv(X), I.rng.standard_normal((int(I.s(self.n)), int(I.s(self.p))))))
        add_rule((letter(X, 1), letter(N)), M.zero(self.p, self.p))
        return M.sym(N)

    def tan(self, tag="1", X=None, Cl=None):
        X, Cl = X or self.X, M.sym(Cl or self.C)
        Sy = M.sym(sym("S" + tag, self.p, self.p, symm=1))
        return M.sym(X) * (inverse(Cl).T * Sy if self.m == QEUC else Cl * Sy) + self.perp("N" + tag, X)

    def egrad(self, tag="G"):
        """Euclidean gradients of functions of YY': Y'G symmetric"""
        return M.sym(self.X) * (inverse(M.sym(self.C)).T * M.sym(sym(tag + "S", self.p, self.p, symm=1))) + self.perp(tag + "N")

    def amb(self, tag="Z"):
        return M.sym(sym(tag, self.n, self.p))

    def e(self, m, name=""):
        return elem(m, name, self.cplx)

    def res(self, name="result"):
        return out(self.n, self.p, name, self.cplx)

    def istan(self, m, what, Y=None):
        Y = self.Y if Y is None else Y
        w = Y.T * m
        if self.m != QEUC:
            w = inverse(Y.T * Y) * w
        eq(self.rt, w, w.T, what + ": result is horizontal")

    def metric(self, a, b, Y=None):
        Y = self.Y if Y is None else Y
        if self.m == EUC:
            return ((a.T * Y).dot(Y.T * b) + (Y.T * Y).dot(a.T * b)) * 2
        if self.m == HGZ:
            return (Y.T * Y).dot(a.T * b)
        return a.dot(b)

    def call(self, name, *a, **k):
        return reach(self.rt, self.o, name, *a, **k)

    def accel(self, a):
        """second-order term of the geodesics with velocity a (up to vertical vectors)"""
        Y = self.Y
        K = Y.T * Y
        Ki = inverse(K)
        if self.m == QEUC:
            return M.zero(self.n, self.p)
        if self.m == HGZ:
            return (Y * (a.T * a) - a * (a.T * Y + Y.T * a)) * Ki
        Sy = Ki * (Y.T * a)
        N = a - Y * Sy
        return -(Y * (Sy * Sy)) - (N * Sy).scale(S.of(2))


def reg(G):
    cls = G.CLS
    for mn, m in METS[:2] if G.cplx else METS:      # the complex class has no QEUC
        @ob("C04", "%s %s: projection" % (cls, mn))
        def _(rt, m=m):
            g = G(rt, metric=m)
            z, r, r2 = g.amb(), g.res(), g.res()
            g.call("ExtrProjection", g.x, g.e(z), Ptr(r))
            v = r.val()
            g.istan(v, "ExtrProjection")
            t = g.tan("t")
            eq(rt, g.metric(z - v, t), 0, "the removed part is orthogonal to every horizontal vector")
            g.call("ExtrProjection", g.x, g.e(t), Ptr(r2))
            eq(rt, r2, t, "horizontal vectors are left unchanged")
            e = g.e(z)
            g.call("ExtrProjection", g.x, e, Ptr(e))
            eq(rt, e, v, "result = input")
            g.call("Projection", g.x, g.e(z), Ptr(r2))
            eq(rt, r2, v, "Projection (extrinsic mode) is the orthogonal projection")
            g.o.f["IsIntrApproach"] = True
            w = M.sym(sym("v", g.d, 1))
            r = out(g.d, 1)
            g.call("Projection", g.x, elem(w), Ptr(r))
            eq(rt, r, w, "Projection (intrinsic mode) keeps intrinsic vectors")

        @ob(("C04", "C06", "C08"), "%s %s: metric" % (cls, mn))
        def _(rt, m=m):
            g = G(rt, metric=m)
            a, b = g.amb("A"), g.amb("B")
            eq(rt, g.call("Metric", g.x, g.e(a), g.e(b)), g.metric(a, b), "Metric")

        @ob("C05", "%s %s::Retraction extrinsic" % (cls, mn))
        def _(rt, m=m):
            g = G(rt, metric=m)
            t, r = g.tan("t"), g.res("y")
            g.call("Retraction", g.x, g.e(t), Ptr(r))
            eq(rt, r, g.Y + t, "the retraction is x + eta: value x at zero, derivative eta, and a point of the manifold while the rank stays p")

        @ob(("C06", "C07"), "%s %s::EucGradToGrad" % (cls, mn))
        def _(rt, m=m):
            g = G(rt, metric=m)
            G0, r, xi = g.egrad(), g.res(), g.tan("t")
            g.call("EucGradToGrad", g.x, g.e(G0, "egf"), Ptr(prob(rt, usehess=True)), Ptr(r))
            g.istan(r.val(), "EucGradToGrad")
            eq(rt, g.metric(r.val(), xi), G0.dot(xi), "<grad, xi>_x = <egf, xi> for every horizontal xi")
            need(rt, "EGrad" in g.x.fields, "EucGradToGrad stores the Euclidean gradient on x when the Hessian is used")
            eq(rt, g.x.fields["EGrad"], G0, "the stored Euclidean gradient is egf")
            e = g.e(G0, "egf")
            g.call("EucGradToGrad", g.x, e, Ptr(prob(rt, usehess=False)), Ptr(e))
            eq(rt, e, r.val(), "result = input")

        @ob("C07", "%s %s::EucHvToHv" % (cls, mn))
        def _(rt, m=m):
            g = G(rt, metric=m)
            G0, eta, z, r = g.egrad(), g.tan("1"), g.tan("z"), g.res()
            X, Ci = M.sym(g.X), inverse(M.sym(g.C))
            # differentiating Y'G = G'Y in the direction eta: Y'E + eta'G is symmetric
            E = X * (Ci.T * (M.sym(sym("ES", g.p, g.p, symm=1)) - eta.T * G0)) + g.perp("EN")
            g.x.fields["EGrad"] = g.e(G0, "EGrad")
            g.call("EucHvToHv", g.x, g.e(eta, "eta"), g.e(E, "exix"), Ptr(prob(rt)), Ptr(r))
            v = r.val()
            g.istan(v, "EucHvToHv")
            acc = (g.accel(eta + z) - g.accel(eta) - g.accel(z)).scale(S.const(HALF))
            eq(rt, g.metric(v, z), E.dot(z) + G0.dot(acc), "<Hess eta, xi> = <EucHess[eta], xi> + <egf, second-order term of the geodesic>")
            e = g.e(E, "exix")
            g.call("EucHvToHv", g.x, g.e(eta, "eta"), e, Ptr(prob(rt)), Ptr(e))
            eq(rt, e, v, "result = exix")

        @ob("C08", "%s %s: intrinsic coordinates" % (cls, mn))
        def _(rt, m=m):
            g = G(rt, metric=m, tri=True)
            x = g.x
            T = M.sym(sym("T1", g.p, g.p, symm=1))       # any horizontal vector: T = C S C'
            t = M.sym(g.X) * (T * inverse(M.sym(g.C)).T if m != QEUC else inverse(M.sym(g.C)).T * T) + g.perp("N1")
            r, b = out(g.d, 1), g.res("back")
            g.call("ObtainIntr", x, g.e(t, "eta"), Ptr(r))
            v = r.val()
            eq(rt, v.dot(v), g.metric(t, t), "ObtainIntr is isometric")
            g.call("ObtainExtr", x, r, Ptr(b))
            eq(rt, b, t, "ObtainExtr(ObtainIntr(eta)) = eta")
            w = M.sym(sym("w", g.d, 1))
            b2, r2 = g.res("ext"), out(g.d, 1)
            g.call("ObtainExtr", x, elem(w, "w"), Ptr(b2))
            g.istan(b2.val(), "ObtainExtr")
            g.call("ObtainIntr", x, b2, Ptr(r2))
            eq(rt, r2, w, "ObtainIntr(ObtainExtr(v)) = v")

        @ob(("C09", "C10"), "%s %s: derivative of x + eta and transport by projection, extrinsic" % (cls, mn))
        def _(rt, m=m):
            g = G(rt, metric=m, VecTran=PROJ)
            Xy, Cy = g.point("y")
            y = g.e(M.sym(Xy) * M.sym(Cy), "y")
            xi, r, r2 = g.amb("xi"), g.res(), g.res()
            g.call("DiffRetraction", g.x, g.e(g.tan("1")), y, g.e(xi), Ptr(r), False)
            g.istan(r.val(), "DiffRetraction", y.val())
            v = inverse(M.sym(Cy)) * (M.sym(Xy).T * (xi - r.val()))
            eq(rt, y.val() * v, xi - r.val(), "the part removed is vertical ...")
            eq(rt, v, -v.T, "... y times a skew-symmetric matrix")
            g.call("VectorTransport", g.x, g.e(g.tan("1")), y, g.e(xi), Ptr(r2))
            eq(rt, r2, r.val(), "transport by projection")

        @ob(("C09", "C10"), "%s %s: locking data" % (cls, mn))
        def _(rt, m=m):
            g = G(rt, metric=m)
            Xy, Cy = g.point("y")
            if m == QEUC:
                # the projection only matters as a linear map here
                T = M.sym(sym("Proj", g.n, g.n))

                def lin(rt_, o, a):
                    g_elem(a[2]).setval(T * g_elem(a[1]).val())
                    return g_elem(a[2])
                g.o.contracts["ExtrProjection"] = lin
            beta_block(rt, g, "DiffRetraction", g.x, g.e(g.tan("1"), "eta"), g.e(M.sym(Xy) * M.sym(Cy), "y"), g.res)


reg(Sf)


class CSf(Sf):
    CLS = "CSymFixedRankQ"
    cplx = True


reg(CSf)
