"""Fixed rank matrices G H' by two factors: points (G, H) up to (G M, H M^-T), G = X1 C1', H = X2 C2' with orthonormal columns X and
C lower triangular with positive diagonal (every pair of full column rank factors is of this form).  Where the code factorises G
and H itself, C' is the upper triangular factor the factorisation returns."""
from geo import *
from spec_stiefel import g_elem
from spec_stiefel2 import beta_block
from loops import signdiag

HALF = Fraction(1, 2)


class Q2F:
    CLS = "FixedRankQ2F"
    cplx = False

    def __init__(self, rt, tri=False, **cfg):
        self.rt = rt
        ps = [1, 2, 3, 2, 1, 3]
        self.r = r = newdim("r", lambda I: ps[I.seed % 6])
        self.m = m = newdim("m", lambda I: ps[I.seed % 6] + [1, 0, 2, 3][I.seed % 4])
        self.n = n = newdim("n", lambda I: ps[I.seed % 6] + [2, 1, 0, 1][I.seed % 4])
        rt.dimfacts += [Cond("<", S.of(0), r), Cond("<=", r, m), Cond("<=", r, n)]
        self.d = (m + n - r) * r * (2 if self.cplx else 1)
        self.tri = tri
        self.X, self.C = self.point("")
        self.Y = Pair(*[M.sym(X) * Cl for X, Cl in zip(self.X, self.C)])
        self.x = self.e(self.Y, "x")
        f = dict(m=m, n=n, r=r, IsIntrApproach=False, HasHHR=False, EMPTYEXTR=self.res("EMPTYEXTR"), EMPTYINTR=out(self.d, 1, "EMPTYINTR"), IntrinsicDim=self.d,
                 ExtrinsicDim=(m + n) * r)
        f.update(cfg)
        self.o = Obj(self.CLS, rt, **f)

    def point(self, tag):
        r, Xs, Cs = self.r, [], []
        for k, q in ((1, self.m), (2, self.n)):
            X = sym("X%d%s" % (k, tag), q, r, num=lambda I, q=q: np.linalg.qr(I.rng.standard_normal((int(I.s(q)), int(I.s(r)))))[0])
            add_rule((letter(X, 1), letter(X)), M.eye(r))

            def cn(I):
                p = int(I.s(r))
                a = np.tril(I.rng.standard_normal((p, p)), -1) + np.diag(1.5 + I.rng.random(p))
                return (a * np.where(I.rng.random(p) < .5, -1, 1)[:, None]).T if self.tri else a
            Cl = sym("C%d%s" % (k, tag), r, r, num=cn)
            Cl.tags.add("upper" if self.tri else "lowerpos")
            Xs.append(X)
            Cs.append(M.sym(Cl) if self.tri else M.sym(Cl).T)
        return Xs, Cs

    def perp(self, tag, X, q):
        N = sym(tag, q, self.r, num=lambda I: (lambda x, g: g - x @ (x.T @ g))(I.symv(X), I.rng.standard_normal((int(I.s(q)), int(I.s(self.r))))))
        add_rule((letter(X, 1), letter(N)), M.zero(self.r, self.r))
        return M.sym(N)

    def tan(self, tag="1", pt=None):
        """horizontal vectors: dG = G S + N1, dH = H S' + N2; S = C1^-1 T C2^-T with any T"""
        X, Cl = pt or (self.X, self.C)
        T = M.sym(sym("T" + tag, self.r, self.r))
        return Pair(M.sym(X[0]) * T * inverse(Cl[1]).T + self.perp("N" + tag, X[0], self.m), M.sym(X[1]) * T.T * inverse(Cl[0]).T + self.perp("M" + tag, X[1], self.n))

    def amb(self, tag="Z"):
        return Pair(M.sym(sym(tag + "G", self.m, self.r)), M.sym(sym(tag + "H", self.n, self.r)))

    def e(self, p, name=""):
        e = Elem(1, 1, 1, False)
        e.name = name
        e.elements = [elem(c, name, self.cplx) for c in p]
        e.r = S.of((self.m + self.n) * self.r)
        return e

    def res(self, name="result"):
        e = Elem(1, 1, 1, False)
        e.name = name
        e.elements = [out(self.m, self.r, name, self.cplx), out(self.n, self.r, name, self.cplx)]
        e.r = S.of((self.m + self.n) * self.r)
        return e

    def ishor(self, v, what, Y=None):
        Y = Y or self.Y
        G, H = Y
        eq(self.rt, inverse(G.T * G) * (G.T * v.c[0]), (inverse(H.T * H) * (H.T * v.c[1])).T, what + ": result is horizontal")

    def metric(self, a, b, Y=None):
        G, H = Y or self.Y
        return (G * a.c[1].T + a.c[0] * H.T).dot(G * b.c[1].T + b.c[0] * H.T)

    def call(self, name, *a, **k):
        return reach(self.rt, self.o, name, *a, **k)

    def prodretr(self, rt, o, a):
        """C11: the product of two Euclidean spaces retracts by adding"""
        x, v, r = g_elem(a[0]), g_elem(a[1]), g_elem(a[2])
        val = Pair.of(x) + Pair.of(v)
        r.assign(self.e(val, "y"))
        return r


def reg(G):
    cls = G.CLS

    @ob("C04", "%s: projection" % cls)
    def _(rt):
        g = G(rt)
        z, r, r2 = g.amb(), g.res(), g.res()
        g.call("ExtrProjection", g.x, g.e(z), Ptr(r))
        v = Pair.of(r)
        g.ishor(v, "ExtrProjection")
        d = z - v
        L = inverse(g.Y.c[0].T * g.Y.c[0]) * (g.Y.c[0].T * d.c[0])
        eq(rt, Pair(g.Y.c[0] * L, -(g.Y.c[1] * L.T)), d, "the removed part is vertical: (G L, -H L')")
        t = g.tan("t")
        g.call("ExtrProjection", g.x, g.e(t), Ptr(r2))
        eq(rt, r2, t, "horizontal vectors are left unchanged")
        e = g.e(z)
        g.call("ExtrProjection", g.x, e, Ptr(e))
        eq(rt, e, v, "result = input")
        g.call("Projection", g.x, g.e(z), Ptr(r2))
        eq(rt, r2, v, "Projection (extrinsic mode) is the orthogonal projection")
        g.o.f["IsIntrApproach"] = True
        w = M.sym(sym("v", g.d, 1))
        r = out(g.d, 1)
        g.call("Projection", g.x, elem(w), Ptr(r))
        eq(rt, r, w, "Projection (intrinsic mode) keeps intrinsic vectors")

    @ob(("C04", "C06", "C08"), "%s: metric" % cls)
    def _(rt):
        g = G(rt)
        a, b = g.amb("A"), g.amb("B")
        eq(rt, g.call("Metric", g.x, g.e(a), g.e(b)), g.metric(a, b), "Metric is the inner product of the derivatives of G H'")

    for mode in ("extrinsic", "intrinsic"):
        @ob("C05", "%s::Retraction %s" % (cls, mode))
        def _(rt, mode=mode):
            g = G(rt, IsIntrApproach=mode == "intrinsic")
            Xy, Cy = g.point("y")                    # the moved point: any pair of full rank factors
            y = Pair(*[M.sym(X) * Cl for X, Cl in zip(Xy, Cy)])
            t, r = y - g.Y, g.res("y")
            e = g.e(t, "eta")
            g.o.contracts["MultiManifolds::Retraction"] = g.prodretr
            if mode == "intrinsic":
                e = elem(M.sym(sym("v", g.d, 1)), "v")

                def contract(rt_, o, a):
                    need(rt_, g_elem(a[0]) is g.x and g_elem(a[1]) is e, "ObtainExtr is applied to the base point and the given vector")
                    g_elem(a[2]).assign(g.e(t))
                    return g_elem(a[2])
                g.o.contracts["ObtainExtr"] = contract
            g.call("Retraction", g.x, e, Ptr(r))
            eq(rt, r, y, "the retraction is (G + dG, H + dH): value x at zero, derivative eta, and a point of the manifold while the rank stays r")
            for k in (0, 1):
                c = r.elements[k]
                need(rt, "_L" in c.fields, "the Cholesky factors are attached to the new point")
                L = c.fields["_L"].val()
                eq(rt, L * L.T, y.c[k].T * y.c[k], "the attached factor is that of the new point")

    @ob(("C06", "C07"), "%s::EucGradToGrad" % cls)
    def _(rt):
        g = G(rt)
        A, r, xi = M.sym(sym("A", g.m, g.n)), g.res(), g.tan("t")
        G0 = Pair(A * g.Y.c[1], A.T * g.Y.c[0])
        g.call("EucGradToGrad", g.x, g.e(G0, "egf"), Ptr(prob(rt, usehess=True)), Ptr(r))
        v = Pair.of(r)
        g.ishor(v, "EucGradToGrad")
        eq(rt, g.metric(v, xi), G0.c[0].dot(xi.c[0]) + G0.c[1].dot(xi.c[1]), "<grad, xi>_x = <egf, xi> for every horizontal xi")
        need(rt, "EGrad" in g.x.fields, "EucGradToGrad stores the Euclidean gradient on x when the Hessian is used")
        eq(rt, g.x.fields["EGrad"], G0, "the stored Euclidean gradient is egf")

    @ob("C07", "%s::EucHvToHv" % cls)
    def _(rt):
        g = G(rt)
        A, B = M.sym(sym("A", g.m, g.n)), M.sym(sym("B", g.m, g.n))
        (Gm, Hm), eta, z, r = g.Y, g.tan("1"), g.tan("z"), g.res()
        G0 = Pair(A * Hm, A.T * Gm)
        E = Pair(B * Hm + A * eta.c[1], B.T * Gm + A.T * eta.c[0])
        g.call("GenerateFieldsX", g.x)
        g.x.fields["EGrad"] = g.e(G0, "EGrad")
        g.call("EucHvToHv", g.x, g.e(eta, "eta"), g.e(E, "exix"), Ptr(prob(rt)), Ptr(r))
        v = Pair.of(r)
        g.ishor(v, "EucHvToHv")
        P1, P2 = M.eye(g.m) - M.sym(g.X[0]) * M.sym(g.X[0]).T, M.eye(g.n) - M.sym(g.X[1]) * M.sym(g.X[1]).T
        Z = Gm * z.c[1].T + z.c[0] * Hm.T
        eq(rt, g.metric(v, z), B.dot(Z) + (P1 * A * P2).dot(eta.c[0] * z.c[1].T + z.c[0] * eta.c[1].T),
           "<Hess eta, xi> = <DGrad[eta], xi> + <gradient, second fundamental form of the fixed rank matrices>")

    @ob("C08", "%s: intrinsic coordinates" % cls)
    def _(rt):
        g = G(rt, tri=True)
        x, t = g.x, g.tan("1")
        r, b = out(g.d, 1), g.res("back")
        g.call("ObtainIntr", x, g.e(t, "eta"), Ptr(r))
        v = r.val()
        eq(rt, v.dot(v), g.metric(t, t), "ObtainIntr is isometric")
        g.call("ObtainExtr", x, r, Ptr(b))
        eq(rt, b, t, "ObtainExtr(ObtainIntr(eta)) = eta")

    @ob("C08", "%s: every coordinate vector is one of a horizontal vector" % cls)
    def _(rt):
        g = G(rt, tri=True)
        w = M.sym(sym("w", g.d, 1))
        b2, r2 = g.res("ext"), out(g.d, 1)
        g.call("ObtainExtr", g.x, elem(w, "w"), Ptr(b2))
        g.ishor(Pair.of(b2), "ObtainExtr")
        g.call("ObtainIntr", g.x, b2, Ptr(r2))
        eq(rt, r2, w, "ObtainIntr(ObtainExtr(v)) = v")

    @ob(("C09", "C10"), "%s: derivative of the retraction, extrinsic" % cls)
    def _(rt):
        g = G(rt)
        Xy, Cy = g.point("y")
        Y = Pair(*[M.sym(X) * Cl for X, Cl in zip(Xy, Cy)])
        y, xi, r = g.e(Y, "y"), g.tan("xi"), g.res()
        g.call("DiffRetraction", g.x, g.e(g.tan("1")), y, g.e(xi), Ptr(r), False)
        v = Pair.of(r)
        g.ishor(v, "DiffRetraction", Y)
        d = xi - v
        L = inverse(Y.c[0].T * Y.c[0]) * (Y.c[0].T * d.c[0])
        eq(rt, Pair(Y.c[0] * L, -(Y.c[1] * L.T)), d, "it differs from the derivative of (G + dG, H + dH) by a vertical vector")

    @ob(("C09", "C10"), "%s: locking data" % cls)
    def _(rt):
        g = G(rt)
        Xy, Cy = g.point("y")
        T1, T2 = M.sym(sym("ProjG", g.m, g.m)), M.sym(sym("ProjH", g.n, g.n))

        def lin(rt_, o, a):     # the projection only matters as a linear map here
            i = Pair.of(g_elem(a[1]))
            g_elem(a[2]).assign(g.e(Pair(T1 * i.c[0], T2 * i.c[1])))
            return g_elem(a[2])
        g.o.contracts["ExtrProjection"] = lin
        beta_block(rt, g, "DiffRetraction", g.x, g.e(g.tan("1"), "eta"), g.e(Pair(*[M.sym(X) * Cl for X, Cl in zip(Xy, Cy)]), "y"), g.res)

    for name, frm, to in (("VectorTransport", 0, 2), ("InverseVectorTransport", 2, 0)):
        for mode in ("intrinsic", "extrinsic"):
            @ob("C09", "%s::%s %s" % (cls, name, mode))
            def _(rt, name=name, frm=frm, to=to, mode=mode):
                g = G(rt, IsIntrApproach=mode == "intrinsic")
                Xy, Cy = g.point("y")
                y = g.e(Pair(*[M.sym(X) * Cl for X, Cl in zip(Xy, Cy)]), "y")
                w = M.sym(sym("w", g.d, 1))
                if mode == "intrinsic":
                    r = out(g.d, 1)
                    g.call(name, g.x, elem(M.sym(sym("v", g.d, 1)), "eta"), y, elem(w, "xi"), Ptr(r))
                    eq(rt, r, w, "the coordinates are kept: isometric, and each undoes the other")
                    return
                args = [g.x, g.e(g.tan("1")), y, g.e(g.amb("xi"), "xi")]
                fin = g.amb("fin")
                log = []

                def intr(rt_, o, a):
                    log.append(("i", g_elem(a[0]), Pair.of(g_elem(a[1]))))
                    g_elem(a[2]).setval(w)
                    return g_elem(a[2])

                def extr(rt_, o, a):
                    log.append(("e", g_elem(a[0]), g_elem(a[1]).val()))
                    g_elem(a[2]).assign(g.e(fin))
                    return g_elem(a[2])
                g.o.contracts["ObtainIntr"], g.o.contracts["ObtainExtr"] = intr, extr
                r = g.res()
                xi0 = Pair.of(args[3])
                g.call(name, *args, Ptr(r))
                need(rt, [l[0] for l in log] == ["i", "e"], "coordinates are taken once and turned back once")
                need(rt, log[0][1] is args[frm] and log[1][1] is args[to], "coordinates at the point the vector belongs to, and back at the other point")
                eq(rt, log[0][2], xi0, "the coordinates are those of the transported vector")
                eq(rt, log[1][2], w, "the same coordinates are turned back")
                eq(rt, r, fin, "and the result is returned")


reg(Q2F)


class CQ2F(Q2F):
    CLS = "CFixedRankQ2F"
    cplx = True


reg(CQ2F)
