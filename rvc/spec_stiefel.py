"""Stiefel manifold St(p,n) = {X : X'X = I}: tangent vectors X*Om + N with Om skew and X'N = 0."""
from geo import *

EUC, CANON = 0, 1
QF, POLAR, EXP, CAYLEY = 0, 1, 2, 3
PARA, RIG, PT, PROJ, CAYVT = 0, 1, 2, 3, 4


class St:
    CLS = "Stiefel"
    cplx = False

    def __init__(self, rt, fields=False, **cfg):
        self.rt = rt
        ps = [1, 2, 3, 2, 1, 3]
        self.n = n = newdim("n", lambda I: ps[I.seed % 6] + [0, 1, 2, 3][I.seed % 4])
        self.p = p = newdim("p", lambda I: ps[I.seed % 6])
        rt.dimfacts += [Cond("<", S.of(0), p), Cond("<=", p, n)]
        self.d = n * p * 2 - p * p if self.cplx else n * p - p * (p + 1) / 2
        self.X = sym("X", n, p, num=lambda I: np.linalg.qr(I.rng.standard_normal((int(I.s(n)), int(I.s(p)))))[0])
        add_rule((letter(self.X, 1), letter(self.X)), M.eye(p))
        self.x = elem(M.sym(self.X), "x", self.cplx)
        f = dict(n=n, p=p, IsIntrApproach=False, HasHHR=False, metric=S.of(EUC), retraction=S.of(QF), VecTran=S.of(PARA),
                 EMPTYEXTR=out(n, p, "EMPTYEXTR", self.cplx), EMPTYINTR=out(self.d, 1, "EMPTYINTR"), IntrinsicDim=self.d, ExtrinsicDim=n * p)
        for k, v in cfg.items():
            f[k] = S.of(v) if isinstance(v, int) and not isinstance(v, bool) else v
        self.canon = cfg.get("metric") == CANON
        self.o = Obj(self.CLS, rt, **f)
        self.o.contracts["SYMINTR"] = None
        del self.o.contracts["SYMINTR"]

    # ---- vectors
    def tan(self, tag="1", X=None):
        X = X or self.X
        nm = X.name
        Om = sym("Om" + tag, self.p, self.p, symm=-1)
        N = sym("N" + tag, self.n, self.p, num=lambda I: (lambda x, g: g - x @ (x.T @ g))(
            I.symv(X), I.rng.standard_normal((int(I.s(self.n)), int(I.s(self.p))))))
        add_rule((letter(X, 1), letter(N)), M.zero(self.p, self.p))
        return M.sym(X) * M.sym(Om) + M.sym(N)

    def amb(self, tag="Z"):
        return M.sym(sym(tag, self.n, self.p))

    def e(self, m, name=""):
        return elem(m, name, self.cplx)

    def res(self, name="result"):
        return out(self.n, self.p, name, self.cplx)

    def istan(self, m, what, X=None):
        X = M.sym(X or self.X) if not isinstance(X, M) else X
        eq(self.rt, X.T * m + m.T * X, M.zero(self.p, self.p), what + ": result is tangent (X'Z + Z'X = 0)")

    def onman(self, m, what):
        eq(self.rt, m.T * m, M.eye(self.p), what + ": result is on the manifold (Y'Y = I)")

    def metric(self, a, b, X=None):
        X = M.sym(X or self.X) if not isinstance(X, M) else X
        r = a.dot(b)
        if self.canon:
            r = r - (X.T * a).dot(X.T * b) * S.const(Fraction(1, 2))
        return r

    def call(self, name, *a, **k):
        return reach(self.rt, self.o, name, *a, **k)


CLS = {"Stiefel": St}


class CSt(St):
    CLS = "CStiefel"
    cplx = True


CLS["CStiefel"] = CSt


def reg(cls):
    G = CLS[cls]

    # ------------------------------------------------------------------ C04
    @ob("C04", cls + "::ExtrProjection")
    def _(rt):
        g = G(rt)
        z, r = g.amb(), g.res()
        g.call("ExtrProjection", g.x, g.e(z), Ptr(r))
        v = r.val()
        g.istan(v, "ExtrProjection")
        t = g.tan("t")
        eq(rt, (z - v).dot(t), 0, "ExtrProjection: the removed part is orthogonal to every tangent vector")
        r2 = g.res()
        g.call("ExtrProjection", g.x, g.e(t), Ptr(r2))
        eq(rt, r2, t, "ExtrProjection: tangent vectors are left unchanged")

    @ob("C04", cls + "::Projection dispatch")
    def _(rt):
        g = G(rt, IsIntrApproach=False)
        z, r, r2 = g.amb(), g.res(), g.res()
        g.call("Projection", g.x, g.e(z), Ptr(r))
        g.call("ExtrProjection", g.x, g.e(z), Ptr(r2))
        eq(rt, r, r2.val(), "Projection (extrinsic mode) is the orthogonal projection")
        g = G(rt, IsIntrApproach=True)
        v = M.sym(sym("v", g.d, 1))
        r = out(g.d, 1)
        g.call("Projection", g.x, elem(v), Ptr(r))
        eq(rt, r, v, "Projection (intrinsic mode) keeps intrinsic vectors")

    @ob("C04", cls + "::ExtrProjection in place")
    def _(rt):
        g = G(rt)
        z = g.amb()
        r, e = g.res(), g.e(z)
        g.call("ExtrProjection", g.x, g.e(z), Ptr(r))
        g.call("ExtrProjection", g.x, e, Ptr(e))
        eq(rt, e, r.val(), "ExtrProjection with result = input")

    # ------------------------------------------------------------------ C05
    for rname, rv in (("QF", QF), ("POLAR", POLAR)) + ((("CAYLEY", CAYLEY),) if cls == "Stiefel" else ()):
        for mode in ("extrinsic", "intrinsic"):
            if mode == "intrinsic" and rname == "CAYLEY":
                continue

            def body(rt, what, rv=rv, mode=mode, rname=rname):
                g = G(rt, retraction=rv, IsIntrApproach=mode == "intrinsic")
                eta = g.tan("1")
                if what == "first order":
                    eta = eta.scale(eps())
                if what == "zero vector":
                    eta = M.zero(g.n, g.p)
                r = g.res("y")
                if mode == "intrinsic":
                    v = elem(M.sym(sym("v", g.d, 1)), "v")

                    def contract(rt_, o, a):
                        need(rt_, g_elem(a[0]) is g.x and g_elem(a[1]) is v, "ObtainExtr is applied to the base point and the given vector")
                        g_elem(a[2]).setval(eta)
                        return g_elem(a[2])
                    for nm in ("ObtainExtr", "ObtainExtrHHR"):
                        g.o.contracts[nm] = contract
                    e = v
                else:
                    e = g.e(eta, "eta")
                g.call("Retraction", g.x, e, Ptr(r))
                y = r.val()
                if what == "on the manifold":
                    g.onman(y, rname + " retraction")
                elif what == "zero vector":
                    eq(rt, y, g.x.val(), "retraction of the zero vector is the point itself")
                else:
                    d0d1(rt, y, g.x.val(), g.tan("1") if False else coeff(eta, 1), rname + " retraction agrees with x + eta to first order")
            for what in ("on the manifold", "zero vector", "first order"):
                ob("C05", "%s::Retraction %s %s: %s" % (cls, rname, mode, what))(lambda rt, what=what, body=body: body(rt, what))

    # ------------------------------------------------------------------ C06
    for mname, mv in (("EUCLIDEAN", EUC), ("CANONICAL", CANON)):
        @ob("C06", "%s::EucGradToGrad %s" % (cls, mname))
        def _(rt, mv=mv):
            g = G(rt, metric=mv)
            G0, r = g.amb("G"), g.res()
            g.call("EucGradToGrad", g.x, g.e(G0, "egf"), Ptr(prob(rt)), Ptr(r))
            v = r.val()
            g.istan(v, "EucGradToGrad")
            t = g.tan("t")
            eq(rt, g.metric(v, t), G0.dot(t), "EucGradToGrad: <grad, xi>_x = <egf, xi> for every tangent xi")

        @ob("C06", "%s::EucGradToGrad %s in place" % (cls, mname))
        def _(rt, mv=mv):
            g = G(rt, metric=mv)
            G0, r = g.amb("G"), g.res()
            g.call("EucGradToGrad", g.x, g.e(G0, "egf"), Ptr(prob(rt)), Ptr(r))
            e = g.e(G0, "egf")
            g.call("EucGradToGrad", g.x, e, Ptr(prob(rt)), Ptr(e))
            eq(rt, e, r.val(), "EucGradToGrad with result = input")

        # -------------------------------------------------------------- C07
        @ob("C07", "%s::EucHvToHv %s" % (cls, mname))
        def _(rt, mv=mv):
            g = G(rt, metric=mv)
            G0, E, r = g.amb("G"), g.amb("EH"), g.res()
            eta, z = g.tan("1"), g.tan("z")
            g.x.fields["EGrad"] = g.e(G0, "EGrad")
            g.call("EucHvToHv", g.x, g.e(eta, "eta"), g.e(E, "exix"), Ptr(prob(rt)), Ptr(r))
            v = r.val()
            g.istan(v, "EucHvToHv")
            X = g.x.val()
            half = S.const(Fraction(1, 2))

            def q(a):      # acceleration of the geodesic with velocity a
                if mv == EUC:
                    return -(X * (a.T * a))
                return -(a * (a.T * X)) - X * ((X.T * a) * (X.T * a)) - X * (a.T * a)
            acc = (q(eta + z) - q(eta) - q(z)).scale(half)
            eq(rt, g.metric(v, z), E.dot(z) + G0.dot(acc),
               "EucHvToHv: <Hess eta, xi>_x = <EucHess[eta], xi> + <egf, second-order term of the geodesic>")

        @ob("C07", "%s::EucHvToHv %s in place" % (cls, mname))
        def _(rt, mv=mv):
            g = G(rt, metric=mv)
            G0, E, r = g.amb("G"), g.amb("EH"), g.res()
            eta = g.tan("1")
            g.x.fields["EGrad"] = g.e(G0, "EGrad")
            g.call("EucHvToHv", g.x, g.e(eta, "eta"), g.e(E, "exix"), Ptr(prob(rt)), Ptr(r))
            e = g.e(E, "exix")
            g.call("EucHvToHv", g.x, g.e(eta, "eta"), e, Ptr(prob(rt)), Ptr(e))
            eq(rt, e, r.val(), "EucHvToHv with result = exix")

    @ob(("C06", "C07"), cls + "::EucGradToGrad keeps the Euclidean gradient for EucHvToHv")
    def _(rt):
        g = G(rt)
        G0, r = g.amb("G"), g.res()
        g.call("EucGradToGrad", g.x, g.e(G0, "egf"), Ptr(prob(rt, usehess=True)), Ptr(r))
        need(rt, "EGrad" in g.x.fields, "EucGradToGrad stores the Euclidean gradient on x when the Hessian is used")
        eq(rt, g.x.fields["EGrad"], G0, "the stored Euclidean gradient is egf")

    # ------------------------------------------------------------------ C08
    if cls in ("Stiefel", "CStiefel"):
        for fk in ("no cached factors", "factors cached by the qf retraction"):
            @ob("C08", cls + "::ObtainIntr/ObtainExtr, " + fk)
            def _(rt, fk=fk):
                g = G(rt)
                if fk == "no cached factors":
                    x, X = g.x, g.X
                    t = g.tan("1")
                else:
                    x = g.res("y")
                    g.call("Retraction", g.x, g.e(g.tan("0"), "eta"), Ptr(x))
                    x.name = "y"
                    Y = x.val()
                    Om = sym("Om1", g.p, g.p, symm=-1)
                    W = sym("W1", g.n, g.p)
                    N = M.sym(W) - Y * (Y.T * M.sym(W))
                    t = Y * M.sym(Om) + N
                r, b = out(g.d, 1), g.res("back")
                g.call("ObtainIntr", x, g.e(t, "eta"), Ptr(r))
                v = r.val()
                eq(rt, v.dot(v), t.dot(t), "ObtainIntr is isometric")
                g.call("ObtainExtr", x, r, Ptr(b))
                eq(rt, b, t, "ObtainExtr(ObtainIntr(eta)) = eta")
                w = M.sym(sym("w", g.d, 1))
                b2, r2 = g.res("ext"), out(g.d, 1)
                g.call("ObtainExtr", x, elem(w, "w"), Ptr(b2))
                B = b2.val()
                g.istan(B, "ObtainExtr", x.val())
                # |ObtainExtr(w)| = |w| follows: ObtainIntr is isometric on every tangent vector and ObtainIntr(ObtainExtr(w)) = w
                g.call("ObtainIntr", x, b2, Ptr(r2))
                eq(rt, r2, w, "ObtainIntr(ObtainExtr(v)) = v")


def g_elem(a):
    while not isinstance(a, Elem):
        if isinstance(a, Ptr):
            a = a.to
        elif hasattr(a, "get"):
            a = a.get()
        else:
            raise Unsupported("expected an element argument, got %r" % (a,))
    return a


for c in CLS:
    reg(c)
