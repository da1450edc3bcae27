"""Unit sphere in a tangent space of another manifold.  The vectors of that tangent space are written in coordinates that are
orthonormal for its metric (a contract on the inner manifold: its operations at the root are those of an inner product space,
its projection is a symmetric idempotent)."""
from geo import *
from spec_stiefel import g_elem
from spec_sphere import Sph, cs
from spec_stiefel2 import beta_block


class STx(Sph):
    def __init__(self, rt, **cfg):
        Sph.__init__(self, rt, **cfg)
        n = setnum(self.n, lambda I: 4 + I.seed % 4)
        self.P = sym("P", n, n, symm=1, num=lambda I: (lambda x, v: (lambda q: np.eye(len(x)) - q @ q.T)(v - x @ (x.T @ v)))(
            I.symv(self.X), np.linalg.qr(np.hstack([I.symv(self.X), I.rng.standard_normal((int(I.s(n)), 1))]))[0][:, 1:2]))
        P = letter(self.P)
        add_rule((P, P), M.sym(self.P))
        add_rule((P, letter(self.X)), M.sym(self.X))
        self.root = elem(M.sym(sym("root", n, 1)), "root")
        self.inner = Obj("Manifold", rt)
        c = self.inner.contracts
        V = lambda e: g_elem(e).val()
        num = lambda a: S.of(rt.tonum(a.get() if isinstance(a, (Cell, FieldCell)) else a))

        def at(a):
            e = g_elem(a)
            need(rt, e is self.root or e.val() is self.root.val(), "the operations of the inner manifold are taken at the root")

        def metric(rt_, o, a):
            at(a[0])
            return V(a[1]).dot(V(a[2]))

        def proj(rt_, o, a):
            at(a[0])
            return put(a[2], M.sym(self.P) * V(a[1]))

        def put(e, v):
            g_elem(e).setval(v)
            return g_elem(e)

        def sv(rt_, o, a):
            return put(a[3], V(a[2]).scale(num(a[1])))

        def sva(rt_, o, a):
            at(a[0])
            return put(a[4], V(a[2]).scale(num(a[1])) + V(a[3]))

        def vlc(rt_, o, a):
            at(a[0])
            return put(a[5], V(a[2]).scale(num(a[1])) + V(a[4]).scale(num(a[3])))
        c.update(Metric=metric, Projection=proj, ScalarTimesVector=sv, ScalarVectorAddVector=sva, VectorLinearCombination=vlc)
        self.o = Obj("SphereTx", rt, mani=Ptr(self.inner), root=self.root, IsIntrApproach=False, HasHHR=cfg.get("HasHHR", False),
                     EMPTYEXTR=out(n, 1, "EMPTYEXTR"), EMPTYINTR=out(S.of(0), 1, "EMPTYINTR"), IntrinsicDim=self.d, ExtrinsicDim=n)

    def ortho(self, tag, others=(), unit=False):
        ls = [self.X] + list(others)

        def num(I):
            P = I.symv(self.P)
            q, s, _ = np.linalg.svd(np.hstack([P @ I.symv(s) for s in ls]), full_matrices=False)
            q = q[:, s > 1e-9]
            v = P @ I.rng.standard_normal((int(I.s(self.n)), 1))
            v = v - q @ (q.T @ v)
            nv = np.linalg.norm(v)
            if nv < 1e-9:
                if unit:
                    raise Unsupported("no such vector in this dimension")
                return 0 * v
            return v / nv if unit else v
        u = sym(tag, self.n, 1, num=num)
        for s in ls:
            add_rule((letter(s, 1), letter(u)), M.zero(1, 1))
        add_rule((letter(self.P), letter(u)), M.sym(u))
        if unit:
            add_rule((letter(u, 1), letter(u)), M.eye(1))
        return u

    def istan(self, m, what, X=None):
        X = (X.val() if isinstance(X, Elem) else X) if X is not None else M.sym(self.X)
        eq(self.rt, X.T * m, M.zero(1, 1), what + ": orthogonal to the point")
        eq(self.rt, M.sym(self.P) * m, m, what + ": in the tangent space of the inner manifold")

    def any(self, tag):
        return M.sym(self.P) * M.sym(sym(tag, self.n, 1))


@ob(("C04", "C06", "C07"), "SphereTx: projection, gradient and Hessian")
def _(rt):
    g = STx(rt)
    X, P = g.x.val(), M.sym(g.P)
    z, r, r2 = M.sym(sym("Z", g.n, 1)), g.res(), g.res()
    g.call("Projection", g.x, g.e(z), Ptr(r))
    g.istan(r.val(), "Projection")
    t = g.tan("t")
    eq(rt, (z - r.val()).dot(t), 0, "the removed part is orthogonal to every tangent vector")
    g.call("Projection", g.x, g.e(t), Ptr(r2))
    eq(rt, r2, t, "tangent vectors are left unchanged")
    e = g.e(z)
    g.call("Projection", g.x, e, Ptr(e))
    eq(rt, e, r.val(), "result = input")
    G0, E, eta, xi = M.sym(sym("G", g.n, 1)), M.sym(sym("E", g.n, 1)), g.tan("1"), g.tan("2")
    g.call("EucGradToGrad", g.x, g.e(G0), Ptr(prob(rt, usehess=True)), Ptr(r))
    g.istan(r.val(), "EucGradToGrad")
    eq(rt, r.val().dot(xi), G0.dot(xi), "gradient: inner product with every tangent vector")
    need(rt, "EGrad" in g.x.fields, "the gradient in the inner tangent space is kept for the Hessian")
    eq(rt, g.x.fields["EGrad"], G0, "the stored gradient")
    g.call("EucHvToHv", g.x, g.e(eta), g.e(E), Ptr(prob(rt)), Ptr(r))
    g.istan(r.val(), "EucHvToHv")
    eq(rt, r.val().dot(xi), E.dot(xi) - G0.dot(X) * eta.dot(xi), "Hessian: second derivative along great circles")


@ob("C05", "SphereTx::Retraction: the geodesic")
def _(rt):
    g = STx(rt)
    t, u, eta, _ = g.polar()
    r = g.res("y")
    rt.assume(Cond("<=", var("eps", pos=True), t))
    g.call("Retraction", g.x, eta, Ptr(r))
    c, s = cs(t)
    g.onman(r.val(), "exponential map")
    eq(rt, r, g.x.val().scale(c) + u.scale(s), "y = cos|eta| x + sin|eta|/|eta| eta (in the tangent space; value x and derivative eta at 0)")


@ob("C05", "SphereTx::Retraction: steps shorter than the rounding unit")
def _(rt):
    g = STx(rt)
    t, u, eta, _ = g.polar()
    r = g.res("y")
    rt.assume(Cond("<", t, var("eps", pos=True)))
    rt.assume(Cond("<", S.of(0), cs(t)[0]))
    g.call("Retraction", g.x, eta, Ptr(r))
    g.onman(r.val(), "exponential map")
    eq(rt, M.sym(g.P) * r.val(), r.val(), "in the tangent space of the inner manifold")


@ob("C05", "SphereTx::Retraction: zero vector")
def _(rt):
    g = STx(rt)
    r = g.res("y")
    g.call("Retraction", g.x, g.e(M.zero(g.n, 1), "eta"), Ptr(r))
    eq(rt, r, g.x.val(), "retraction of the zero vector is the point itself")


def two(rt, **k):
    g = STx(rt, **k)

    def num(I):
        P = I.symv(g.P)
        v = P @ I.rng.standard_normal((int(I.s(g.n)), 1))
        return v / np.linalg.norm(v)
    Y = sym("y", g.n, 1, num=num)
    add_rule((letter(Y, 1), letter(Y)), M.eye(1))
    add_rule((letter(g.P), letter(Y)), M.sym(Y))
    y = g.e(M.sym(Y), "y")
    q = g.x.val() + y.val()
    rt.assume(Cond("<", S.of(0), q.dot(q)))
    eta = g.e(g.tan("1"), "eta")
    z = g.any("zy")
    zy = z - y.val() * (y.val().T * z)
    return g, y, eta, zy


@ob("C09", "SphereTx: parallel translation")
def _(rt):
    g, y, eta, zy = two(rt)
    a, b = g.tan("2"), g.tan("3")
    r, s, v = g.res(), g.res(), g.res()
    g.call("VectorTransport", g.x, eta, y, g.e(a, "a"), Ptr(r))
    g.call("VectorTransport", g.x, eta, y, g.e(b, "b"), Ptr(s))
    g.istan(r.val(), "VectorTransport", y)
    eq(rt, r.val().dot(s.val()), a.dot(b), "isometric")
    g.call("InverseVectorTransport", g.x, eta, y, r, Ptr(v))
    eq(rt, v, a, "the inverse undoes the transport")
    g.call("InverseVectorTransport", g.x, eta, y, g.e(zy, "z"), Ptr(r))
    g.istan(r.val(), "InverseVectorTransport")
    g.call("VectorTransport", g.x, eta, y, r, Ptr(v))
    eq(rt, v, zy, "the transport undoes the inverse")


@ob("C09", "SphereTx: transport and its inverse with result = input")
def _(rt):
    for nm in ("VectorTransport", "InverseVectorTransport"):
        g, y, eta, zy = two(rt)
        a = g.tan("2") if nm == "VectorTransport" else zy
        r, e = g.res(), g.e(a, "a")
        g.call(nm, g.x, eta, y, g.e(a, "a"), Ptr(r))
        g.call(nm, g.x, eta, y, e, Ptr(e))
        eq(rt, e, r.val(), nm)


def moved(g):
    t, u, eta, us = g.polar()
    c, s = cs(t)
    y = g.e(g.x.val().scale(c) + M.sym(us).scale(s), "y")
    g.rt.assume(Cond("<", S.of(0), 2 + c * 2))
    return t, u, eta, us, y


@ob(("C09", "C10"), "SphereTx: transport and differentiated retraction along the geodesic")
def _(rt):
    g = STx(rt)
    t, u, eta, us, y = moved(g)
    c, s = cs(t)
    w = g.ortho("w", [us])
    r = g.res()
    g.call("VectorTransport", g.x, eta, y, g.e(u), Ptr(r))
    eq(rt, r, u.scale(c) - g.x.val().scale(s), "the velocity of the geodesic is transported to the velocity at y")
    g.call("VectorTransport", g.x, eta, y, g.e(M.sym(w)), Ptr(r))
    eq(rt, r, M.sym(w), "vectors orthogonal to the geodesic are kept")
    a = setnum(var("a"), lambda I: I.rng.standard_normal())
    g.call("DiffRetraction", g.x, eta, y, g.e(u.scale(a)), Ptr(r), True)
    eq(rt, r, (u.scale(c) - g.x.val().scale(s)).scale(a), "derivative of cos|eta| x + sin|eta|/|eta| eta in direction a eta/|eta|")


@ob(("C09", "C10"), "SphereTx::DiffRetraction locking data")
def _(rt):
    g = STx(rt)
    t, u, eta, us, y = moved(g)
    beta_block(rt, g, "DiffRetraction", g.x, eta, y, g.res, same=True)


@ob("C09", "SphereTx::Beta")
def _(rt):
    g = STx(rt)
    eta = g.e(g.tan("1"), "eta")
    eq(rt, g.call("Beta", g.x, eta), 1, "the transport of the step is the differentiated retraction itself")


@ob(("C08", "C09"), "SphereTx: vector operations are those of the inner tangent space")
def _(rt):
    g = STx(rt)
    a, b = g.tan("2"), g.tan("3")
    p, q = var("p"), var("q")
    r = g.res()
    eq(rt, g.call("Metric", g.x, g.e(a), g.e(b)), a.dot(b), "Metric")
    g.call("ScalarTimesVector", g.x, p, g.e(a), Ptr(r))
    eq(rt, r, a.scale(p), "ScalarTimesVector")
    g.call("ScalarVectorAddVector", g.x, p, g.e(a), g.e(b), Ptr(r))
    eq(rt, r, a.scale(p) + b, "ScalarVectorAddVector")
    g.call("VectorLinearCombination", g.x, p, g.e(a), q, g.e(b), Ptr(r))
    eq(rt, r, a.scale(p) + b.scale(q), "VectorLinearCombination")
