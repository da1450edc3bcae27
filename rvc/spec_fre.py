"""Fixed rank matrices as an embedded manifold: a point is U D V' (U, V orthonormal columns, D any invertible r x r matrix) with the
factors in its fields; a tangent vector is U D dV' + U dD V' + dU D V' with dU, dV orthogonal to U, V and its parts in its fields."""
from geo import *
from spec_stiefel import g_elem
from elemapi import qr, svd, Vec
from spec_prob import *


class FRE:
    CLS = "FixedRankE"

    def __init__(self, rt, **cfg):
        self.rt = rt
        ps = [1, 2, 3, 2, 1, 3]
        self.r = r = newdim("r", lambda I: ps[I.seed % 6])
        self.m = m = newdim("m", lambda I: ps[I.seed % 6] + [1, 0, 2, 3][I.seed % 4])
        self.n = n = newdim("n", lambda I: ps[I.seed % 6] + [2, 1, 0, 1][I.seed % 4])
        rt.dimfacts += [Cond("<", S.of(0), r), Cond("<=", r, m), Cond("<=", r, n)]
        self.d = (m + n - r) * r
        self.U, self.V = self.orth("U", m), self.orth("V", n)
        self.D = sym("D", r, r)
        self.X = [M.sym(self.U), M.sym(self.D), M.sym(self.V)]
        self.x = self.pt(self.X, "x")
        f = dict(m=m, n=n, r=r, IsIntrApproach=False, HasHHR=False, EMPTYEXTR=self.res("EMPTYEXTR"), EMPTYINTR=out(self.d, 1, "EMPTYINTR"), IntrinsicDim=self.d,
                 ExtrinsicDim=m * n)
        for k, (a, b) in (("dU", (m, r)), ("dD", (r, r)), ("dV", (n, r))):
            f["EMPTYEXTR"].fields[k] = out(a, b, k)
        f.update(cfg)
        self.o = Obj(self.CLS, rt, **f)

    def orth(self, name, q):
        X = sym(name, q, self.r, num=lambda I: np.linalg.qr(I.rng.standard_normal((int(I.s(q)), int(I.s(self.r)))))[0])
        add_rule((letter(X, 1), letter(X)), M.eye(self.r))
        return X

    def pt(self, X, name):
        e = elem(X[0] * X[1] * X[2].T, name)
        for k, v in zip(("U", "D", "V"), X):
            e.fields[k] = elem(v, k)
        return e

    def perp(self, tag, X, q):
        N = sym(tag, q, self.r, num=lambda I: (lambda x, g: g - x @ (x.T @ g))(I.symv(X), I.rng.standard_normal((int(I.s(q)), int(I.s(self.r))))))
        add_rule((letter(X, 1), letter(N)), M.zero(self.r, self.r))
        return M.sym(N)

    def tan(self, tag="1"):
        return [self.perp("dU" + tag, self.U, self.m), M.sym(sym("dD" + tag, self.r, self.r)), self.perp("dV" + tag, self.V, self.n)]

    def val(self, t, X=None):
        U, D, V = X or self.X
        return U * D * t[2].T + U * t[1] * V.T + t[0] * D * V.T

    def e(self, t, name="", X=None):
        e = elem(self.val(t, X), name)
        for k, v in zip(("dU", "dD", "dV"), t):
            e.fields[k] = elem(v, k)
        return e

    def res(self, name="result"):
        return out(self.m, self.n, name)

    def parts(self, v):
        for k in ("dU", "dD", "dV"):
            need(self.rt, k in v.fields, "the result carries the field " + k)
        return [v.fields[k].val() for k in ("dU", "dD", "dV")]

    def istan(self, v, what, X=None):
        """the parts are those of a tangent vector and the matrix is the one they stand for"""
        U, D, V = X or self.X
        t = self.parts(v)
        Z = M.zero(self.r, self.r)
        eq(self.rt, U.T * t[0], Z, what + ": dU is orthogonal to U")
        eq(self.rt, V.T * t[2], Z, what + ": dV is orthogonal to V")
        eq(self.rt, v, self.val(t, X), what + ": the matrix is U D dV' + U dD V' + dU D V' of its fields")
        return t

    def same(self, v, t, what, X=None):
        eq(self.rt, v, self.val(t, X), what + ": matrix")
        for k, w, z in zip(("dU", "dD", "dV"), self.parts(v), t):
            eq(self.rt, w, z, what + ": field " + k)

    def metric(self, a, b, X=None):
        return self.val(a, X).dot(self.val(b, X))

    def call(self, name, *a, **k):
        return reach(self.rt, self.o, name, *a, **k)

    def movedpoint(self, t=None):
        """y = R_x(eta) computed by the code for a general step: U + dU = A = Q Us S Vt with U'A = I (the same for V)"""
        rt = self.rt
        dec = []
        step = []
        for tag, X, q in (("1", self.U, self.m), ("2", self.V, self.n)):
            A = sym("A" + tag, q, self.r, num=lambda I, X=X, q=q: (lambda x, g: x + g - x @ (x.T @ g))(I.symv(X), I.rng.standard_normal((int(I.s(q)), int(I.s(self.r))))))
            Q, R = qr(M.sym(A))
            (rw, _), = R.t.items()
            Us, Sg, Vt = svd(R)
            add_rule(rw, Us * Sg * Vt)
            (uw, _), = Us.t.items()
            add_rule((letter(Us_of(Us)), letter(Us_of(Us), 1)), M.eye(self.r))
            (qw, _), = Q.t.items()
            add_rule((letter(X, 1),) + qw + uw, Vt.T * inverse(Sg))
            dec.append((Us * Sg * Vt, Us, Sg, Vt))
            step.append(M.sym(A) - M.sym(X))
        api = rt.elemapi
        old = api.m_SVDDecom

        def svdcon(rt_, e):
            for R, Us, Sg, Vt in dec:
                if api.mat(e).same(R):
                    e.fields["_U"], e.fields["_S"], e.fields["_Vt"] = api.new(Us, e), api.vecnew(Sg, e), api.new(Vt, e)
                    return
            return old(rt_, e)
        api.m_SVDDecom = svdcon
        self.dec = dec
        self.t = [step[0], M.sym(sym("Dy", self.r, self.r)) - self.X[1], step[1]]
        self.eta = self.e(self.t, "eta")
        self.y = self.res("y")
        self.call("Retraction", self.x, self.eta, Ptr(self.y))
        self.Y = [self.y.fields[k].val() for k in ("U", "D", "V")]
        return self.y

    def P(self, k):
        R, Us, Sg, Vt = self.dec[k]
        return Vt.T * Sg * Vt


def Us_of(m):
    (w, _), = m.t.items()
    return C().syms[w[0] >> 1]


G = FRE


@ob("C04", "FixedRankE: projection")
def _(rt):
    g = G(rt)
    Zm = M.sym(sym("Z", g.m, g.n))
    r, r2 = g.res(), g.res()
    g.call("ExtrProjection", g.x, elem(Zm), Ptr(r))
    p = g.istan(r, "ExtrProjection")
    t = g.tan("t")
    eq(rt, (Zm - r.val()).dot(g.val(t)), S.of(0), "the removed part is orthogonal to every tangent vector")
    g.call("ExtrProjection", g.x, elem(g.val(t)), Ptr(r2))
    g.same(r2, t, "tangent vectors are left unchanged and their parts are recovered")
    e = elem(Zm)
    g.call("ExtrProjection", g.x, e, Ptr(e))
    g.same(e, p, "result = input")
    r3 = g.res()
    g.call("Projection", g.x, elem(Zm), Ptr(r3))
    g.same(r3, p, "Projection")


@ob(("C04", "C06", "C08"), "FixedRankE: metric")
def _(rt):
    g = G(rt)
    a, b = g.tan("a"), g.tan("b")
    eq(rt, g.call("Metric", g.x, g.e(a), g.e(b)), g.metric(a, b), "Metric is the inner product of the matrices")


@ob("C04", "FixedRankE: linear operations")
def _(rt):
    g = G(rt)
    a, b = g.tan("a"), g.tan("b")
    s, c = var("s"), var("c")
    lc = lambda p, u, q, v: [x.scale(p) + y.scale(q) for x, y in zip(u, v)]
    r = g.res()
    g.call("ScalarTimesVector", g.x, s, g.e(a), Ptr(r))
    g.same(r, lc(s, a, S.of(0), a), "ScalarTimesVector")
    e = g.e(a)
    g.call("ScalarTimesVector", g.x, s, e, Ptr(e))
    g.same(e, lc(s, a, S.of(0), a), "ScalarTimesVector in place")
    for name, pre, p, q in (("ScalarVectorAddVector", (s,), s, S.of(1)), ("VectorLinearCombination", (s, c), s, c)):
        for al in ("", "first", "second"):
            u, v = g.e(a, "u"), g.e(b, "v")
            r = {"": g.res(), "first": u, "second": v}[al]
            args = (u, v) if len(pre) == 1 else (u, pre[1], v)
            if al == "first" and len(pre) == 1:
                continue
            g.call(name, g.x, pre[0], *args, Ptr(r))
            g.same(r, lc(p, a, q, b), name + (" result = %s argument" % al if al else ""))
            if al != "first":
                g.same(u, a, name + " keeps its first argument")
            if al != "second":
                g.same(v, b, name + " keeps its second argument")
    # vectors without fields are projected first: tangent matrices are combined as they are
    r = g.res()
    g.call("VectorLinearCombination", g.x, s, elem(g.val(a)), c, elem(g.val(b)), Ptr(r))
    g.same(r, lc(s, a, c, b), "VectorLinearCombination of vectors without fields")


@ob("C04", "FixedRankE::LinearOPEEta")
def _(rt):
    g = G(rt)
    H = M.sym(sym("H", g.m, g.n))
    a = g.e(g.tan("a"), "a")
    op = Opaque("Hx")

    def lin(rt_, o, args):
        need(rt_, g_elem(args[0]) is g.x and (args[1].get() if isinstance(args[1], Cell) else args[1]) is op and g_elem(args[2]).val().same(a.val()), "the operator is applied to the given vector")
        g_elem(args[3]).assign(elem(H))
        return g_elem(args[3])
    g.o.contracts["Manifold::LinearOPEEta"] = lin
    r, r2 = g.res(), g.res()
    g.call("LinearOPEEta", g.x, op, a, Ptr(r))
    g.istan(r, "LinearOPEEta")
    g.call("ExtrProjection", g.x, elem(H), Ptr(r2))
    eq(rt, r, r2.val(), "the result is the tangent part of the operator's value")


@ob(("C04", "C05"), "FixedRankE::RandominManifold")
def _(rt):
    g = G(rt)
    x = g.call("RandominManifold")
    for k, q in (("U", g.m), ("D", g.r), ("V", g.n)):
        need(rt, k in x.fields, "a random point carries its factor " + k)
    U, D, V = [x.fields[k].val() for k in ("U", "D", "V")]
    eq(rt, x, U * D * V.T, "the point is U D V'")
    eq(rt, U.T * U, M.eye(g.r), "U has orthonormal columns")
    eq(rt, V.T * V, M.eye(g.r), "V has orthonormal columns")


@ob(("C06", "C07"), "FixedRankE::EucGradToGrad")
def _(rt):
    g = G(rt)
    for use in (False, True):
        E = M.sym(sym("E%d" % use, g.m, g.n))
        r = g.res()
        g.call("EucGradToGrad", g.x, elem(E), Ptr(prob(rt, usehess=use)), Ptr(r))
        g.istan(r, "EucGradToGrad")
        t = g.tan("t%d" % use)
        eq(rt, r.val().dot(g.val(t)), E.dot(g.val(t)), "the Riemannian gradient represents the Euclidean one on tangent vectors")
        if use:
            eq(rt, g.x.fields["EGrad"], E, "the Euclidean gradient is kept for the Hessian")


@ob(("C07", "C08"), "FixedRankE::EucHvToHv")
def _(rt):
    g = G(rt)
    E, H = M.sym(sym("E", g.m, g.n)), M.sym(sym("EH", g.m, g.n))
    g.x.fields["EGrad"] = elem(E)
    a, b = g.tan("a"), g.tan("b")
    r = g.res()
    g.call("EucHvToHv", g.x, g.e(a, "eta"), elem(H), Ptr(prob(rt, usehess=True)), Ptr(r))
    g.istan(r, "EucHvToHv")
    D = g.X[1]
    eq(rt, r.val().dot(g.val(b)), H.dot(g.val(b)) + E.dot(a[0] * D * b[2].T + b[0] * D * a[2].T),
       "<Hess[eta], zeta> = <EH[eta], zeta> + <egrad, second derivative of the curve>")
    e = elem(H)
    g.call("EucHvToHv", g.x, g.e(a, "eta"), e, Ptr(prob(rt, usehess=True)), Ptr(e))
    eq(rt, e, r.val(), "result = input")


@ob("C05", "FixedRankE::Retraction zero vector and first order")
def _(rt):
    g = G(rt)
    r = g.res("y")
    Z = [M.zero(g.m, g.r), M.zero(g.r, g.r), M.zero(g.n, g.r)]
    g.call("Retraction", g.x, g.e(Z), Ptr(r))
    eq(rt, r, g.x.val(), "R_x(0) = x")
    t = g.tan("t")
    r = g.res("y")
    g.call("Retraction", g.x, g.e([v.scale(eps()) for v in t]), Ptr(r))
    eq(rt, r, g.x.val() + g.val(t).scale(eps()), "DR_x(0) = id")


@ob("C05", "FixedRankE::Retraction")
def _(rt):
    g = G(rt)
    y = g.movedpoint()
    U, D, V = g.Y
    eq(rt, y, U * D * V.T, "the moved point is U D V' of its fields")
    for k, Q, t, X in ((0, U, g.t[0], g.X[0]), (1, V, g.t[2], g.X[2])):
        eq(rt, Q.T * Q, M.eye(g.r), "the new factor has orthonormal columns")
        eq(rt, Q * g.P(k), X + t, "it is the polar factor of the moved one")
    eq(rt, D, g.X[1] + g.t[1], "D moves by dD")


@ob("C10", "FixedRankE::DiffRetraction along the step")
def _(rt):
    g = G(rt)
    y = g.movedpoint()
    s = setnum(var("s", pos=True), lambda I: 0.3 + I.seed % 4)
    xi = g.e([v.scale(s) for v in g.t], "xi")
    r = g.res()
    g.call("DiffRetraction", g.x, g.eta, y, xi, Ptr(r), True)
    t = g.istan(r, "DiffRetraction", g.Y)
    eq(rt, t[1], g.t[1].scale(s), "the middle factor moves by dD")
    for k, i in ((0, 0), (1, 2)):
        P, W, Q = g.P(k), g.t[i], g.Y[i]
        # Q P = X + W, so dQ P + Q dP = s W where dP is symmetric and P dP + dP P = derivative of (X + W)'(X + W) = 2 s W'W
        dP = Q.T * (W.scale(s) - t[i] * P)
        eq(rt, t[i] * P + Q * dP, W.scale(s), "derivative of the polar factor: dQ P + Q dP = W")
        eq(rt, dP, dP.T, "dP is symmetric")
        eq(rt, P * dP + dP * P, (W.T * W).scale(s * 2), "dP is the derivative of ((X + W)'(X + W))^(1/2)")


@ob(("C09", "C10"), "FixedRankE::DiffRetraction locking data")
def _(rt):
    g = G(rt, HasHHR=True)
    y = g.movedpoint()
    s = setnum(var("s", pos=True), lambda I: 0.3 + I.seed % 4)
    g.o.contracts["Metric"] = lambda rt_, o, a: g_elem(a[1]).val().dot(g_elem(a[2]).val())   # the obligation on Metric
    D0, D1 = g.res(), g.res()
    g.call("DiffRetraction", g.x, g.eta, y, g.eta, Ptr(D0), True)
    xi = g.e([v.scale(s) for v in g.t], "xi")
    g.call("DiffRetraction", g.x, g.eta, y, xi, Ptr(D1), True)
    eq(rt, D1, D0.val().scale(s), "the derivative is linear along the step")
    need(rt, "beta" in g.eta.fields and "betaTReta" in g.eta.fields, "the locking scalars are stored on the step")
    b = g.eta.fields["beta"].arr.m.e
    ne, nd = g.metric(g.t, g.t), D0.val().dot(D0.val())
    eq(rt, b[1], ne, "beta[1] = |eta|^2")
    eq(rt, b[2], nd, "beta[2] = |DR[eta]|^2")
    eq(rt, b[0] * b[0] * nd, ne, "beta = |eta| / |DR[eta]|")
    eq(rt, g.eta.fields["betaTReta"], D0.val().scale(b[0]), "betaTReta = beta DR[eta]")
    g.same(g.eta.fields["betaTReta"], [v.scale(b[0]) for v in g.parts(D0)], "betaTReta carries its parts", g.Y)


@ob("C09", "FixedRankE::VectorTransport by projection")
def _(rt):
    g = G(rt)
    U, V = g.orth("Uy", g.m), g.orth("Vy", g.n)
    Y = [M.sym(U), M.sym(sym("Dy", g.r, g.r)), M.sym(V)]
    y = g.pt(Y, "y")
    a, xi = g.e(g.tan("a"), "eta"), g.tan("b")
    r = g.res()
    g.call("VectorTransport", g.x, a, y, g.e(xi, "xi"), Ptr(r))
    g.istan(r, "VectorTransport", Y)
    g.U, g.V = U, V
    t = g.tan("t")
    eq(rt, (g.val(xi) - r.val()).dot(g.val(t, Y)), S.of(0), "the transported vector is the orthogonal projection onto the tangent space at y")
    g2 = g.e(t, "t", Y)
    r = g.res()
    g.call("VectorTransport", g.x, a, y, g2, Ptr(r))
    g.same(r, t, "a vector that is tangent at y already is kept", Y)


@ob("C08", "FixedRankE::ObtainNorVerIntr/ObtainNorVerExtr")
def _(rt):
    g = G(rt)
    U, V = g.X[0], g.X[2]
    nd = (g.m - g.r) * (g.n - g.r)
    E = M.sym(sym("E", g.m, g.n))
    L = E - U * (U.T * E)
    nv = L - (L * V) * V.T
    v, b = out(nd, 1), g.res("back")
    g.call("ObtainNorVerIntr", g.x, elem(nv, "nv"), Ptr(v))
    eq(rt, v.val().dot(v.val()), nv.dot(nv), "the normal coordinates are isometric")
    g.call("ObtainNorVerExtr", g.x, v, Ptr(b))
    eq(rt, b, nv, "ObtainNorVerExtr(ObtainNorVerIntr(nv)) = nv")
    w = M.sym(sym("w", nd, 1))
    b2, r2 = g.res("ext"), out(nd, 1)
    g.call("ObtainNorVerExtr", g.x, elem(w, "w"), Ptr(b2))
    B = b2.val()
    eq(rt, U.T * B, M.zero(g.r, g.n), "the result is orthogonal to the columns of U")
    eq(rt, B * V, M.zero(g.m, g.r), "the result is orthogonal to the columns of V")
    g.call("ObtainNorVerIntr", g.x, b2, Ptr(r2))
    eq(rt, r2, w, "ObtainNorVerIntr(ObtainNorVerExtr(w)) = w")
