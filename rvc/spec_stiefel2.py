"""Stiefel/CStiefel: differentiated retractions, cotangent maps, vector transports, locking data."""
from geo import *
from spec_stiefel import *
from loops import mask


def intr_contracts(rt, g, table):
    """ObtainIntr/ObtainExtr as black boxes on the given (element, extrinsic value) pairs; records what they are applied to"""
    def ext(rt_, o, a):
        e, r = g_elem(a[1]), g_elem(a[2])
        for k, m in table:
            if k is e or (e.hasval() and isinstance(e.val(), M) and k.val().same(e.val())):
                r.setval(m)
                return r
        raise Fail("ObtainExtr is applied to another vector")
    for nm in ("ObtainExtr", "ObtainExtrHHR"):
        g.o.contracts[nm] = ext


def step(rt, g, rname):
    """y = R_x(eta), computed by the code, where x + eta = A is any matrix of full rank"""
    eta = g.e(M.sym(sym("A", g.n, g.p)) - g.x.val(), "eta")
    y = g.res("y")
    g.call("Retraction", g.x, eta, Ptr(y))
    return eta, y


def polarstep(rt, g):
    """y = polar factor of x + eta for a tangent eta: x'(x + eta) = I + Om with Om skew"""
    Om = sym("Om1", g.p, g.p, symm=-1)
    N = sym("N1", g.n, g.p)
    A = sym("A", g.n, g.p, num=lambda I: (lambda x, w, z: x @ (np.eye(x.shape[1]) + w) + z - x @ (x.T @ z))(I.symv(g.X), I.symv(Om), I.symv(N)))
    eta = g.e(M.sym(A) - g.x.val(), "eta")
    y = g.res("y")
    from elemapi import svd
    U, D, Vt = svd(M.sym(A))
    (uw, _), = normal(U).t.items()
    add_rule((letter(g.X, 1),) + uw, (M.eye(g.p) + M.sym(Om)) * Vt.T * inverse(D))
    g.call("Retraction", g.x, eta, Ptr(y))
    return eta, y


def qf_is_derivative(rt, g, eta, y, W, D):
    """D is the derivative at x + eta in direction W of the Q factor with positive diagonal of R: D = W R^-1 - Y dR R^-1 with dR upper"""
    R = y.fields["_HHR"].val().R
    from loops import signdiag
    Rp = signdiag(R) * R
    Y = y.val()
    eq(rt, Y * Rp, g.x.val() + eta.val(), "x + eta = y R")
    eq(rt, Y.T * D + D.T * Y, M.zero(g.p, g.p), "the differentiated retraction is tangent at y")
    Ri = inverse(R) * signdiag(R)
    eq(rt, W * Ri - Y * (Y.T * (W * Ri)), D - Y * (Y.T * D), "normal part of the derivative is (I - yy') W R^-1")
    eq(rt, mask("L", Y.T * (W * Ri)), mask("L", Y.T * D), "y'(W R^-1 - D) is upper triangular")


def beta_block(rt, g, name, x, eta, y, mk, same=False):
    """with the locking option, the stored beta, betaTReta and norms match the differentiated retraction of the step"""
    val = Pair.of
    D0, D1 = mk(), mk()
    g.o.f["HasHHR"] = True
    s = setnum(var("s", pos=True), lambda I: 0.3 + I.seed % 4)
    g.call(name, x, eta, y, eta, Ptr(D0), same)
    xi = g.e(val(eta).scale(s), "xi")
    keep = dict(eta.fields)
    g.call(name, x, eta, y, xi, Ptr(D1), True)
    eq(rt, D1, val(D0).scale(s), name + ": same-direction call returns the derivative in the scaled direction")
    need(rt, "beta" in eta.fields and "betaTReta" in eta.fields, name + ": the locking scalars are stored on the step")
    rt.nob += 1
    b = eta.fields["beta"].arr.m.e
    ne, nd = g.metric(val(eta), val(eta), val(x)), g.metric(val(D0), val(D0), val(y))
    eq(rt, b[1], ne, "beta[1] = |eta|^2")
    eq(rt, b[2], nd, "beta[2] = |DR[eta]|^2")
    eq(rt, b[0] * b[0] * nd, ne, "beta = |eta| / |DR[eta]|")
    eq(rt, eta.fields["betaTReta"], val(D0).scale(b[0]), "betaTReta = beta DR[eta]")


def reg2(cls):
    G = CLS[cls]

    @ob("C10", cls + "::DiffRetraction QF extrinsic")
    def _(rt):
        g = G(rt, retraction=QF)
        eta, y = step(rt, g, "QF")
        W = g.tan("2")
        r = g.res()
        g.call("DiffRetraction", g.x, eta, y, g.e(W, "xi"), Ptr(r), False)
        qf_is_derivative(rt, g, eta, y, W, r.val())

    @ob("C10", cls + "::DiffRetraction QF in place")
    def _(rt):
        g = G(rt, retraction=QF)
        eta, y = step(rt, g, "QF")
        W = g.tan("2")
        r, e = g.res(), g.e(W, "xi")
        g.call("DiffRetraction", g.x, eta, y, g.e(W, "xi"), Ptr(r), False)
        g.call("DiffRetraction", g.x, eta, y, e, Ptr(e), False)
        eq(rt, e, r.val(), "DiffRetraction with result = xi")

    @ob(("C09", "C10"), cls + "::DiffRetraction QF locking data")
    def _(rt):
        g = G(rt, retraction=QF)
        eta, y = step(rt, g, "QF")
        beta_block(rt, g, "DiffRetraction", g.x, eta, y, g.res)

    if cls == "Stiefel":      # CStiefel: "has not been implemented" (the code says so and returns the projection)
        @ob("C10", cls + "::coTangentVector QF is the adjoint of the differentiated retraction")
        def _(rt):
            g = G(rt, retraction=QF)
            eta, y = step(rt, g, "QF")
            W = g.tan("2")
            Y = y.val()
            Om, Z = sym("Omy", g.p, g.p, symm=-1), sym("Zy", g.n, g.p)
            zeta = Y * M.sym(Om) + M.sym(Z) - Y * (Y.T * M.sym(Z))
            r, c = g.res(), g.res()
            g.call("DiffRetraction", g.x, eta, y, g.e(W, "xi"), Ptr(r), False)
            g.call("coTangentVector", g.x, eta, y, g.e(zeta, "zeta"), Ptr(c))
            g.istan(c.val(), "coTangentVector")
            eq(rt, r.val().dot(zeta), W.dot(c.val()), "<DR[xi], zeta> = <xi, coTangent(zeta)>")

    @ob("C10", cls + "::DiffRetraction POLAR along the step")
    def _(rt):
        g = G(rt, retraction=POLAR)
        eta, y = polarstep(rt, g)
        r = g.res()
        s = setnum(var("s", pos=True), lambda I: 0.3 + I.seed % 4)
        W = eta.val().scale(s)
        g.call("DiffRetraction", g.x, eta, y, g.e(W, "xi"), Ptr(r), True)
        D, Y = r.val(), y.val()
        A = g.x.val() + eta.val()
        H = Y.T * A           # polar factor: A = Y H, H symmetric positive definite
        g.istan(D, "DiffRetraction", Y)
        # W = D H + Y dH with dH symmetric
        eq(rt, W - D * H, Y * (Y.T * (W - D * H)), "W - D H lies in the span of y")
        S_ = Y.T * (W - D * H)
        eq(rt, S_, S_.T, "y'(W - D H) is symmetric")

    @ob("C09", cls + "::DiffRetraction POLAR locking data")
    def _(rt):
        g = G(rt, retraction=POLAR, HasHHR=True)
        eta, y = polarstep(rt, g)
        D1 = g.res()
        s = setnum(var("s", pos=True), lambda I: 0.3 + I.seed % 4)
        g.call("DiffRetraction", g.x, eta, y, g.e(eta.val().scale(s), "xi"), Ptr(D1), True)
        D0 = D1.val().scale(s.inv())
        b = eta.fields["beta"].arr.m.e
        ne, nd = eta.val().dot(eta.val()), D0.dot(D0)
        eq(rt, b[1], ne, "beta[1] = |eta|^2")
        eq(rt, b[2], nd, "beta[2] = |DR[eta]|^2")
        eq(rt, b[0] * b[0] * nd, ne, "beta = |eta| / |DR[eta]|")
        eq(rt, eta.fields["betaTReta"], D0.scale(b[0]), "betaTReta = beta DR[eta]")

    @ob("C09", cls + "::VectorTransport by projection")
    def _(rt):
        g = G(rt, retraction=QF, VecTran=PROJ)
        Ys = sym("Y", g.n, g.p, num=lambda I: np.linalg.qr(I.rng.standard_normal((int(I.s(g.n)), int(I.s(g.p)))))[0])
        add_rule((letter(Ys, 1), letter(Ys)), M.eye(g.p))
        y = g.e(M.sym(Ys), "y")
        xi, eta = g.tan("2"), g.e(g.tan("1"))
        r = g.res()
        g.call("VectorTransport", g.x, eta, y, g.e(xi, "xi"), Ptr(r))
        v = r.val()
        g.istan(v, "VectorTransport", y.val())
        Om = sym("Omy", g.p, g.p, symm=-1)
        Z = M.sym(sym("Zy", g.n, g.p))
        t = y.val() * M.sym(Om) + Z - y.val() * (y.val().T * Z)
        eq(rt, (xi - v).dot(t), 0, "the transport is the orthogonal projection onto the new tangent space")

    @ob("C09", cls + "::transports by parallelization keep intrinsic coordinates")
    def _(rt):
        g = G(rt, retraction=QF, VecTran=PARA, IsIntrApproach=True)
        v, eta = elem(M.sym(sym("v", g.d, 1))), elem(M.sym(sym("e", g.d, 1)))
        y = g.e(M.sym(sym("Y", g.n, g.p)), "y")
        H = elem(M.sym(sym("H", g.d, g.d)))
        for nm in ("VectorTransport", "InverseVectorTransport"):
            r = out(g.d, 1)
            g.call(nm, g.x, eta, y, v, Ptr(r))
            eq(rt, r, v.val(), nm)
        r = out(g.d, g.d)
        g.call("TranHInvTran", g.x, eta, y, H, Ptr(r))
        eq(rt, r, H.val(), "TranHInvTran")
        for nm in ("HInvTran", "TranH"):
            r = out(g.d, g.d)
            g.call(nm, g.x, eta, y, H, S.of(0), g.d - 1, Ptr(r))
            eq(rt, r, H.val(), nm)

    @ob("C09", cls + "::locking option dispatches to the locking transports")
    def _(rt):
        for VT in (PARA, PROJ):
            g = G(rt, retraction=QF, VecTran=VT, IsIntrApproach=True, HasHHR=True)
            v, eta = elem(M.sym(sym("v", g.d, 1))), elem(M.sym(sym("e", g.d, 1)))
            y = g.e(M.sym(sym("Y", g.n, g.p)), "y")
            H = elem(M.sym(sym("H", g.d, g.d)))
            for nm in ("VectorTransport", "InverseVectorTransport", "HInvTran", "TranH", "TranHInvTran"):
                hit = []

                def c(rt_, o, a, hit=hit):
                    hit.append(a)
                    g_elem(a[-1]).setval(M.sym(sym("res", g_elem(a[-1]).r, g_elem(a[-1]).c)))
                    return g_elem(a[-1])
                g.o.contracts["LC" + nm] = c
                isop = nm in ("HInvTran", "TranH", "TranHInvTran")
                r = out(g.d, g.d if isop else 1)
                extra = [S.of(2), g.d + 1] if nm in ("HInvTran", "TranH") else []
                g.call(nm, g.x, eta, y, H if isop else v, *(extra + [Ptr(r)]))
                need(rt, len(hit) == 1, nm + " with the locking option uses LC" + nm)
                a = hit[0]
                need(rt, g_elem(a[0]) is g.x and g_elem(a[1]) is eta and g_elem(a[2]) is y and g_elem(a[3]) is (H if isop else v) and g_elem(a[-1]) is r,
                     nm + ": arguments are passed on")
                if extra:
                    aa = [z.get() if hasattr(z, "get") else z for z in a]
                    eq(rt, aa[4], 2, nm + ": start")
                    eq(rt, aa[5], g.d + 1, nm + ": end")

    @ob("C09", cls + "::Beta")
    def _(rt):
        g = G(rt)
        eta = g.e(g.tan("1"), "eta")
        eq(rt, g.call("Beta", g.x, eta), 1, "Beta is 1 without the locking option")
        g = G(rt, HasHHR=True)
        eta = g.e(g.tan("1"), "eta")
        b = Elem(S.of(3), S.of(1))
        b.arr = Arr(M.sym(sym("bt", 3, 1)))
        eta.fields["beta"] = b
        v = g.call("Beta", g.x, eta)
        eq(rt, v, rt.entget(DP(b.arr, S.of(0), elem=b), S.of(0)), "Beta returns the stored scalar")


for c in CLS:
    reg2(c)


def regnor(cls):
    G = CLS[cls]

    @ob("C08", cls + "::ObtainNorVerIntr/ObtainNorVerExtr")
    def _(rt):
        g = G(rt)
        X, p = g.x.val(), g.p
        nd = p * p if g.cplx else p * (p + 1) / 2
        Sm = M.sym(sym("Sn", p, p, symm=1))
        nv = X * Sm
        v, b = out(nd, 1), g.res("back")
        g.call("ObtainNorVerIntr", g.x, g.e(nv, "nv"), Ptr(v))
        eq(rt, v.val().dot(v.val()), nv.dot(nv), "the normal coordinates are isometric")
        g.call("ObtainNorVerExtr", g.x, v, Ptr(b))
        eq(rt, b, nv, "ObtainNorVerExtr(ObtainNorVerIntr(nv)) = nv")
        w = M.sym(sym("w", nd, 1))
        b2, r2 = g.res("ext"), out(nd, 1)
        g.call("ObtainNorVerExtr", g.x, elem(w, "w"), Ptr(b2))
        B = b2.val()
        eq(rt, X * (X.T * B), B, "the result lies in the span of x")
        eq(rt, X.T * B, B.T * X, "x' times the result is symmetric (Hermitian): a normal vector")
        g.call("ObtainNorVerIntr", g.x, b2, Ptr(r2))
        eq(rt, r2, w, "ObtainNorVerIntr(ObtainNorVerExtr(w)) = w")


for c in CLS:
    regnor(c)
