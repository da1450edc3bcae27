"""Unit sphere: exponential map, parallel translation and operators moved with it."""
from geo import *
from spec_stiefel import St, CLS, QF, EXP, PARA, PT, g_elem
from spec_stiefel2 import beta_block


class Sph(St):
    CLS = "Sphere"

    def __init__(self, rt, **cfg):
        self.rt = rt
        ns = [2, 3, 1, 5, 2, 4]
        self.n = n = newdim("n", lambda I: ns[I.seed % 6] + 1)
        self.p = p = S.of(1)
        rt.dimfacts += [Cond("<", S.of(1), n)]
        self.d = n - 1
        self.X = sym("x", n, 1, num=lambda I: np.linalg.qr(I.rng.standard_normal((int(I.s(n)), 1)))[0])
        add_rule((letter(self.X, 1), letter(self.X)), M.eye(1))
        self.x = elem(M.sym(self.X), "x")
        f = dict(n=n, p=p, IsIntrApproach=False, HasHHR=False, metric=S.of(0), retraction=S.of(EXP), VecTran=S.of(PT),
                 EMPTYEXTR=out(n, 1, "EMPTYEXTR"), EMPTYINTR=out(self.d, 1, "EMPTYINTR"), IntrinsicDim=self.d, ExtrinsicDim=n)
        for k, v in cfg.items():
            f[k] = S.of(v) if isinstance(v, int) and not isinstance(v, bool) else v
        self.canon = False
        self.o = Obj("Sphere", rt, **f)

    def ortho(self, tag, others=(), unit=False):
        """a vector orthogonal to x and the given ones"""
        ls = [self.X] + list(others)

        def num(I):
            Bm = np.hstack([I.symv(s) for s in ls])
            q, _ = np.linalg.qr(Bm)
            v = I.rng.standard_normal((int(I.s(self.n)), 1))
            v = v - q @ (q.T @ v)
            return v / np.linalg.norm(v) if unit else v
        u = sym(tag, self.n, 1, num=num)
        for s in ls:
            add_rule((letter(s, 1), letter(u)), M.zero(1, 1))
        if unit:
            add_rule((letter(u, 1), letter(u)), M.eye(1))
        return u

    def tan(self, tag="1", X=None):
        return M.sym(self.ortho("z" + tag))

    def polar(self):
        """eta = t u with |u| = 1, t > 0"""
        u = self.ortho("u", unit=True)
        t = setnum(var("t", pos=True), lambda I: 0.2 + 0.6 * (I.seed % 5))
        return t, M.sym(u), self.e(M.sym(u).scale(t), "eta"), u


def cs(t):
    return scos(t), ssin(t)


@ob("C05", "Sphere::Retraction EXP: the geodesic")
def _(rt):
    g = Sph(rt)
    t, u, eta, _ = g.polar()
    r = g.res("y")
    g.call("Retraction", g.x, eta, Ptr(r))
    c, s = cs(t)
    eq(rt, r, g.x.val().scale(c) + u.scale(s), "y = cos|eta| x + sin|eta|/|eta| eta (on the sphere; value x and derivative eta at 0)")
    g.onman(r.val(), "exponential map")


@ob("C05", "Sphere::Retraction EXP: zero vector")
def _(rt):
    g = Sph(rt)
    r = g.res("y")
    g.call("Retraction", g.x, g.e(M.zero(g.n, g.p), "eta"), Ptr(r))
    eq(rt, r, g.x.val(), "retraction of the zero vector is the point itself")


def moved(g):
    t, u, eta, us = g.polar()
    y = g.res("y")
    g.call("Retraction", g.x, eta, Ptr(y))
    return t, u, eta, us, y


@ob("C10", "Sphere::DiffRetraction EXP")
def _(rt):
    g = Sph(rt)
    t, u, eta, us, y = moved(g)
    a = setnum(var("a"), lambda I: I.rng.standard_normal())
    w = M.sym(g.ortho("w", [us]))
    xi = u.scale(a) + w
    r = g.res()
    g.call("DiffRetraction", g.x, eta, y, g.e(xi, "xi"), Ptr(r), False)
    c, s = cs(t)
    eq(rt, r, g.x.val().scale(-(s * a)) + u.scale(c * a) + w.scale(s / t), "derivative of cos|eta| x + sin|eta|/|eta| eta in direction a u + w")
    eq(rt, y.val().T * r.val(), M.zero(1, 1), "tangent at y")


@ob("C10", "Sphere::DiffRetraction EXP in place and at zero")
def _(rt):
    g = Sph(rt)
    t, u, eta, us, y = moved(g)
    xi = g.tan("2")
    r, e = g.res(), g.e(xi, "xi")
    g.call("DiffRetraction", g.x, eta, y, g.e(xi, "xi"), Ptr(r), False)
    g.call("DiffRetraction", g.x, eta, y, e, Ptr(e), False)
    eq(rt, e, r.val(), "DiffRetraction with result = xi")
    z = g.e(M.zero(g.n, g.p), "eta")
    g.call("DiffRetraction", g.x, z, g.x, g.e(xi, "xi"), Ptr(r), False)
    eq(rt, r, xi, "derivative at the zero step is the identity")


@ob(("C09", "C10"), "Sphere::DiffRetraction EXP locking data")
def _(rt):
    g = Sph(rt)
    t, u, eta, us, y = moved(g)
    beta_block(rt, g, "DiffRetraction", g.x, eta, y, g.res)


@ob("C10", "Sphere::coTangentVector EXP is the adjoint of the differentiated retraction")
def _(rt):
    g = Sph(rt)
    t, u, eta, us, y = moved(g)
    xi = g.tan("2")
    Y = y.val()
    z = M.sym(sym("zy", g.n, 1))
    zeta = z - Y * (Y.T * z)
    r, c = g.res(), g.res()
    g.call("DiffRetraction", g.x, eta, y, g.e(xi, "xi"), Ptr(r), False)
    g.call("coTangentVector", g.x, eta, y, g.e(zeta, "zeta"), Ptr(c))
    g.istan(c.val(), "coTangentVector")
    eq(rt, r.val().dot(zeta), xi.dot(c.val()), "<DR[xi], zeta> = <xi, coTangent(zeta)>")


def two(rt, **k):
    """two points with x + y != 0 and any operator sizes"""
    g = Sph(rt, **k)

    def num(I):
        return np.linalg.qr(I.rng.standard_normal((int(I.s(g.n)), 1)))[0]
    Y = sym("y", g.n, 1, num=num)
    add_rule((letter(Y, 1), letter(Y)), M.eye(1))
    y = g.e(M.sym(Y), "y")
    q = g.x.val() + y.val()
    rt.assume(Cond("<", S.of(0), q.dot(q)))
    eta = g.e(g.tan("1"), "eta")
    z = M.sym(sym("zy", g.n, 1))
    zy = z - y.val() * (y.val().T * z)
    return g, y, eta, zy


@ob("C09", "Sphere::parallel translation")
def _(rt):
    g, y, eta, zy = two(rt)
    a, b = g.tan("2"), g.tan("3")
    r, s, v = g.res(), g.res(), g.res()
    g.call("VectorTransport", g.x, eta, y, g.e(a, "a"), Ptr(r))
    g.call("VectorTransport", g.x, eta, y, g.e(b, "b"), Ptr(s))
    eq(rt, y.val().T * r.val(), M.zero(1, 1), "tangent at y")
    eq(rt, r.val().dot(s.val()), a.dot(b), "isometric")
    g.call("InverseVectorTransport", g.x, eta, y, r, Ptr(v))
    eq(rt, v, a, "the inverse undoes the transport")
    g.call("InverseVectorTransport", g.x, eta, y, g.e(zy, "z"), Ptr(r))
    eq(rt, g.x.val().T * r.val(), M.zero(1, 1), "inverse lands in the tangent space at x")
    g.call("VectorTransport", g.x, eta, y, r, Ptr(v))
    eq(rt, v, zy, "the transport undoes the inverse")


@ob("C09", "Sphere::parallel translation along the exponential map")
def _(rt):
    g = Sph(rt)
    t, u, eta, us, y = moved(g)
    c, s = cs(t)
    w = g.ortho("w", [us])
    r = g.res()
    rt.assume(Cond("<", S.of(0), 2 + c * 2))
    g.call("VectorTransport", g.x, eta, y, g.e(u), Ptr(r))
    eq(rt, r, u.scale(c) - g.x.val().scale(s), "velocity of the geodesic is transported to the velocity at y")
    g.call("VectorTransport", g.x, eta, y, g.e(M.sym(w)), Ptr(r))
    eq(rt, r, M.sym(w), "vectors orthogonal to the geodesic are kept")


def tr(g, y, eta, m):
    r = g.res()
    g.call("VectorTransport", g.x, eta, y, g.e(m), Ptr(r))
    return r.val()


def itr(g, y, eta, m):
    r = g.res()
    g.call("InverseVectorTransport", g.x, eta, y, g.e(m), Ptr(r))
    return r.val()


@ob("C09", "Sphere::TranHInvTran")
def _(rt):
    g, y, eta, zy = two(rt)
    H = elem(M.sym(sym("H", g.n, g.n)), "H")
    r = out(g.n, g.n)
    g.call("TranHInvTran", g.x, eta, y, H, Ptr(r))
    hv = H.val() * itr(g, y, eta, zy)
    X = g.x.val()
    # H maps the tangent space at x into itself: only the tangent part is transported
    hv = hv
    eq(rt, r.val() * zy, hv - (X + y.val()).scale((y.val().T * hv).scalar() * 2 / (X + y.val()).dot(X + y.val())),
       "TranHInvTran(H) z = transport(H inverse-transport(z))")


@ob("C09", "Sphere::HInvTran and TranH with offsets")
def _(rt):
    g, y, eta, zy = two(rt)
    k = newdim("N", lambda I: int(I.s(g.n)) + I.seed % 3)
    st = newdim("start", lambda I: 0)
    rt.dimfacts += [Cond("<=", S.of(0), st), Cond("<=", st + g.n, k)]
    H = elem(M.sym(sym("H", k, k)), "H")
    r, r2 = out(k, k), out(k, k)
    g.call("HInvTran", g.x, eta, y, H, st, st + g.n - 1, Ptr(r))
    g.call("TranH", g.x, eta, y, H, st, st + g.n - 1, Ptr(r2))
    S_ = rt.elemapi.sel(k, st, st + g.n - 1)
    eq(rt, r.val() * (S_ * zy), H.val() * (S_ * itr(g, y, eta, zy)), "HInvTran: columns of the block are composed with the inverse transport")
    eq(rt, r.val() - r.val() * S_ * S_.T, H.val() - H.val() * S_ * S_.T, "HInvTran leaves the other columns unchanged")
    a = M.sym(sym("a", k, 1))
    h = S_.T * (H.val() * a)
    X, Y = g.x.val(), y.val()
    eq(rt, S_.T * (r2.val() * a), h - (X + Y).scale((Y.T * h).scalar() * 2 / (X + Y).dot(X + Y)), "TranH: rows of the block are composed with the transport")
    eq(rt, r2.val() - S_ * (S_.T * r2.val()), H.val() - S_ * (S_.T * H.val()), "TranH leaves the other rows unchanged")


@ob("C09", "Sphere::QF retraction uses the Stiefel transports")
def _(rt):
    g = Sph(rt, retraction=QF, VecTran=PARA, IsIntrApproach=True)
    v = elem(M.sym(sym("v", g.d, 1)))
    for nm in ("VectorTransport", "InverseVectorTransport"):
        r = out(g.d, 1)
        g.call(nm, g.x, v, g.x, v, Ptr(r))
        eq(rt, r, v.val(), nm)


for what in ("on the manifold", "zero vector", "first order"):
    @ob("C05", "Sphere::Retraction QF: " + what)
    def _(rt, what=what):
        g = Sph(rt, retraction=QF)
        eta = g.tan("1")
        if what == "zero vector":
            eta = M.zero(g.n, g.p)
        if what == "first order":
            eta = eta.scale(eps())
        r = g.res("y")
        g.call("Retraction", g.x, g.e(eta), Ptr(r))
        if what == "on the manifold":
            g.onman(r.val(), "QF")
        elif what == "zero vector":
            eq(rt, r, g.x.val(), "retraction of the zero vector")
        else:
            d0d1(rt, r.val(), g.x.val(), coeff(eta, 1), "first order")


@ob(("C04", "C06", "C07"), "Sphere::projection, gradient and Hessian")
def _(rt):
    g = Sph(rt)
    X = g.x.val()
    z, G0, E, eta = g.amb("Z"), g.amb("G"), g.amb("E"), g.tan("1")
    r = g.res()
    g.call("Projection", g.x, g.e(z), Ptr(r))
    eq(rt, r, z - X * (X.T * z), "projection")
    g.call("EucGradToGrad", g.x, g.e(G0), Ptr(prob(rt, usehess=True)), Ptr(r))
    eq(rt, r, G0 - X * (X.T * G0), "gradient")
    g.call("EucHvToHv", g.x, g.e(eta), g.e(E), Ptr(prob(rt)), Ptr(r))
    eq(rt, r, E - X * (X.T * E) - eta.scale((X.T * G0).scalar()), "Hessian: P EH[eta] - (x'egf) eta")
