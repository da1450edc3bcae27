"""Manifold base class: locking-condition transports built from an isometric transport, operator algebra."""
from geo import *
from spec_stiefel import g_elem


def base(rt, **kw):
    """a manifold whose own transport is an arbitrary linear isometry T between the coordinate spaces at x and y"""
    d = newdim("d", pick([2, 3, 5]))
    rt.dimfacts.append(Cond("<", S.of(0), d))
    T = sym("T", d, d, num=lambda I: np.linalg.qr(I.rng.standard_normal((int(I.s(d)), int(I.s(d)))))[0])
    add_rule((letter(T, 1), letter(T)), M.eye(d))
    add_rule((letter(T), letter(T, 1)), M.eye(d))
    o = Obj("Manifold", rt, IsIntrApproach=True, HasHHR=True, **kw)
    Tm = M.sym(T)

    def vt(rt_, o_, a):
        need(rt_, o_.f["HasHHR"] is False, "the underlying transport is called with the locking option off")
        g_elem(a[4]).setval(Tm * g_elem(a[3]).val())
        return g_elem(a[4])

    def ivt(rt_, o_, a):
        need(rt_, o_.f["HasHHR"] is False, "the underlying transport is called with the locking option off")
        g_elem(a[4]).setval(Tm.T * g_elem(a[3]).val())
        return g_elem(a[4])

    def thit(rt_, o_, a):
        need(rt_, o_.f["HasHHR"] is False, "the underlying transport is called with the locking option off")
        g_elem(a[4]).setval(Tm * g_elem(a[3]).val() * Tm.T)
        return g_elem(a[4])

    def block(rt_, o_, a, f):
        a = [z.get() if isinstance(z, (Cell, FieldCell)) else z for z in a]
        need(rt_, o_.f["HasHHR"] is False, "the underlying transport is called with the locking option off")
        st, en = S.of(rt_.tonum(a[4])), S.of(rt_.tonum(a[5]))
        H, r = g_elem(a[3]).val(), g_elem(a[6])
        api = rt_.elemapi
        r.setval(f(H, st, en, api))
        return r

    def hit(H, st, en, api):
        E = api.sel(H.c, st, en)
        return H + (H * E * (Tm.T - M.eye(d))) * E.T

    def th(H, st, en, api):
        E = api.sel(H.r, st, en)
        return H + E * ((Tm - M.eye(d)) * (E.T * H))
    o.contracts.update({"VectorTransport": vt, "InverseVectorTransport": ivt, "TranHInvTran": thit,
                        "HInvTran": lambda r, o_, a: block(r, o_, a, hit), "TranH": lambda r, o_, a: block(r, o_, a, th)})
    x, y = out(d, 1, "x"), out(d, 1, "y")
    x.arr, y.arr = Arr(M.sym(sym("x", d, 1))), Arr(M.sym(sym("y", d, 1)))
    return d, Tm, o, x, y


def locked(rt, opposite=False):
    """step eta with the differentiated retraction already stored: betaTReta has the norm of eta. Either it is -T eta, or nu2 != 0"""
    d, T, o, x, y = base(rt)
    eta = elem(M.sym(sym("eta", d, 1)), "eta")
    U = sym("Uq", d, d, num=lambda I: np.linalg.qr(I.rng.standard_normal((int(I.s(d)), int(I.s(d)))))[0])
    add_rule((letter(U, 1), letter(U)), M.eye(d))
    add_rule((letter(U), letter(U, 1)), M.eye(d))
    b = -(T * eta.val()) if opposite else M.sym(U) * eta.val()      # any vector with the norm of eta
    eta.fields["betaTReta"] = elem(b, "betaTReta")
    eta.fields["beta"] = elem(M.sym(sym("beta", 3, 1)), "beta")
    # numeric-tolerance guard of the second reflection: exact reading (zero or not)
    rt.over = {"epsilon": lambda rt_, a: S.of(0)}
    if not opposite:
        n2 = b + T * eta.val()
        rt.assume(Cond("<", S.of(0), n2.dot(n2)))
    return d, T, o, x, y, eta, b


def nz(rt, m):
    return rt.decide(Cond("<", S.of(0), m.dot(m)))


@ob("C09", "Manifold::LCVectorTransport locking condition")
def _(rt):
    d, T, o, x, y, eta, b = locked(rt)
    r = out(d, 1)
    if not nz(rt, eta.val()):
        raise Infeasible()
    reach(rt, o, "LCVectorTransport", x, eta, y, eta, Ptr(r))
    eq(rt, r, b, "with the locking option the transport of the step is beta * (differentiated retraction)")


@ob("C09", "Manifold::LCVectorTransport isometry and inverse")
def _(rt):
    d, T, o, x, y, eta, b = locked(rt)
    if not nz(rt, eta.val()):
        raise Infeasible()
    xi = elem(M.sym(sym("xi", d, 1)), "xi")
    r, s = out(d, 1), out(d, 1)
    reach(rt, o, "LCVectorTransport", x, eta, y, xi, Ptr(r))
    v = r.val()
    eq(rt, v.dot(v), xi.val().dot(xi.val()), "the locking transport preserves norms")
    need(rt, o.f["HasHHR"] is True, "the locking option is restored")
    reach(rt, o, "LCInverseVectorTransport", x, eta, y, r, Ptr(s))
    eq(rt, s, xi.val(), "the inverse undoes the locking transport")
    need(rt, o.f["HasHHR"] is True, "the locking option is restored")


@ob("C09", "Manifold::LCVectorTransport in place")
def _(rt):
    d, T, o, x, y, eta, b = locked(rt)
    if not nz(rt, eta.val()):
        raise Infeasible()
    xm = M.sym(sym("xi", d, 1))
    xi, xj = elem(xm, "xi"), elem(xm, "xi")
    r, s = out(d, 1), out(d, 1)
    reach(rt, o, "LCVectorTransport", x, eta, y, xi, Ptr(r))
    reach(rt, o, "LCVectorTransport", x, eta, y, xj, Ptr(xj))
    eq(rt, xj, r.val(), "locking transport with result = input")
    reach(rt, o, "LCInverseVectorTransport", x, eta, y, xj, Ptr(xj))
    eq(rt, xj, xm, "inverse locking transport with result = input")


def lc(rt, d, o, x, y, eta, m):
    r = out(d, 1)
    reach(rt, o, "LCVectorTransport", x, eta, y, elem(m), Ptr(r))
    return r.val()


def lcinv(rt, d, o, x, y, eta, m):
    r = out(d, 1)
    reach(rt, o, "LCInverseVectorTransport", x, eta, y, elem(m), Ptr(r))
    return r.val()


@ob("C09", "Manifold::LCTranHInvTran is transport after operator after inverse transport")
def _(rt):
    d, T, o, x, y, eta, b = locked(rt)
    if not nz(rt, eta.val()):
        raise Infeasible()
    H = elem(M.sym(sym("H", d, d)), "H")
    r = out(d, d)
    reach(rt, o, "LCTranHInvTran", x, eta, y, H, Ptr(r))
    need(rt, o.f["HasHHR"] is True, "the locking option is restored")
    w = M.sym(sym("w", d, 1))
    eq(rt, r.val() * w, lc(rt, d, o, x, y, eta, H.val() * lcinv(rt, d, o, x, y, eta, w)),
       "LCTranHInvTran(H) w = transport(H inverse-transport(w))")


@ob("C09", "Manifold::LCHInvTran and LCTranH")
def _(rt):
    d, T, o, x, y, eta, b = locked(rt)
    if not nz(rt, eta.val()):
        raise Infeasible()
    k = newdim("N", lambda I: int(I.s(d)) + I.seed % 3)
    st = newdim("start", lambda I: 0)
    rt.dimfacts += [Cond("<=", S.of(0), st), Cond("<=", st + d, k)]
    H = elem(M.sym(sym("H", k, k)), "H")
    E = M.sym
    r, r2 = out(k, k), out(k, k)
    w = M.sym(sym("w", d, 1))
    reach(rt, o, "LCHInvTran", x, eta, y, H, st, st + d - 1, Ptr(r))
    reach(rt, o, "LCTranH", x, eta, y, H, st, st + d - 1, Ptr(r2))
    need(rt, o.f["HasHHR"] is True, "the locking option is restored")
    S_ = rt.elemapi.sel(k, st, st + d - 1)
    eq(rt, r.val() * (S_ * w), H.val() * (S_ * lcinv(rt, d, o, x, y, eta, w)), "LCHInvTran: columns of the block are composed with the inverse transport")
    eq(rt, r.val() - r.val() * S_ * S_.T, H.val() - H.val() * S_ * S_.T, "LCHInvTran leaves the other columns unchanged")
    a = M.sym(sym("a", k, 1))
    eq(rt, S_.T * (r2.val() * a), lc(rt, d, o, x, y, eta, S_.T * (H.val() * a)), "LCTranH: rows of the block are composed with the transport")
    eq(rt, r2.val() - S_ * (S_.T * r2.val()), H.val() - S_ * (S_.T * H.val()), "LCTranH leaves the other rows unchanged")


@ob("C09", "Manifold::HaddScaledRank1OPE and LinearOPEEta")
def _(rt):
    r_, c_ = newdim("r", pick([1, 2, 3])), newdim("c", pick([2, 1, 2]))
    rt.dimfacts += [Cond("<", S.of(0), r_), Cond("<", S.of(0), c_)]
    d = r_ * c_
    o = Obj("Manifold", rt, IsIntrApproach=True, HasHHR=False)
    x = elem(M.sym(sym("x", r_, c_)))
    a, b, w = [elem(M.sym(sym(n, r_, c_)), n) for n in ("a", "b", "w")]
    V = lambda e: reshape(e.val(), d, S.of(1))
    H = elem(M.sym(sym("H", d, d)), "H")
    s = var("s")
    r, v = out(d, d), out(r_, c_)
    reach(rt, o, "HaddScaledRank1OPE", x, H, s, a, b, Ptr(r))
    eq(rt, r, H.val() + (V(a) * V(b).T).scale(s), "H + s vec(a) vec(b)'")
    reach(rt, o, "LinearOPEEta", x, H, w, Ptr(v))
    eq(rt, reshape(v.val(), d, S.of(1)), H.val() * V(w), "operator applied to a vector")


@ob("C09", "Manifold defaults: transports of the base class")
def _(rt):
    d = newdim("d", pick([2, 3]))
    o = Obj("Manifold", rt, IsIntrApproach=True, HasHHR=False)
    x, y, eta = [elem(M.sym(sym(n, d, 1)), n) for n in ("x", "y", "eta")]
    xi = elem(M.sym(sym("xi", d, 1)))
    H = elem(M.sym(sym("H", d, d)))
    for nm in ("VectorTransport", "InverseVectorTransport"):
        r = out(d, 1)
        reach(rt, o, nm, x, eta, y, xi, Ptr(r))
        eq(rt, r, xi.val(), nm + ": intrinsic coordinates are kept")
    r = out(d, d)
    reach(rt, o, "TranHInvTran", x, eta, y, H, Ptr(r))
    eq(rt, r, H.val(), "TranHInvTran: intrinsic operators are kept")
    for nm in ("HInvTran", "TranH"):
        r = out(d, d)
        reach(rt, o, nm, x, eta, y, H, S.of(0), d - 1, Ptr(r))
        eq(rt, r, H.val(), nm)


@ob(("C04", "C09"), "Manifold vector space operations")
def _(rt):
    d = newdim("d", pick([2, 3]))
    o = Obj("Manifold", rt, IsIntrApproach=True, HasHHR=False)
    x, a, b = [elem(M.sym(sym(n, d, 1)), n) for n in ("x", "a", "b")]
    am, bm = a.val(), b.val()
    s, t = var("s"), var("t")
    r = out(d, 1)
    reach(rt, o, "ScalarTimesVector", x, s, a, Ptr(r))
    eq(rt, r, am.scale(s), "ScalarTimesVector")
    reach(rt, o, "ScalarVectorAddVector", x, s, a, b, Ptr(r))
    eq(rt, r, am.scale(s) + bm, "ScalarVectorAddVector")
    reach(rt, o, "VectorLinearCombination", x, s, a, t, b, Ptr(r))
    eq(rt, r, am.scale(s) + bm.scale(t), "VectorLinearCombination")
    eq(rt, reach(rt, o, "Metric", x, a, b), am.dot(bm), "Metric")
    e = elem(bm, "b")
    reach(rt, o, "VectorLinearCombination", x, s, a, t, e, Ptr(e))
    eq(rt, e, am.scale(s) + bm.scale(t), "VectorLinearCombination with result = second vector")
