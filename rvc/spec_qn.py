"""C15: quasi-Newton and conjugate-gradient updates.

Linear operators on the tangent space enter by contract: coefficient times the identity plus an arbitrary self-adjoint operator
plus rank-one terms <v,.> u; transport by an isometry turns an arbitrary self-adjoint operator into another one. The inner product
is an arbitrary symmetric form (one number per pair of letters), so every formula below holds for all vectors and operators."""
from world import *
from spec_ls import mkworld, keep, frame
from spec_run import fresh


class Op:
    def __init__(self, co, base, ranks, pre=None):
        self.co, self.base, self.ranks, self.pre = S.of(co), base, list(ranks), pre


class QN:
    """vectors, operators and the form"""

    def __init__(self, rt, cls, at=None):
        self.rt = rt
        w = self.w = mkworld(rt, cls)
        rt.qn = self
        rt.biglimit = 0
        self.ops, self.app = {}, {}
        self.at = at
        w.m_Metric = self.Metric
        for k in ("LinearOPEEta", "HaddScaledRank1OPE", "TranHInvTran", "coTangentVector"):
            setattr(w, "m_" + k, getattr(self, k))
        w.m_GetEMPTY = lambda: Elem(w.N, 1, 1)
        rt.eps = fn("epsilon", pos=True)
        rt.over["epsilon"] = lambda rt_, a: rt.eps
        rt.over["pow"] = lambda rt_, a: fn("pow", num_(a[0]), num_(a[1]), nonneg=True)

    # vectors
    def comb(self, v):
        if isinstance(v, (Elem, Cell, FieldCell, Ptr)):
            v = el(v).val()
        return self.w.comb_m(v)

    def ip(self, u, v):
        r = S.of(0)
        for a, s in self.comb(u):
            for b, t in self.comb(v):
                r = r + s * t * self.pair(a, b)
        return r

    def pair(self, a, b):
        pa, pb = self.app.get(a), self.app.get(b)
        if pa is not None and pb is None:
            a, b, pa, pb = b, a, pb, pa
        if pb is not None and pa is None:       # <a, P l> = <l, P a>
            p, q = sorted([lname(a), lname(pb[1])])
            return fn("gP", pb[0], p, q)
        p, q = sorted([lname(a), lname(b)])
        return fn("g", p, q, nonneg=(p == q))

    def Metric(self, x, u, v):
        if self.at is not None:
            self.rt.goaleq(el(x), self.w.this.f[self.at], "inner products are taken where the vectors live")
        return self.ip(u, v)

    def lin(self, name, v):
        """linear map given by name on letters"""
        w = self.w
        out = M.zero(w.N, 1)
        for l, s in self.comb(v):
            out = out + M.sym(opaque(name, (M(w.N, 1, {(l,): ONE}),), w.N, 1)).scale(s)
        return out

    def T(self, v):
        f = self.w.this.f
        return self.w.linmap("VT", (f["x1"].val(), f["eta2"].val(), f["x2"].val()), el(v) if not isinstance(v, M) else self.vecof(v))

    def vecof(self, m):
        e = Elem(self.w.N, 1, 1)
        e.setval(m, self.w.N, 1)
        return e

    # operators
    def op(self, h):
        if isinstance(h, Op):
            return h
        m = normal(el(h).val())
        if not m.t:
            return Op(0, None, [])
        if len(m.t) == 1:
            ((k, s),) = m.t.items()
            if k == ():
                return Op(s, None, [])
            if len(k) == 1 and s.eq(ONE):
                if k[0] not in self.ops:
                    self.ops[k[0]] = Op(0, lname(k[0]), [])
                return self.ops[k[0]]
        raise Unsupported("operator value %s" % (m,))

    def setop(self, h, o):
        w = self.w
        m = w.letter_(self.rt.newname("op"))
        ((k, s),) = m.t.items()
        self.ops[k[0]] = o
        el(h).setval(m, w.N, 1)
        return el(h)

    def apply(self, h, v):
        o = self.op(h)
        m = v if isinstance(v, M) else el(v).val()
        out = m.scale(o.co)
        if o.base is not None:
            for l, s in self.comb(m):
                z = M.sym(opaque("op", (o.base, M(self.w.N, 1, {(l,): ONE})), self.w.N, 1))
                ((k, _),) = z.t.items()
                self.app[k[0]] = (o.base, l)
                out = out + z.scale(s)
        for c, u, vv in o.ranks:
            out = out + u.scale(c * self.ip(vv, m))
        return out

    def LinearOPEEta(self, x, h, v, res):
        return self.w.put(res, self.apply(h, v))

    def HaddScaledRank1OPE(self, x, h, c, u, v, res):
        o = self.op(h)
        return self.setop(res, Op(o.co, o.base, o.ranks + [(num_(c), el(u).val(), el(v).val())], o.pre))

    def transported(self, o, x, e, y):
        if o.base is None and not o.ranks:
            return o
        nm = "T(%s;%s;%s;%s)" % (o.base if not o.ranks else id(o), repr(x), repr(e), repr(y))
        return Op(o.co if not o.ranks else 0, nm, [], o)

    def TranHInvTran(self, x, e, y, h, res):
        f = self.w.this.f
        self.rt.goaleq(el(x), f["x1"], "operators are transported from the old iterate")
        self.rt.goaleq(el(e), f["eta2"], "along the accepted step")
        self.rt.goaleq(el(y), f["x2"], "to the new iterate")
        return self.setop(res, self.transported(self.op(h), el(x).val(), el(e).val(), el(y).val()))

    def coTangentVector(self, x, e, y, v, res):
        return self.w.put(res, self.w.linmap("coT", (el(x).val(), el(e).val(), el(y).val()), el(v)))

    # checks
    def same(self, h, want, what):
        """operator h equals the map want on an arbitrary vector"""
        v = self.w.letter_("v")
        self.rt.goaleq(self.vecof(self.apply(h, v)), want(v), what)

    def selfadjoint(self, h, what):
        a, b = self.w.letter_("va"), self.w.letter_("vb")
        self.rt.goaleq(self.ip(self.apply(h, a), b), self.ip(a, self.apply(h, b)), what)


# ------------------------------------------------------------------ BFGS
def bfgs(qn, h0, s, y):
    """V* H V + rho s s, V = id - rho y <s,.>"""
    rho = ONE / qn.ip(s, y)

    def f(v):
        w = v - y.scale(rho * qn.ip(s, v))
        z = qn.apply(h0, w)
        return z - s.scale(rho * qn.ip(y, z)) + s.scale(rho * qn.ip(s, v))
    return f


def check_bfgs(qn, h, h0, s, y, spd=True):
    rt = qn.rt
    sy = qn.ip(s, y)
    qn.same(h, bfgs(qn, h0, s, y), "the update is the BFGS formula")
    rt.goaleq(qn.vecof(qn.apply(h, y)), s, "secant equation")
    qn.selfadjoint(h, "self-adjoint")
    if spd:
        v = qn.w.letter_("v")
        u = v - y.scale(qn.ip(s, v) / sy)
        q = qn.ip(s, v)
        rt.goaleq(qn.ip(qn.apply(h, v), v), qn.ip(qn.apply(h0, u), u) + q * q / sy, "quadratic form of the update")
        hu = qn.ip(qn.apply(h0, u), u)
        rt.goal(lt(0, sy), "curvature of an accepted pair is positive")
        # H0 positive definite: <H0 u,u> > 0 or u = 0; then <s,v> != 0 for v != 0
        P, t = var("P"), var("sv")
        rt.goal(Imp(And(le(0, P), Or(lt(0, P), Not(eqc(t, 0))), lt(0, sy)), lt(0, P + t * t / sy)), "positive definite")


def accept(qn, sy, ss):
    f = qn.w.this.f
    ng = f["ngf2"]
    return And(le(f["nu"] * fn("pow", ng, f["mu"], nonneg=True), sy / ss),
               Or(lt(ng / f["ngf0"], S.const("1/1000")), And(lt(qn.rt.eps, ss), lt(qn.rt.eps, sy))))


def scaled(qn, h, sy, yy):
    f = qn.w.this.f
    c = And(f["isconvex"], eqc(f["iter"], 1), lt(0, sy))
    if qn.rt.decide(c):
        return Op(sy / yy, None, [])
    return h


def start(rt, cls, at):
    qn = QN(rt, cls, at)
    w = qn.w
    f = w.this.f
    if "nu" in f:
        rt.fact(lt(0, f["nu"]))
        rt.fact(lt(0, fn("pow", f["ngf2"], f["mu"], nonneg=True)))
    qn.h0 = qn.op(f["H"]) if "H" in f else None
    qn.was = keep(w)
    return qn, w, f


def gpair(qn):
    """s and y at the new iterate"""
    w, f = qn.w, qn.w.this.f
    beta = fn("Beta", f["x1"].val(), f["eta2"].val())
    qn.rt.fact(Not(eqc(beta, 0)))
    Y = w.letter_("Y")                    # any gradient gf2 is beta (Y + T gf1) for exactly one Y
    f["gf2"].setval((Y + qn.T(w.G1)).scale(beta), w.N, 1)
    return qn.T(f["eta2"]), Y


def tr_op(qn, h):
    f = qn.w.this.f
    return qn.transported(h, f["x1"].val(), f["eta2"].val(), f["x2"].val())


OWN = {"s", "y", "u", "H", "betay", "inpsy", "inpss", "inpyy", "isupdated", "phic", "nV", "nVp", "nH"}


def rbfgs_ob(cls, fn_):
    @dvob("C15", "%s::UpdateData: the inverse Hessian approximation is the BFGS update of the transported one" % cls)
    def go(rt):
        qn, w, f = start(rt, cls, "x2")
        w.G1 = f["gf1"].val()
        s, y = gpair(qn)
        sy, ss, yy = qn.ip(s, y), qn.ip(s, s), qn.ip(y, y)
        rt.fact(lt(0, ss))
        rt.fact(lt(0, yy))
        h0 = scaled(qn, qn.h0, sy, yy)
        if cls == "RBroydenFamily":
            h1 = tr_op(qn, h0)
            rt.fact(lt(0, qn.ip(qn.apply(h1, y), y)))     # positive definite before
        qn.was = keep(w)
        reach(rt, w.this, "UpdateData")
        frame(rt, w, qn.was, OWN)
        rt.goaleq(f["s"], s, "s is the transported step")
        rt.goaleq(f["y"], y, "y is the difference of gradients at the new iterate")
        a = accept(qn, sy, ss)
        if rt.decide(a):
            rt.goal(rt.tocond(f["isupdated"]), "updated")
            check_bfgs(qn, f["H"], tr_op(qn, h0), s, y)
        else:
            rt.goal(Not(rt.tocond(f["isupdated"])), "not updated")
            qn.same(f["H"], lambda v: qn.apply(tr_op(qn, h0), v), "otherwise the approximation is only transported")
            qn.selfadjoint(f["H"], "self-adjoint")
    return go


rbfgs_ob("RBFGS", "UpdateDataRBFGS")
rbfgs_ob("RBroydenFamily", "UpdateDataRBroydenFamily")


@dvob("C15", "RWRBFGS::UpdateData: BFGS update with the adjoint of the differentiated retraction, then transported")
def rwrbfgs(rt):
    qn, w, f = start(rt, "RWRBFGS", "x1")
    s = f["eta2"].val()
    y = w.letter_("Y")                    # any gradient gf1 is coT gf2 - Y for exactly one Y
    f["gf1"].setval(w.linmap("coT", (f["x1"].val(), f["eta2"].val(), f["x2"].val()), f["gf2"]) - y, w.N, 1)
    sy, ss, yy = qn.ip(s, y), qn.ip(s, s), qn.ip(y, y)
    rt.fact(lt(0, ss))
    rt.fact(lt(0, yy))
    h0 = scaled(qn, qn.h0, sy, yy)
    qn.was = keep(w)
    reach(rt, w.this, "UpdateData")
    frame(rt, w, qn.was, OWN)
    rt.goaleq(f["s"], s, "s is the step")
    rt.goaleq(f["y"], y, "y is the difference of gradients at the old iterate")
    o = qn.op(f["H"])
    if rt.decide(accept(qn, sy, ss)):
        rt.goal(rt.tocond(f["isupdated"]), "updated")
        if o.pre is None:
            raise Fail("the updated operator is not transported")
        check_bfgs(qn, o.pre, h0, s, y)
    else:
        rt.goal(Not(rt.tocond(f["isupdated"])), "not updated")
        qn.same(f["H"], lambda v: qn.apply(tr_op(qn, h0), v), "otherwise the approximation is only transported")


@dvob("C15", "RBFGSSub::UpdateData: damped BFGS update of the transported operator")
def rbfgssub(rt):
    qn, w, f = start(rt, "RBFGSSub", "x2")
    w.G1 = f["gf1"].val()
    s0, y = gpair(qn)
    yy = qn.ip(y, y)
    rt.fact(lt(0, yy))
    rt.fact(lt(0, f["lambdaUpper"]))
    rt.fact(lt(0, f["lambdaLower"]))
    s = w.letter_("Sd")
    sy, ss = qn.ip(s, y), qn.ip(s, s)
    d = S.of(0)
    if rt.decide(batom("damped")):        # the transported step is s - d y with the d > 0 that the damping adds back
        d = var("d", pos=True)
        rt.fact(lt(0, sy))                # d = 1 / lambdaUpper - <s - d y,y> / <y,y>
        f["lambdaUpper"] = yy / sy
    else:
        rt.fact(le(ONE / f["lambdaUpper"], sy / yy))
    e2, vt = f["eta2"], w.m_VectorTransport
    w.m_VectorTransport = lambda x, e, y_, xi, res: w.put(res, s - y.scale(d)) if el(xi) is e2 else vt(x, e, y_, xi, res)
    rt.fact(lt(0, ss))
    qn.was = keep(w)
    reach(rt, w.this, "UpdateData")
    frame(rt, w, qn.was, OWN)
    rt.goaleq(f["s"], s, "s is the damped transported step")
    rt.goaleq(f["y"], y, "y is the difference of gradients at the new iterate")
    rt.goal(le(yy / f["lambdaUpper"], sy), "damping bounds the curvature from below")
    h0 = qn.h0
    if rt.decide(And(eqc(f["iter"], 1), lt(0, sy))):
        h0 = Op(sy / yy, None, [])
    if rt.decide(lt(f["lambdaLower"], sy / ss)):
        rt.goal(rt.tocond(f["isupdated"]), "updated")
        check_bfgs(qn, f["H"], tr_op(qn, h0), s, y)
    else:
        rt.goal(Not(rt.tocond(f["isupdated"])), "not updated")
        qn.same(f["H"], lambda v: v, "otherwise the approximation is reset to the identity")


@dvob("C15", "RTRSR1::UpdateData: symmetric rank-one update at the old iterate")
def rtrsr1(rt):
    qn, w, f = start(rt, "RTRSR1", "x1")
    b0 = qn.op(f["B"])
    s = f["eta2"].val()
    g2 = w.G(f["x2"])
    y = w.linmap("IVT", (f["x1"].val(), f["eta2"].val(), f["x2"].val()), qn.vecof(g2)) - f["gf1"].val()
    f["Heta2"].setval(qn.apply(b0, s), w.N, 1)      # set by Run before the call
    sy, ss, yy = qn.ip(s, y), qn.ip(s, s), qn.ip(y, y)
    was = keep(w)
    if rt.decide(eqc(f["iter"], 1)):
        rt.fact(Not(eqc(sy, 0)))
        b0 = Op(yy / sy, None, [])
    reach(rt, w.this, "UpdateData")
    frame(rt, w, was, {"B", "s", "y", "gf2", "ng", "nV", "isupdated", "inpss", "inpsy", "Heta2"})
    rt.goaleq(f["gf2"], g2, "gf2 is the gradient at the candidate")
    rt.goaleq(f["ng"], rt.ghosts["nG"], "ng counts the gradient")
    rt.goaleq(f["s"], s, "s is the step")
    rt.goaleq(f["y"], y, "y is the difference of gradients at the old iterate")
    z = y - qn.apply(b0, s)
    den, zz = qn.ip(s, z), qn.ip(z, z)
    ok = And(le(rt.eps * ss * zz, den * den), Or(le(rt.eps, zz), lt(f["ngf2"] / f["ngf0"], S.const("1/1000"))))
    rt.goal(And(Imp(rt.tocond(f["isupdated"]), ok), Imp(ok, rt.tocond(f["isupdated"]))), "updated exactly when the denominator is safe")
    if rt.decide(f["isupdated"]):
        rt.fact(Not(eqc(den, 0)))
        qn.same(f["B"], lambda v: qn.apply(b0, v) + z.scale(qn.ip(z, v) / den), "the update is the SR1 formula")
        rt.goaleq(qn.vecof(qn.apply(f["B"], s)), y, "secant equation")
        qn.selfadjoint(f["B"], "self-adjoint")
    else:
        qn.same(f["B"], lambda v: qn.apply(b0, v), "otherwise the approximation is kept")


@dvob("C15", "RTRSR1::Acceptence, HessianEta: the approximation is transported with the iterate and applied at it")
def rtrsr1b(rt):
    qn, w, f = start(rt, "RTRSR1", "x1")
    b0 = qn.op(f["B"])
    if rt.decide(batom("which")):
        was = keep(w)
        reach(rt, w.this, "Acceptence")
        frame(rt, w, was, {"B"})
        qn.same(f["B"], lambda v: qn.apply(tr_op(qn, b0), v), "transported")
    else:
        was = keep(w)
        e, r = w.vec("eta"), w.vec("res")
        reach(rt, w.this, "HessianEta", e, Ptr(r))
        frame(rt, w, was, {"nH"})
        rt.goaleq(r, qn.apply(b0, e), "the model Hessian is B")


def dir_ob(cls):
    @dvob("C15", "%s::GetSearchDir: minus the operator applied to the gradient; a descent direction" % cls)
    def go(rt):
        qn, w, f = start(rt, cls, "x1")
        reach(rt, w.this, "GetSearchDir")
        frame(rt, w, qn.was, {"eta1", "nH"})
        g = f["gf1"].val()
        hg = qn.apply(qn.h0, g)
        rt.goaleq(f["eta1"], hg.scale(S.of(-1)), "eta1 = - H gf1")
        rt.goal(Imp(lt(0, qn.ip(hg, g)), lt(qn.ip(f["eta1"], g), 0)), "descent when H is positive definite")
    return go


for c in ("RBFGS", "RBroydenFamily", "RWRBFGS"):
    dir_ob(c)


# ------------------------------------------------------------------ conjugate gradient
@dvob("C15", "RCG::UpdateData: the new direction is the documented combination")
def rcg(rt):
    w = mkworld(rt, "RCG")
    rt.biglimit = 0
    f = w.this.f
    ip1 = lambda a, b: w.metric(f["x1"].val(), w.comb_m(a), w.comb_m(b))
    ip2 = lambda a, b: w.metric(f["x2"].val(), w.comb_m(a), w.comb_m(b))
    X = (f["x1"].val(), f["eta2"].val(), f["x2"].val())
    g1, g2, pg1 = f["gf1"].val(), f["gf2"].val(), f["Pgf1"].val()
    tg, te = w.linmap("VT", X, f["gf1"]), w.linmap("VT", X, f["eta1"])
    pg2 = w.linmap("P", (f["x2"].val(),), f["gf2"])
    y = g2 - tg
    rt.fact(lt(0, ip1(g1, g1)))
    den = ip1(g1, pg1)
    rt.fact(lt(0, den))
    yp = ip2(y, te)
    rt.fact(Not(eqc(yp, 0)))
    was = keep(w)
    reach(rt, w.this, "UpdateData")
    frame(rt, w, was, {"eta1", "Pgf1", "Pgf2", "sigma", "nV", "nVp"})
    rt.goaleq(f["Pgf1"], pg2, "preconditioned gradient kept for the next iteration")
    ab = w.fabs(rt, [ip2(g2, tg)])
    if rt.decide(lt(S.const("10000000000000001/100000000000000000"), ab / ip1(g1, g1))):
        sig = S.of(0)
    else:
        m = f["RCGmethod"]
        fr, pr = ip2(g2, pg2) / den, ip2(pg2, y) / den
        opts = {"FLETCHER_REEVES": lambda: fr,
                "POLAK_RIBIERE_MOD": lambda: pr if rt.decide(le(0, pr)) else S.of(0),
                "HESTENES_STIEFEL": lambda: ip2(pg2, y) / yp,
                "FR_PR": lambda: -fr if rt.decide(lt(pr, -fr)) else fr if rt.decide(lt(fr, pr)) else pr,
                "DAI_YUAN": lambda: ip2(g2, pg2) / yp,
                "HAGER_ZHANG": lambda: ip2(y - te.scale(2 * ip2(y, y) / yp), pg2) / yp}
        for k, th in opts.items():
            if rt.decide(eqc(m, w.E(k))):
                sig = th()
                break
        else:
            raise Infeasible()
    rt.goaleq(f["sigma"], sig, "the coefficient of the chosen method")
    rt.goaleq(f["eta1"], te.scale(sig) - pg2, "eta1 = - P gf2 + sigma T eta1")


@dvob("C15", "RCG::GetSearchDir: the direction kept or restarted is a descent direction")
def rcgdir(rt):
    w = mkworld(rt, "RCG")
    rt.biglimit = 0
    f = w.this.f
    x = f["x1"].val()
    ip = lambda a, b: w.metric(x, w.comb_m(a), w.comb_m(b))
    g, e0 = f["gf1"].val(), f["eta1"].val()
    eps = fn("epsilon", pos=True)
    rt.over["epsilon"] = lambda rt_, a: eps
    rt.fact(lt(ssqrt(eps), 1))
    rt.fact(lt(0, f["ngf1"]))
    rt.fact(eqc(f["ngf1"] * f["ngf1"], ip(g, g)))
    was = keep(w)
    reach(rt, w.this, "GetSearchDir")
    frame(rt, w, was, {"eta1", "Pgf1"})
    e = f["eta1"].val()
    pg = w.linmap("P", (x,), f["gf1"])
    ng2 = f["ngf1"] * f["ngf1"]
    bound = lambda v: lt(ip(v, g), -ssqrt(eps) * ng2)
    rt.goal(bound(e), "descent direction")
    is_ = lambda a, b: not normal(a - b).t
    old = And(Not(eqc(f["iter"], 0)), bound(e0))
    if is_(e, e0):
        rt.goal(old, "the direction is kept only when it is a descent direction")
    else:
        rt.goal(Not(old), "restart only when needed")
        rt.goaleq(f["Pgf1"], pg, "preconditioned gradient")
        if is_(e, pg.scale(S.of(-1))):
            rt.goal(bound(-pg), "preconditioned steepest descent")
        else:
            rt.goaleq(f["eta1"], g.scale(S.of(-1)), "steepest descent")
            rt.goal(Not(bound(-pg)), "only when the preconditioned direction is not a descent direction")


# ------------------------------------------------------------------ limited memory
def memory(rt, w):
    """S, Y, RHO with the ring-buffer invariant"""
    f = w.this.f
    L, n, b = f["LengthSY"], f["Currentlength"], f["beginidx"]
    rt.checkbounds = True
    for k in ("S", "Y"):
        f[k] = vecarray(rt, k, L)
    f["RHO"] = ZPtr(rt, Buf(ZArr("RHO"), "RHO", L))
    rt.fact(ring(f))


def ring(f):
    L, n, b = f["LengthSY"], f["Currentlength"], f["beginidx"]
    return And(le(0, n), le(n, L), le(0, b), Or(eqc(b, 0), And(lt(b, L), eqc(n, L))))


def slot(f, j):
    return fn("imod", f["beginidx"] + j, f["LengthSY"], isint=True)


def at(rt, f, k, i):
    return f[k].buf.a.read(rt, i)


def letter(rt, base, i):
    return M.sym(opaque(base, (i,), rt.N, S.of(1)))


def hv_invs(cls, fn_):
    """Q(n) = v, Q(i) = Q(i+1) - rho_i <s_i,Q(i+1)> y_i;  Z(0) = gamma P Q(0),
    Z(i+1) = Z(i) + (rho_i <s_i,Q(i+1)> - rho_i <y_i,Z(i)>) s_i; pair number i is in slot (beginidx + i) % LengthSY"""
    def xi(rt, i):
        f = rt.w.this.f
        k = slot(f, i)
        return at(rt, f, "RHO", k) * rt.qn.ip(at(rt, f, "S", k), letter(rt, "Q", i + 1))

    def conds1(rt):
        f = rt.w.this.f
        i = rt.L("i")
        n = f["Currentlength"]
        K = var("K", isint=True)
        p = rt.L("xi")
        return [("i", And(le(-1, i), lt(i, n))),
                ("saved coefficients", Imp(And(lt(i, K), lt(K, n)), eqc(p.buf.a.read(rt, slot(f, K)), xi(rt, K))))]

    def state1(rt):
        el(rt.local("result")).setval(letter(rt, "Q", rt.L("i") + 1), rt.N, 1)
        rt.seq = rt.L("i")

    def entry1(rt):
        rt.goaleq(el(rt.local("result")), rt.v0, "Q(n) is the argument")
        rt.goal(And(eqc(rt.L("i"), rt.w.this.f["Currentlength"] - 1)), "starts at the newest pair")

    def ghost1(rt):
        f, i = rt.w.this.f, rt.seq
        k = slot(f, i)
        rt.goaleq(el(rt.local("result")), letter(rt, "Q", i + 1) - at(rt, f, "Y", k).scale(xi(rt, i)), "Q(i) follows from Q(i+1)")
        rt.goaleq(rt.L("xi").buf.a.read(rt, k), xi(rt, i), "the coefficient is saved")
        K = var("K", isint=True)      # the instance K = i of what was just proved
        rt.fact(Imp(eqc(K, i), eqc(rt.L("xi").buf.a.read(rt, slot(f, K)), xi(rt, K))))
        rt.goal(eqc(rt.L("i"), i - 1), "goes to the next older pair")

    def conds2(rt):
        return [("i", And(le(0, rt.L("i")), le(rt.L("i"), rt.w.this.f["Currentlength"])))]

    def state2(rt):
        el(rt.local("result")).setval(letter(rt, "Z", rt.L("i")), rt.N, 1)
        rt.seq = i = rt.L("i")
        f = rt.w.this.f
        # the first loop's invariant holds for every pair; instance i
        rt.fact(Imp(And(le(0, i), lt(i, f["Currentlength"])), eqc(rt.L("xi").buf.a.read(rt, slot(f, i)), xi(rt, i))))

    def entry2(rt):
        rt.goal(eqc(rt.L("i"), 0), "starts at the oldest pair")
        q0 = el(letterelem(rt, "Q", S.of(0)))
        w = rt.w
        q0 = q0.val() if not rt.prec else w.linmap("P", (w.this.f["x1"].val(),), q0)
        i1 = rt.seq
        cur = el(rt.local("result"))
        want = q0.scale(w.this.f["gamma"])
        # at the end of the first loop the counter is -1, Q(i+1) = Q(0)
        rt.goaleq(i1, S.of(-1), "the first loop ends at the oldest pair")
        rt.goaleq(cur, substletter(rt, want, "Q", S.of(0), i1 + 1), "Z(0) is the initial approximation of Q(0)")

    def ghost2(rt):
        f, i = rt.w.this.f, rt.seq
        k = slot(f, i)
        z = letter(rt, "Z", i)
        om = at(rt, f, "RHO", k) * rt.qn.ip(at(rt, f, "Y", k), z)
        rt.goaleq(el(rt.local("result")), z + at(rt, f, "S", k).scale(xi(rt, i) - om), "Z(i+1) follows from Z(i)")
        rt.goal(eqc(rt.L("i"), i + 1), "goes to the next newer pair")
    return {(cls, fn_, 0): Inv(conds1, None, ghost=ghost1, entry=entry1, state=state1),
            (cls, fn_, 1): Inv(conds2, None, ghost=ghost2, entry=entry2, state=state2)}


def letterelem(rt, base, i):
    e = Elem(rt.N, 1, 1)
    e.setval(letter(rt, base, i), rt.N, 1)
    return e


def substletter(rt, m, base, i, j):
    """the same expression written with index j instead of i (i = j on this path)"""
    a, b = letter(rt, base, i), letter(rt, base, j)
    if rt.prec:
        w = rt.w
        a = w.linmap("P", (w.this.f["x1"].val(),), rt.qn.vecof(a))
        b = w.linmap("P", (w.this.f["x1"].val(),), rt.qn.vecof(b))
    ((ka, _),) = a.t.items()
    ((kb, _),) = b.t.items()
    return M(rt.N, 1, {(kb if k == ka else k): s for k, s in normal(m).t.items()})


def hv_ob(cls, fn_, prec):
    @dvob("C15", "%s::%s: two-loop recursion over the stored pairs, oldest to newest" % (cls, fn_), invs=hv_invs(cls, fn_))
    def go(rt):
        qn = QN(rt, cls, "x1")
        w = qn.w
        memory(rt, w)
        rt.prec = prec
        f = w.this.f
        r = w.vec("res")
        v = w.vec("v")
        rt.v0 = v.val()
        was = keep(w)
        reach(rt, w.this, fn_, v, Ptr(r))
        frame(rt, w, was, {"Py"})
        rt.goaleq(rt.seq, f["Currentlength"], "all pairs are used")
        rt.goaleq(r, letter(rt, "Z", rt.seq), "the result is Z(n)")
    return go


hv_ob("LRBFGS", "HvLRBFGS", True)
hv_ob("LRBFGSSub", "HvLRBFGSSub", False)


@dvob("C15", "lemma: the two-loop recursion applies the BFGS updates of the stored pairs")
def lemma_lbfgs(rt):
    """H_{i+1} = V_i* H_i V_i + rho_i s_i s_i, V_i = id - rho_i y_i <s_i,.>; if Z(i) = H_i Q(i) with Q(i) = V_i Q(i+1) then
    Z(i+1) = H_{i+1} Q(i+1); so the result is H_n v"""
    qn = QN(rt, "LRBFGS", None)
    w = qn.w
    s, y, q1 = (w.letter_(k) for k in ("s_i", "y_i", "Q_i1"))
    H = Op(0, "H_i", [])
    rho = ONE / qn.ip(s, y)
    q = q1 - y.scale(rho * qn.ip(s, q1))
    z = qn.apply(H, q)
    z1 = z + s.scale(rho * qn.ip(s, q1) - rho * qn.ip(y, z))
    rt.goaleq(qn.vecof(z1), bfgs(qn, H, s, y)(q1), "Z(i+1) = H_{i+1} Q(i+1)")


def ring_invs(cls, fn_):
    """after i steps of the loop the slots it has passed hold transported vectors, the others are untouched"""
    def passed_lin(rt, k, i):
        return And(le(0, k), lt(k, i))

    def passed_ring(rt, k, i):
        f = rt.w.this.f
        b, L = f["beginidx"], f["LengthSY"]
        return Or(And(le(b, k), lt(k, i)), And(le(0, k), lt(k, b), lt(k + L, i)))

    def make(passed, lo, hi):
        def value(rt, nm, k, i):
            old = rt.ring0[nm].read(rt, k)
            return rt.qn.T(old) if rt.decide(passed(rt, k, i)) else old

        def entry(rt):
            f = rt.w.this.f
            rt.ring0 = {nm: f[nm].buf.a for nm in "SY"}
            rt.goaleq(rt.L("i"), lo(f), "transport starts at the first pair")

        def state(rt):
            f = rt.w.this.f
            i = rt.L("i")
            for nm in "SY":
                f[nm].buf.a = VZArr(rt, rt.newname(nm), (), lambda k, nm=nm: value(rt, nm, k, i))

        def ghost(rt):
            f = rt.w.this.f
            K, i = var("Kslot", isint=True), rt.L("i")
            if rt.decide(And(le(0, K), lt(K, f["LengthSY"]))):
                for nm in "SY":
                    rt.goaleq(rt.qn.vecof(f[nm].buf.a.read(rt, K)), rt.qn.vecof(value(rt, nm, K, i)), "slots passed hold transported vectors, the others are kept")

        def conds(rt):
            f = rt.w.this.f
            return [("i", And(le(lo(f), rt.L("i")), le(rt.L("i"), hi(f))))]
        return Inv(conds, None, ghost=ghost, entry=entry, state=state)
    return {(cls, fn_, 0): make(passed_lin, lambda f: S.of(0), lambda f: f["Currentlength"]),
            (cls, fn_, 1): make(passed_ring, lambda f: f["beginidx"], lambda f: f["beginidx"] + f["LengthSY"] - 1),
            (cls, fn_, 2): make(passed_lin, lambda f: S.of(0), lambda f: f["Currentlength"])}


LM = {"s", "y", "Py", "betay", "inpsy", "inpss", "inpyy", "rho", "gamma", "isupdated", "nV", "nVp", "S", "Y", "RHO", "Currentlength", "beginidx"}


def ring_ob(cls, fn_, sub):
    @dvob("C15", "%s::UpdateData: the stored pairs are transported, the new pair replaces the oldest" % cls, invs=ring_invs(cls, fn_), maxpaths=900)
    def go(rt):
        qn = QN(rt, cls, "x2")
        w = qn.w
        f = w.this.f
        memory(rt, w)
        w.G1 = f["gf1"].val()
        if sub:
            rt.fact(lt(0, f["lambdaUpper"]))
            rt.fact(lt(0, f["lambdaLower"]))
        else:
            rt.fact(lt(0, f["nu"]))
            rt.fact(lt(0, fn("pow", f["ngf2"], f["mu"], nonneg=True)))
            rt.fact(Imp(rt.tocond(f["LMrestart"]), eqc(f["beginidx"], 0)))
        s, y = gpair(qn)
        yy = qn.ip(y, y)
        rt.fact(lt(0, yy))
        pyy = yy
        if sub:
            s = w.letter_("Sd")
            sy = qn.ip(s, y)
            d = S.of(0)
            if rt.decide(batom("damped")):
                d = var("d", pos=True)
                rt.fact(lt(0, sy))
                f["lambdaUpper"] = yy / sy
            else:
                rt.fact(le(ONE / f["lambdaUpper"], sy / yy))
            e2, vt = f["eta2"], w.m_VectorTransport
            w.m_VectorTransport = lambda x, e, y_, xi, res: w.put(res, s - y.scale(d)) if el(xi) is e2 else vt(x, e, y_, xi, res)
        else:
            pyy = qn.ip(y, w.linmap("P", (f["x2"].val(),), qn.vecof(y)))
            rt.fact(lt(0, pyy))
        sy, ss = qn.ip(s, y), qn.ip(s, s)
        rt.fact(lt(0, ss))
        L, n0, b0 = f["LengthSY"], f["Currentlength"], f["beginidx"]
        old = {k: f[k].buf.a for k in ("S", "Y", "RHO")}
        oldslot = lambda j: fn("imod", b0 + j, L, isint=True)
        was = keep(w)
        reach(rt, w.this, "UpdateData")
        frame(rt, w, was, LM)
        rt.goaleq(f["s"], s, "s is the transported step")
        rt.goaleq(f["y"], y, "y is the difference of gradients at the new iterate")
        rt.goal(ring(f), "the ring buffer stays consistent")
        ok = le(f["lambdaLower"], sy / ss) if sub else accept(qn, sy, ss)
        n1 = f["Currentlength"]
        new = lambda k, j: at(rt, f, k, slot(f, j))
        K = var("Kpair", isint=True)
        rt.fact(And(le(0, K), lt(K, n1)))

        def carried(j):
            """pair K is the transported old pair j"""
            k = oldslot(j)
            for nm in "SY":
                rt.goaleq(qn.vecof(new(nm, K)), qn.vecof(qn.T(old[nm].read(rt, k))), "kept pairs are transported")
            rt.goaleq(new("RHO", K), old["RHO"].read(rt, slot(f, K) if rt.solver.entailed(rt, eqc(k, slot(f, K))) is True else k), "their coefficients are kept")
        if rt.decide(ok):
            rt.goal(rt.tocond(f["isupdated"]), "updated")
            rt.goaleq(f["gamma"], sy / pyy, "scaling of the initial approximation")
            restart = And(rt.tocond(f["LMrestart"]), le(L, n0)) if not sub else False
            if restart is not False and rt.decide(restart):
                if rt.decide(le(1, L)):
                    rt.goaleq(n1, S.of(1), "restarted with the new pair")
                drop = n0
            elif rt.decide(lt(n0, L)):
                rt.goaleq(n1, n0 + 1, "one more pair")
                drop = S.of(0)
            else:
                rt.goaleq(n1, n0, "all slots stay in use")
                drop = S.of(1)
            if rt.decide(eqc(K, n1 - 1)):
                rt.goaleq(qn.vecof(new("S", K)), s, "the newest pair is the new one (s)")
                rt.goaleq(qn.vecof(new("Y", K)), y, "the newest pair is the new one (y)")
                rt.goaleq(new("RHO", K), ONE / sy, "its coefficient")
                return
            carried(K + drop)
        else:
            rt.goal(Not(rt.tocond(f["isupdated"])), "not updated")
            if sub:
                rt.goaleq(n1, S.of(0), "the memory is emptied")
            else:
                rt.goaleq(n1, n0, "no pair is added")
                carried(K)
    return go


ring_ob("LRBFGS", "UpdateDataLRBFGS", False)
ring_ob("LRBFGSSub", "UpdateDataLRBFGSSub", True)


# ------------------------------------------------------------------ limited-memory SR1
class Tab:
    """square table kept in a one-dimensional array with leading dimension L"""

    def __init__(self, rt, name, L, a=None):
        self.rt, self.name, self.L = rt, name, L
        self.buf = Buf(a or Z2(rt, name), name, L * L)

    def split(self, i):
        """index = a + b L with 0 <= a < L"""
        rt, L = self.rt, self.L
        ((k, _),) = [m for m in L.n][0]
        b, a = {}, {}
        if i.d != alg.P1:
            raise Unsupported("index of a table")
        for m, c in i.n.items():
            e = dict(m).get(k, 0)
            if e:
                d = dict(m)
                d[k] = e - 1
                b[tuple(sorted((x, y) for x, y in d.items() if y))] = c
            else:
                a[m] = c
        A, B = S(a, alg.P1), S(b, alg.P1)
        if rt.decide(lt(A, 0)):
            A, B = A + L, B - 1
        rt.goal(And(le(0, A), lt(A, L), le(0, B), lt(B, L)), "index within the table %s" % self.name)
        return A, B

    def index(self, i):
        return Z2Cell(self, self.split(i))

    def cmp(self, op, b):
        if b is None:
            return op == "!="
        raise Unsupported("pointer comparison")

    def snapkey(self):
        return ("tab", self.buf.a.key())

    def havoc(self, rt, nm):
        self.buf.a = Z2(rt, rt.newname(self.name))
        return self


class Z2Cell:
    def __init__(self, tab, ij):
        self.tab, self.ij = tab, ij

    def get(self):
        return self.tab.buf.a.read(*self.ij)

    def set(self, v):
        self.tab.buf.a = self.tab.buf.a.store(self.ij, v)


class Z2:
    def __init__(self, rt, base, w=(), init=None):
        self.rt, self.base, self.w, self.init = rt, base, w, init

    def store(self, ij, v):
        return Z2(self.rt, self.base, self.w + ((ij, v),), self.init)

    def read(self, a, b):
        for (x, y), v in reversed(self.w):
            if self.rt.decide(And(eqc(a, x), eqc(b, y))):
                return v
        if self.init:
            return self.init(a, b)
        rt = self.rt
        seen = rt.__dict__.setdefault("vreads", {}).setdefault(self.base, [])
        for x, y in seen:
            if a.eq(x) and b.eq(y) or rt.solver.entailed(rt, And(eqc(a, x), eqc(b, y))) is True:
                a, b = x, y
                break
        else:
            seen.append((a, b))
        return fn(self.base, a, b)

    def key(self):
        return (self.base, len(self.w), id(self))


def sr1_invs(tabs=True):
    f_ = ("LRTRSR1", "UpdateDataLRTRSR1")

    def tables(rt):
        f = rt.w.this.f
        return {k: f[k].buf.a for k in ("SS", "SY")}

    def make(closed, lo, hi, var_="i"):
        def entry(rt):
            f = rt.w.this.f
            rt.tab0 = dict(getattr(rt, "tab0", {}))
            rt.tab0[closed] = tables(rt)
            rt.ctx = (f["Currentlength"], f["LengthSY"], f["beginidx"])
            rt.goaleq(rt.L(var_), lo(rt), "starts at the first entry")

        def state(rt):
            f = rt.w.this.f
            for k in ("SS", "SY"):
                i = rt.L(var_)
                t0 = rt.tab0[closed][k]
                oi = rt.L("i") if var_ == "j" else None
                f[k].buf.a = Z2(rt, rt.newname(k), (), lambda a, b, k=k, i=i, t0=t0, oi=oi: closed(rt, k, a, b, i, t0, oi))

        def ghost(rt):
            f = rt.w.this.f
            A, B, i = var("rowA", isint=True), var("colB", isint=True), rt.L(var_)
            L = f["LengthSY"]
            if rt.decide(And(le(0, A), lt(A, L), le(0, B), lt(B, L))):
                for k in ("SS", "SY"):
                    oi = rt.L("i") if var_ == "j" else None
                    rt.goaleq(f[k].buf.a.read(A, B), closed(rt, k, A, B, i, rt.tab0[closed][k], oi), "table after the steps so far")

        def conds(rt):
            i = rt.L(var_)
            c = [(var_, And(le(lo(rt), i), le(i, hi(rt))))]
            if var_ == "j":
                c += [("row", And(le(0, rt.L("i")), lt(rt.L("i"), rt.w.this.f["LengthSY"] - 1)))]
            return c
        if not tabs:
            return Inv(conds)
        return Inv(conds, None, ghost=ghost, entry=entry, state=state)

    def row(rt, k, a, b, i, t0, oi):
        f = rt.w.this.f
        n = rt.ctx[0]
        o = "S" if k == "SS" else "Y"
        v = lambda c: rt.qn.ip(at(rt, f, "S", n), at(rt, f, o, c))
        if rt.decide(And(eqc(a, n), le(0, b), lt(b, i))):
            return v(b)
        if rt.decide(And(eqc(b, n), le(0, a), lt(a, i))):
            return v(a)
        return t0.read(a, b)

    def shift(rt, k, a, b, i, t0, oi):
        L = rt.ctx[1]
        if rt.decide(And(le(0, a), lt(a, i), le(0, b), lt(b, L - 1))):
            return t0.read(a + 1, b + 1)
        return t0.read(a, b)

    def shiftj(rt, k, a, b, j, t0, oi):
        if rt.decide(And(eqc(a, oi), le(0, b), lt(b, j))):
            return t0.read(a + 1, b + 1)
        return t0.read(a, b)

    def last(rt, k, a, b, i, t0, oi):
        f = rt.w.this.f
        L, p = rt.ctx[1:]
        o = "S" if k == "SS" else "Y"
        v = lambda c: rt.qn.ip(at(rt, f, o, fn("imod", c + p + 1, L, isint=True)), at(rt, f, "S", p))
        if rt.decide(And(eqc(b, L - 1), le(0, a), lt(a, i))):
            return v(a)
        if rt.decide(And(eqc(a, L - 1), le(0, b), lt(b, i))):
            return v(b)
        return t0.read(a, b)
    z = lambda rt: S.of(0)
    m1 = lambda rt: rt.w.this.f["LengthSY"] - 1
    return {f_ + (0,): make(row, z, lambda rt: rt.w.this.f["Currentlength"]),
            f_ + (1,): make(shift, z, m1), f_ + (2,): make(shiftj, z, m1, "j"), f_ + (3,): make(last, z, m1)}


def sr1world(rt, at_="x1"):
    qn = QN(rt, "LRTRSR1", at_)
    w = qn.w
    f = w.this.f
    L = f["LengthSY"]
    rt.checkbounds = True
    for k in ("S", "Y", "YMGS"):
        f[k] = vecarray(rt, k, L)
    for k in ("SS", "SY"):
        f[k] = Tab(rt, k, L)
    rt.fact(ring(f))
    return qn, w, f


def sr1_start(rt):
    qn, w, f = sr1world(rt)
    rt.fact(Imp(rt.tocond(f["LMrestart"]), eqc(f["beginidx"], 0)))
    g2 = w.G(f["x2"])
    y = w.letter_("Y_")
    f["gf1"].setval(w.linmap("IVT", (f["x1"].val(), f["eta2"].val(), f["x2"].val()), qn.vecof(g2)) - y, w.N, 1)
    return qn, w, f, f["eta2"].val(), y, g2


@dvob("C15", "LRTRSR1::UpdateData: pair, acceptance and scaling", invs=sr1_invs(False), maxpaths=900)
def lrtrsr1a(rt):
    qn, w, f, s, y, g2 = sr1_start(rt)
    sy, ss, yy = qn.ip(s, y), qn.ip(s, s), qn.ip(y, y)
    rt.fact(Not(eqc(sy, 0)))
    rt.fact(lt(0, ss))
    gam, up0, he = f["gamma"], rt.tocond(f["isupdated"]), f["Heta2"].val()
    if rt.decide(eqc(f["iter"], 0)):
        gam = yy / sy
        he = s.scale(gam)
    z = y - he
    den, zz = qn.ip(s, z), qn.ip(z, z)
    was = keep(w)
    reach(rt, w.this, "UpdateData")
    frame(rt, w, was, SR1MOD)
    rt.goaleq(f["gf2"], g2, "gf2 is the gradient at the candidate")
    rt.goaleq(f["ng"], rt.ghosts["nG"], "ng counts the gradient")
    rt.goaleq(f["s"], s, "s is the step")
    rt.goaleq(f["y"], y, "y is the difference of gradients at the old iterate")
    safe = And(le(rt.eps * ss * zz, den * den), Or(le(rt.eps, zz), lt(f["ngf2"] / f["ngf0"], S.const("1/1000"))))
    if not rt.decide(f["isupdated"]):
        rt.goaleq(f["gamma"], gam, "scaling kept")
        rt.goal(Imp(Not(eqc(f["iter"], 0)), Not(safe)), "a safe pair is accepted")
        return
    rt.goal(safe, "updated only when the denominator is safe")
    rt.goaleq(f["gamma"], yy / sy if rt.decide(up0) else gam, "scaling")


SR1MOD = {"s", "y", "eta1", "gf2", "ng", "nV", "inpsy", "inpss", "inpyy", "gamma", "isupdated", "Heta2", "S", "Y", "SS", "SY", "Currentlength", "beginidx"}


@dvob("C15", "LRTRSR1::UpdateData: stored pairs and their tables of inner products", invs=sr1_invs(), maxpaths=3000, timeout=300)
def lrtrsr1(rt):
    qn, w, f, s, y, g2 = sr1_start(rt)
    rt.wholecond = True
    # only inner products of single vectors matter here; the others (acceptance test) are arbitrary numbers
    full = w.m_Metric
    single = lambda m: len(m.t) == 1 and all(c.eq(ONE) for c in m.t.values())

    def metric(x, u, v):
        a, b = normal(el(u).val()), normal(el(v).val())
        return full(x, u, v) if single(a) and single(b) else var(rt.newname("ip"))
    w.m_Metric = metric
    L, n0, b0 = f["LengthSY"], f["Currentlength"], f["beginidx"]
    old = {k: f[k].buf.a for k in ("S", "Y", "SS", "SY")}
    oldslot = lambda j: fn("imod", b0 + j, L, isint=True)
    rt.over["fabs"] = lambda rt_, a: var(rt.newname("abs"))
    reach(rt, w.this, "UpdateData")
    rt.goal(ring(f), "the ring buffer stays consistent")
    n1 = f["Currentlength"]
    if not rt.decide(f["isupdated"]):
        rt.goal(And(eqc(n1, n0), eqc(f["beginidx"], b0)), "no pair is added")
        for k in old:
            if f[k].buf.a is not old[k]:
                raise Fail("%s changed although no pair is added" % k)
        return
    restart = And(rt.tocond(f["LMrestart"]), le(L, n0))
    if rt.decide(restart):
        drop = n0
        if rt.decide(le(1, L)):
            rt.goaleq(n1, S.of(1), "restarted with the new pair")
    elif rt.decide(lt(n0, L)):
        rt.goaleq(n1, n0 + 1, "one more pair")
        drop = S.of(0)
    else:
        rt.goaleq(n1, n0, "all slots stay in use")
        drop = S.of(1)
    K, J = var("Kpair", isint=True), var("Jpair", isint=True)
    rt.fact(And(le(0, K), lt(K, n1), le(0, J), lt(J, n1)))
    new = lambda k, j: at(rt, f, k, slot(f, j))
    nk = rt.decide(eqc(K, n1 - 1))
    if nk:
        rt.goaleq(qn.vecof(new("S", K)), s, "the newest pair is the new one (s)")
        rt.goaleq(qn.vecof(new("Y", K)), y, "the newest pair is the new one (y)")
    else:
        for nm in "SY":
            rt.goaleq(qn.vecof(new(nm, K)), qn.vecof(old[nm].read(rt, oldslot(K + drop))), "kept pairs are kept")
    # tables: invariant before for the pair of old indices, after for (K, J)
    nj = rt.decide(eqc(J, n1 - 1))
    if not nk and not nj:
        a, b = K + drop, J + drop
        o = lambda k, j: old[k].read(rt, oldslot(j))
        rt.fact(eqc(old["SS"].read(a, b), qn.ip(o("S", a), o("S", b))))
        hi, lo = (a, b) if rt.decide(le(b, a)) else (b, a)
        rt.fact(eqc(old["SY"].read(a, b), qn.ip(o("S", hi), o("Y", lo))))
    rt.goaleq(f["SS"].buf.a.read(K, J), qn.ip(new("S", K), new("S", J)), "SS holds the inner products of the steps")
    hi, lo = (K, J) if rt.decide(le(J, K)) else (J, K)
    rt.goaleq(f["SY"].buf.a.read(K, J), qn.ip(new("S", hi), new("Y", lo)), "SY holds the inner products of later steps with earlier y")


def hvsr1_invs():
    def conds(rt):
        K = var("K", isint=True)
        f = rt.w.this.f
        i, p = rt.L("i"), rt.L("vptr")
        return [("i", And(le(0, i), le(i, f["Currentlength"]))),
                ("coefficients", Imp(And(le(0, K), lt(K, i)), eqc(p.buf.a.read(rt, K), rt.qn.ip(at(rt, f, "YMGS", K), rt.eta))))]

    def state2(rt):
        el(rt.local("result")).setval(letter(rt, "R", rt.L("i")), rt.N, 1)
        rt.seq = rt.L("i")

    def entry2(rt):
        f = rt.w.this.f
        rt.goaleq(el(rt.local("result")), rt.eta.scale(f["gamma"]), "R(0) = gamma eta")
        rt.goal(eqc(rt.L("i"), 0), "starts at the first column")

    def ghost2(rt):
        f, i = rt.w.this.f, rt.seq
        rt.goaleq(el(rt.local("result")), letter(rt, "R", i) + at(rt, f, "YMGS", i).scale(fn("sol", i)), "R(i+1) = R(i) + x_i (y_i - gamma s_i)")
        rt.goal(eqc(rt.L("i"), i + 1), "next column")
    def state1(rt):
        rt.seq = rt.L("i")

    def ghost1(rt):
        K, i, f = var("K", isint=True), rt.seq, rt.w.this.f
        rd = lambda j: eqc(rt.L("vptr").buf.a.read(rt, j), rt.qn.ip(at(rt, f, "YMGS", j), rt.eta))
        rt.goal(rd(i), "coefficient i")
        rt.fact(Imp(eqc(K, i), rd(K)))          # the instance K = i
    return {("LRTRSR1", "HvLRTRSR1", 0): Inv(conds, None, ghost=ghost1, state=state1),
            ("LRTRSR1", "HvLRTRSR1", 1): Inv(lambda rt: [("i", And(le(0, rt.L("i")), le(rt.L("i"), rt.w.this.f["Currentlength"])))], None,
                                             ghost=ghost2, entry=entry2, state=state2)}


class SolveAPI(DElemAPI):
    def operator(self, rt, op, args):
        if op == "%":
            a, b = (x if isinstance(x, Elem) else el(x) for x in args)
            f = rt.w.this.f
            rt.goaleq(a, f["PMGQ"], "the system solved is that of PMGQ")
            n = f["Currentlength"]
            K = var("K", isint=True)
            rt.goal(eqc(b.r, n), "right-hand side has one entry per pair")
            rt.goal(Imp(And(le(0, K), lt(K, n)), eqc(b.arr.extra.a.read(rt, K), rt.qn.ip(at(rt, f, "YMGS", K), rt.eta))), "right-hand side is <y_k - gamma s_k, eta>")
            e = Elem(n, 1, 1)
            e.arr = Arr(None)
            e.arr.extra = Buf(ZArr("sol"), "sol", n)
            return e
        return super().operator(rt, op, args)


@dvob("C15", "LRTRSR1::HvLRTRSR1: gamma eta + sum_i x_i (y_i - gamma s_i), PMGQ x = <y_k - gamma s_k, eta>", invs=hvsr1_invs())
def hvlrtrsr1(rt):
    qn, w, f = sr1world(rt)
    rt.elemapi = SolveAPI()
    rt.rawbuf = True
    e, r = w.vec("eta"), w.vec("res")
    rt.eta = e.val()
    was = keep(w)
    reach(rt, w.this, "HessianEta", e, Ptr(r))
    frame(rt, w, was, set())
    rt.goaleq(rt.seq, f["Currentlength"], "all columns are used")
    rt.goaleq(r, letter(rt, "R", rt.seq), "the result is R(n)")


def accept_invs():
    inv = ring_invs("LRTRSR1", "Acceptence")
    return {("LRTRSR1", "Acceptence", 0): inv[("LRTRSR1", "Acceptence", 0)]}


@dvob("C15", "LRTRSR1::Acceptence: every stored pair is transported", invs=accept_invs())
def sr1accept(rt):
    qn, w, f = sr1world(rt)
    old = {k: f[k].buf.a for k in "SY"}
    was = keep(w)
    reach(rt, w.this, "Acceptence")
    frame(rt, w, was, {"S", "Y"})
    K = var("Kpair", isint=True)
    rt.fact(And(le(0, K), lt(K, f["Currentlength"])))
    k = slot(f, K)
    for nm in "SY":
        rt.goaleq(qn.vecof(f[nm].buf.a.read(rt, k)), qn.vecof(qn.T(old[nm].read(rt, k))), "transported")


@dvob("C15", "RSD::GetSearchDir: preconditioned or plain steepest descent, a descent direction")
def rsddir(rt):
    w = mkworld(rt, "RSD")
    rt.biglimit = 0
    f = w.this.f
    x = f["x1"].val()
    ip = lambda a, b: w.metric(x, w.comb_m(a), w.comb_m(b))
    g = f["gf1"].val()
    eps = fn("epsilon", pos=True)
    rt.over["epsilon"] = lambda rt_, a: eps
    rt.fact(lt(ssqrt(eps), 1))
    rt.fact(lt(0, f["ngf1"]))
    rt.fact(eqc(f["ngf1"] * f["ngf1"], ip(g, g)))
    was = keep(w)
    reach(rt, w.this, "GetSearchDir")
    frame(rt, w, was, {"eta1", "Pgf1"})
    e = f["eta1"].val()
    pg = w.linmap("P", (x,), f["gf1"])
    bound = lambda v: lt(ip(v, g), -ssqrt(eps) * f["ngf1"] * f["ngf1"])
    rt.goal(bound(e), "descent direction")
    if rt.decide(bound(-pg)):
        rt.goaleq(f["eta1"], -pg, "preconditioned steepest descent")
    else:
        rt.goaleq(f["eta1"], -g, "steepest descent")
