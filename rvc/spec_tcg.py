"""C13: the truncated conjugate-gradient method of SolversSMTR.

The loop invariant says that the locals are the j-th members of the conjugate-gradient sequences; conjugacy over the whole
history is a lemma on sequences with these recurrences (proved by induction, arbitrary indices), so no bound on the number of
inner iterations is needed. The model Hessian is an arbitrary self-adjoint map, the inner product arbitrary positive definite."""
from world import *
from spec_ls import mkworld, keep, frame
from spec_run import fresh


class CG:
    """combinations of named letters with a self-adjoint map B and a symmetric form; pairs are canonical"""

    def __init__(self, w):
        self.w = w
        self.psd = set()

    def comb(self, v):
        if isinstance(v, Elem):
            v = v.val()
        return self.w.comb_m(v)

    def base(self, l):
        return self.w.bmap.get(l)

    def ip(self, u, v):
        r = S.of(0)
        cu, cv = self.comb(u), self.comb(v)
        for a, s in cu:
            for b, t in cv:
                r = r + s * t * self.pair(a, b)
        if len(cu) == len(cv) > 1 and all(a == b and s.eq(t) for (a, s), (b, t) in zip(sorted(cu, key=lambda q: q[0]), sorted(cv, key=lambda q: q[0]))):
            k = repr(r)
            if k not in self.psd:       # the form is positive semidefinite
                self.psd.add(k)
                self.w.rt.fact(le(0, r))
        return r

    def pair(self, a, b):
        ba, bb = self.base(a), self.base(b)
        if ba is not None and bb is None:
            a, b, ba, bb = b, a, bb, ba
        if bb is not None and ba is None:
            p, q = sorted([lname(a), lname(bb)])
            return fn("gB", p, q)
        p, q = sorted([lname(a), lname(b)])
        return fn("g", p, q, nonneg=(p == q))

    def B(self, v):
        out = M.zero(self.w.N, 1)
        for l, s in self.comb(v):
            z = opaque("B", (M(self.w.N, 1, {(l,): ONE}),), self.w.N, 1)
            m = M.sym(z)
            for k in m.t:
                self.w.bmap[k[0]] = l
            out = out + m.scale(s)
        return out


def veq(a, b):
    d = normal(a - b)
    return And(*[eqc(s, 0) for s in d.t.values() if not s.iszero()])


def tcg_inv():
    def conds(rt):
        w, cg = rt.w, rt.cg
        f = w.this.f
        r, d, H, e = rt.local("r").val(), rt.local("delta").val(), rt.local("Heta").val(), f["eta2"].val()
        g = f["gf1"].val()
        z = rt.L("z_r")
        return [("r is the gradient of the model", veq(r, g + H)),
                ("z_r", eqc(z, cg.ip(r, r))), ("e_Pe", eqc(rt.L("e_Pe"), cg.ip(e, e))),
                ("e_Pd", eqc(rt.L("e_Pd"), cg.ip(e, d))), ("d_Pd", eqc(rt.L("d_Pd"), cg.ip(d, d))),
                ("residual and direction", eqc(cg.ip(r, d), -z)), ("iterate and residual", eqc(cg.ip(e, r), 0)),
                ("sizes", And(lt(0, z), le(z, rt.L("d_Pd")))), ("growth", le(0, rt.L("e_Pd"))),
                ("inside", lt(rt.L("e_Pe"), f["Delta"] * f["Delta"])),
                ("model value", eqc(rt.L("modelv"), cg.ip(e, g) + S.const("1/2") * cg.ip(e, H))),
                ("model decreases", And(le(rt.L("modelv"), 0), Imp(lt(0, rt.L("j")), lt(rt.L("modelv"), 0)))),
                ("status", eqc(f["tCGstatusSM"], w.E("TRSM_MAXITER"))),
                ("norm_r0", eqc(rt.L("norm_r0"), ssqrt(cg.ip(g, g)))),
                ("j", And(le(0, rt.L("j")), le(rt.L("j"), f["Max_Inner_Iter"]))),
                ("nH", eqc(f["nH"], rt.ghosts["nH"]))]

    def setstate(rt):
        """the state is the j-th member of the sequences"""
        w, cg = rt.w, rt.cg
        f = w.this.f
        D, R, E = (w.letter_("%s[%s]" % (k, repr(rt.L("j")))) for k in "DRE")
        rt.seq = dict(D=D, R=R, E=E)
        N = w.N
        rt.local("delta").setval(D, N, 1)
        rt.local("r").setval(R, N, 1)
        f["eta2"].setval(E, N, 1)
        g = f["gf1"].val()
        H = R - g
        rt.local("Heta").setval(H, N, 1)
        cg.B(D)
        for k, v in (("z_r", cg.ip(R, R)), ("e_Pe", cg.ip(E, E)), ("e_Pd", cg.ip(E, D)), ("d_Pd", cg.ip(D, D)),
                     ("modelv", cg.ip(E, g) + S.const("1/2") * cg.ip(E, H))):
            rt.local(k).set(v)
        BD = cg.B(D)
        # B is self-adjoint and Heta = B eta
        rt.fact(eqc(cg.ip(E, BD), cg.ip(H, D)))
        # lemma (conjugacy of the whole history), proved in the obligation on the sequences
        rt.fact(eqc(cg.ip(E, BD), 0))

    def ghost(rt):
        w, cg = rt.w, rt.cg
        f = w.this.f
        D, R, E = rt.seq["D"], rt.seq["R"], rt.seq["E"]
        BD = cg.B(D)
        a = cg.ip(R, R) / cg.ip(D, BD)
        r1, d1 = rt.local("r").val(), rt.local("delta").val()
        rt.goaleq(r1, R + BD.scale(a), "recurrence of the residual")
        rt.goaleq(f["eta2"], E + D.scale(a), "recurrence of the iterate")
        rt.goaleq(rt.local("Heta"), R - f["gf1"].val() + BD.scale(a), "recurrence of the Hessian of the iterate")
        rt.goaleq(d1, r1.scale(S.of(-1)) + D.scale(cg.ip(r1, r1) / cg.ip(R, R)), "recurrence of the direction")

    def entry(rt):
        w = rt.w
        f = w.this.f
        rt.goaleq(rt.local("r"), f["gf1"], "R_0 is the gradient")
        rt.goaleq(rt.local("delta"), f["gf1"].val().scale(S.of(-1)), "D_0 is minus the gradient")
        rt.goaleq(f["eta2"], M.zero(w.N, 1), "E_0 is zero")
        rt.goaleq(rt.local("Heta"), M.zero(w.N, 1), "H E_0 is zero")
    return {("SolversSMTR", "tCG_TR", 0): Inv(conds, None, ghost=ghost, entry=entry, state=setstate)}


@dvob("C13", "SolversSMTR::tCG_TR: inside the region, status, model decrease", invs=tcg_inv(), timeout=300)
def tcg(rt):
    w = mkworld(rt, "SolversSMTR")
    w.bmap = {}
    f = w.this.f
    cg = rt.cg = CG(w)
    rt.biglimit = 0
    w.m_Metric = lambda x, u, v: (rt.goaleq(el(x), f["x1"], "inner products are taken at the iterate"), cg.ip(el(u), el(v)))[1]
    w.p_PreConditioner = lambda x, e, res: w.put(res, el(e).val())
    rt.over["pow"] = lambda rt_, a: fn("pow", num_(a[0]), num_(a[1]), nonneg=True)

    def hess(rt_, o, a):
        rt.ghosts["nH"] = rt.ghosts["nH"] + 1
        return w.put(val(a[1]), cg.B(el(a[0])))
    w.this.contracts["HessianEta"] = hess
    f["eta1"].setval(M.zero(w.N, 1), w.N, 1)
    g = f["gf1"].val()
    rt.fact(lt(0, cg.ip(g, g)))
    rt.fact(lt(0, f["Delta"]))
    rt.fact(lt(0, f["kappa"]))
    rt.fact(le(0, f["Max_Inner_Iter"]))
    was = keep(w)
    reach(rt, w.this, "tCG_TR")
    frame(rt, w, was, {"eta2", "tCGstatusSM", "innerIter", "nH"})
    rt.goaleq(f["nH"], rt.ghosts["nH"], "nH counts the products with the model Hessian")
    e = f["eta2"].val()
    nn = cg.ip(e, e)
    D2 = f["Delta"] * f["Delta"]
    st = lambda *n: Or(*[eqc(f["tCGstatusSM"], w.E(k)) for k in n])
    rt.goal(st("TRSM_EXCREGION", "TRSM_NEGCURVTURE", "TRSM_MAXITER", "TRSM_LCON", "TRSM_SCON"), "status is one of the reasons")
    rt.goal(And(le(0, f["innerIter"]), le(f["innerIter"], f["Max_Inner_Iter"])), "inner iterations within the limit")
    # model value at eta2
    seq = getattr(rt, "seq", None)
    if seq is None:
        raise Unsupported("no loop")
    D, R, E = seq["D"], seq["R"], seq["E"]
    BD = cg.B(D)
    # eta2 = E + t D; B eta2 = (R - g) + t B D
    t = None
    dif = normal(e - E)
    if not dif.t:
        t = S.of(0)
    else:
        ((k, s),) = dif.t.items()
        if not normal(M(w.N, 1, {k: ONE}) - D).t:
            t = s
    if t is None:
        raise Fail("eta2 is not on the conjugate direction")
    He = R - g + BD.scale(t)
    mv = cg.ip(e, g) + S.const("1/2") * cg.ip(e, He)
    res = g + He
    if rt.decide(st("TRSM_EXCREGION", "TRSM_NEGCURVTURE")):
        rt.goal(eqc(nn, D2), "the step has exactly the length of the radius")
        rt.goaleq(st("TRSM_NEGCURVTURE"), lt(cg.ip(D, BD), 0), "negative curvature is reported exactly when it was met")
        rt.goal(le(0, t), "the step continues along the direction")
        dh = cg.ip(D, BD)
        if rt.decide(lt(0, dh)):
            al = cg.ip(R, R) / dh
            rt.goal(le(t, al), "no further than the minimiser along the direction")
            rt.fact(le(t, al))
        # m(E + t D) = m(E) - t <R,R> + t^2/2 <D,BD>
        rt.goal(le(-t * cg.ip(R, R) + S.const("1/2") * t * t * dh, 0), "the last step does not increase the model")
        m0 = cg.ip(E, g) + S.const("1/2") * cg.ip(E, R - g)
        rt.goal(eqc(mv, m0 - t * cg.ip(R, R) + S.const("1/2") * t * t * dh), "model value along the direction")
        return
    rt.goal(lt(nn, D2), "the step is inside the region")
    rt.goal(le(mv, 0), "the model is not increased")
    if rt.decide(st("TRSM_MAXITER")):
        rt.goaleq(f["innerIter"], f["Max_Inner_Iter"], "all iterations were used")
        return
    n0 = ssqrt(cg.ip(g, g))
    tn = fn("pow", n0, f["theta"], nonneg=True)
    nr = ssqrt(cg.ip(res, res))
    rt.goal(Or(le(f["Min_Inner_Iter"], f["innerIter"]), eqc(nr, 0)), "not before the minimum number of inner iterations")
    rt.goal(Imp(st("TRSM_LCON"), And(lt(f["kappa"], tn), le(nr, n0 * f["kappa"]))), "linear convergence criterion")
    rt.goal(Imp(st("TRSM_SCON"), And(le(tn, f["kappa"]), le(nr, n0 * tn))), "superlinear convergence criterion")


@dvob("C13", "lemma: conjugacy of the sequences of the truncated conjugate-gradient method")
def lemma(rt):
    """R_{k+1} = R_k + a_k B D_k, D_{k+1} = -R_{k+1} + b_k D_k, E_{k+1} = E_k + a_k D_k, R_0 = g, D_0 = -g, E_0 = 0,
    a_k = <R_k,R_k>/<D_k,BD_k> != 0, b_k = <R_{k+1},R_{k+1}>/<R_k,R_k>. Then for all m < j: <R_j,D_m> = 0, <D_j,BD_m> = 0,
    and for all j: <R_j,D_j> = -<R_j,R_j>, <E_j,BD_j> = 0. Induction on j (and on m for E)."""
    w = mkworld(rt, "SolversSMTR")
    w.bmap = {}
    rt.biglimit = 0
    cg = CG(w)
    L = {k: w.letter_(k) for k in ("Rj", "Dj", "Dm", "Dm0", "Rm", "Rm1", "Em")}
    ip, B = cg.ip, cg.B
    a, am, rho = var("a_j"), var("a_m"), var("rho_j")
    Rj, Dj, Dm = L["Rj"], L["Dj"], L["Dm"]
    Z = lambda x, nm: rt.goal(eqc(x, 0), nm)
    rt.fact(lt(0, ip(Rj, Rj)))
    dj = ip(Dj, B(Dj))
    rt.fact(eqc(a * dj, ip(Rj, Rj)))
    rt.fact(Not(eqc(a, 0)))
    rt.fact(Not(eqc(dj, 0)))
    rt.fact(Not(eqc(am, 0)))
    # induction hypothesis at j
    rt.fact(eqc(ip(Rj, Dj), -ip(Rj, Rj)))
    rt.fact(eqc(ip(Rj, Dm), 0))          # m < j
    rt.fact(eqc(ip(Dj, B(Dm)), 0))       # m < j
    R1 = Rj + B(Dj).scale(a)
    b = ip(R1, R1) / ip(Rj, Rj)
    D1 = R1.scale(S.of(-1)) + Dj.scale(b)
    Z(ip(R1, Dm), "<R_{j+1},D_m> = 0 for m < j")
    Z(ip(R1, Dj), "<R_{j+1},D_j> = 0")
    Z(ip(R1, D1) + ip(R1, R1), "<R_{j+1},D_{j+1}> = -<R_{j+1},R_{j+1}>")
    # residuals: for m >= 1, R_m = -D_m + b_{m-1} D_{m-1}; R_0 = -D_0. <R_{j+1},D_m> = <R_{j+1},D_{m-1}> = 0 (just proved, m <= j)
    bm = var("b_m0")
    x, y = var("R1.Dm"), var("R1.Dm0")
    rt.goal(Imp(And(eqc(x, 0), eqc(y, 0)), eqc(-x + bm * y, 0)), "<R_{j+1},R_m> = 0 for m <= j")
    # <D_{j+1},B D_m> for m < j: B D_m = (R_{m+1} - R_m)/a_m with m+1 <= j, residuals orthogonal
    p, q = var("R1.Rm1"), var("R1.Rm")
    rt.goal(Imp(And(eqc(p, 0), eqc(q, 0)), eqc(-(p - q) / am + b * ip(Dj, B(Dm)), 0)), "<D_{j+1},B D_m> = 0 for m < j")
    # m = j: B D_j = (R_{j+1} - R_j)/a_j, <R_{j+1},R_j> = 0
    rt.goal(Imp(eqc(ip(R1, Rj), 0), eqc(-(ip(R1, R1) - ip(R1, Rj)) / a + b * dj, 0)), "<D_{j+1},B D_j> = 0")
    rt.goal(eqc(ip(R1, B(Dj)), (ip(R1, R1) - ip(R1, Rj)) / a), "B D_j is the scaled difference of residuals")
    # E_m, induction on m <= j: E_0 = 0, E_{m+1} = E_m + a_m D_m
    u = ip(L["Em"], B(Dj))
    rt.goal(Imp(eqc(u, 0), eqc(ip(L["Em"] + Dm.scale(am), B(Dj)), 0)), "<E_{m+1},B D_j> = 0 for m < j")
    # base j = 0: D_0 = -g, R_0 = g
    g = w.letter_("g")
    rt.goal(eqc(ip(g, g.scale(S.of(-1))), -ip(g, g)), "base")


# ------------------------------------------------------------------ pieces the contracts of Run and tCG_TR rest on
@dvob("C13", "SolversSMTR::InitialVector: the inner iteration starts at zero")
def initialvector(rt):
    w = mkworld(rt, "SolversSMTR")
    was = keep(w)
    reach(rt, w.this, "InitialVector")
    frame(rt, w, was, {"eta1"})
    rt.goaleq(w.this.f["eta1"], M.zero(w.N, 1), "eta1 is zero")


def piece(cls, fn_, what, check, allowed=(), args=0, props="C13"):
    @dvob(props, "%s::%s: %s" % (cls, fn_, what))
    def go(rt):
        w = mkworld(rt, cls)
        was = keep(w)
        a = [w.vec("eta"), Ptr(w.vec("res"))] if args else []
        reach(rt, w.this, fn_, *a)
        frame(rt, w, was, set(allowed))
        check(rt, w, a)
    return go


def hessx(rt, w, a):
    rt.goaleq(el(a[1]), w.linmap("H", (w.this.f["x1"].val(),), a[0]), "the Hessian of the problem at the iterate")


def hessid(rt, w, a):
    rt.goaleq(el(a[1]), a[0], "the identity")


def grad2(rt, w, a):
    f = w.this.f
    rt.goaleq(f["gf2"], w.G(f["x2"]), "gf2 is the gradient at the candidate")
    rt.goaleq(f["ng"], rt.ghosts["nG"], "ng counts the gradient")


piece("RTRNewton", "HessianEta", "the model Hessian is the Riemannian Hessian at the iterate", hessx, args=1)
piece("RTRSD", "HessianEta", "the model Hessian is the identity", hessid, args=1)
piece("SolversSMTR", "UpdateData", "changes nothing", lambda rt, w, a: None, props=["C13", "C14"])
piece("SolversSMTR", "Acceptence", "evaluates the gradient at the candidate", grad2, ("gf2", "ng"), props=["C13", "C14"])


# ------------------------------------------------------------------ RNewton's inner iteration (C15)
def ls_inv():
    def mv(rt, e):
        return rt.cg.ip(e, rt.w.this.f["gf1"].val()) + S.const("1/2") * rt.cg.ip(e, rt.local("Heta").val())

    def conds(rt):
        w, cg = rt.w, rt.cg
        f = w.this.f
        r, e, d = rt.local("r").val(), f["eta1"].val(), rt.local("delta").val()
        g = f["gf1"].val()
        j = rt.L("j")
        return [("z_r", eqc(rt.L("z_r"), cg.ip(rt.w.pre(r), r))),
                ("modelv", eqc(rt.L("modelv"), cg.ip(e, g) + S.const("1/2") * cg.ip(e, rt.h0))),
                ("descent so far", Imp(lt(0, j), lt(cg.ip(e, g), -rt.eps))),
                ("status", eqc(f["tCGLSSMstatus"], w.E("LSSM_MAXITER"))),
                ("norm_r0", eqc(rt.L("norm_r0"), ssqrt(cg.ip(rt.r0, rt.r0)))),
                ("j", And(le(0, j), Or(le(j, f["Max_Inner_Iter"]), eqc(j, 0)))),
                ("nH", eqc(f["nH"], rt.ghosts["nH"]))]

    def entry(rt):
        w = rt.w
        rt.goaleq(rt.local("r"), rt.r0, "R_0 is the gradient of the model at the start")
        rt.goaleq(rt.local("delta"), w.pre(rt.r0).scale(S.of(-1)), "D_0 is minus the preconditioned residual")
        rt.goaleq(w.this.f["eta1"], rt.e0, "E_0 is the start")
        rt.goaleq(rt.local("Heta"), rt.h0, "H E_0")

    def setstate(rt):
        w, cg = rt.w, rt.cg
        j = repr(rt.L("j"))
        D, R, E = (w.letter_("%s[%s]" % (k, j)) for k in "DRE")
        rt.seq = dict(D=D, R=R, E=E)
        N = w.N
        rt.local("delta").setval(D, N, 1)
        rt.local("r").setval(R, N, 1)
        w.this.f["eta1"].setval(E, N, 1)
        rt.local("Heta").setval(rt.h0, N, 1)
        cg.B(D)
        rt.local("z_r").set(cg.ip(w.pre(R), R))
        rt.local("modelv").set(cg.ip(E, w.this.f["gf1"].val()) + S.const("1/2") * cg.ip(E, rt.h0))

    def ghost(rt):
        w, cg = rt.w, rt.cg
        f = w.this.f
        D, R, E = rt.seq["D"], rt.seq["R"], rt.seq["E"]
        BD = cg.B(D)
        dh = cg.ip(D, BD)
        rt.goal(lt(0, dh), "iterations go on only along directions of positive curvature")
        a = cg.ip(w.pre(R), R) / dh
        r1 = rt.local("r").val()
        rt.goaleq(r1, R + BD.scale(a), "recurrence of the residual")
        rt.goaleq(f["eta1"], E + D.scale(a), "recurrence of the iterate")
        rt.goaleq(rt.local("delta"), w.pre(r1).scale(S.of(-1)) + D.scale(cg.ip(w.pre(r1), r1) / cg.ip(w.pre(R), R)), "recurrence of the direction")
    return {("RNewton", "tCG_LS", 0): Inv(conds, None, ghost=ghost, entry=entry, state=setstate)}


@dvob("C15", "RNewton::tCG_LS: preconditioned conjugate gradients on the Newton equation, descent direction, status", invs=ls_inv(), timeout=300)
def tcgls(rt):
    w = mkworld(rt, "RNewton")
    w.bmap = {}
    f = w.this.f
    cg = rt.cg = CG(w)
    rt.biglimit = 0
    w.m_Metric = lambda x, u, v: (rt.goaleq(el(x), f["x1"], "inner products are taken at the iterate"), cg.ip(el(u), el(v)))[1]
    rt.over["pow"] = lambda rt_, a: fn("pow", num_(a[0]), num_(a[1]), nonneg=True)
    rt.eps = var("eps", pos=True)

    def pre(v):
        out = M.zero(w.N, 1)
        for l, s in cg.comb(v):
            out = out + M.sym(opaque("Pre", (M(w.N, 1, {(l,): ONE}),), w.N, 1)).scale(s)
        return out
    w.pre = pre

    def prec(x, e, res):
        rt.goaleq(el(x), f["x1"], "the preconditioner is taken at the iterate")
        return w.put(res, pre(el(e).val()))
    w.p_PreConditioner = prec

    def hess(x, e, res):
        rt.goaleq(el(x), f["x1"], "the Hessian is taken at the iterate")
        rt.ghosts["nH"] = rt.ghosts["nH"] + 1
        return w.put(res, cg.B(el(e)))
    w.p_HessianEta = hess
    g = f["gf1"].val()
    rt.e0 = f["eta1"].val()
    rand = rt.decide(f["useRand"])
    rt.h0 = cg.B(rt.e0) if rand else None
    rt.r0 = g + cg.B(rt.e0) if rand else g
    if not rand:
        f["eta1"].setval(M.zero(w.N, 1), w.N, 1)
        rt.e0 = rt.h0 = M.zero(w.N, 1)
    was = keep(w)
    reach(rt, w.this, "tCG_LS")
    frame(rt, w, was, {"eta1", "tCGLSSMstatus", "innerIter", "nH"})
    rt.goaleq(f["nH"], rt.ghosts["nH"], "nH counts the products with the Hessian")
    st = lambda *n: Or(*[eqc(f["tCGLSSMstatus"], w.E(k)) for k in n])
    rt.goal(st("LSSM_NEGCURVTURE", "LSSM_ERROR", "LSSM_MAXITER", "LSSM_LCON", "LSSM_SCON"), "status is one of the reasons")
    e = f["eta1"].val()
    D, R, E = rt.seq["D"], rt.seq["R"], rt.seq["E"]
    dh = cg.ip(D, cg.B(D))
    j = f["innerIter"]
    if rt.decide(st("LSSM_MAXITER")):
        rt.goal(Or(eqc(j, f["Max_Inner_Iter"]), eqc(j, 0)), "all iterations were used")
        rt.goal(le(f["Max_Inner_Iter"], j), "all iterations were used")
        rt.goal(Imp(lt(0, j), lt(cg.ip(e, g), -rt.eps)), "descent direction")
        rt.goaleq(e, D if rt.decide(eqc(j, 0)) else E, "the direction is the last iterate")
        return
    rt.goaleq(st("LSSM_NEGCURVTURE"), le(dh, 0), "negative curvature is reported exactly when it was met")
    if rt.decide(st("LSSM_NEGCURVTURE")):
        if rt.decide(eqc(j, 0)):
            rt.goaleq(e, D, "the first direction is used when its curvature is not positive")
        else:
            rt.goaleq(e, E, "the last iterate is used when negative curvature is met")
            rt.goal(lt(cg.ip(e, g), -rt.eps), "descent direction")
        return
    a = cg.ip(pre(R), R) / dh
    e1 = E + D.scale(a)
    r1 = R + cg.B(D).scale(a)
    if rt.decide(st("LSSM_ERROR")):
        rt.goaleq(e, D if rt.decide(eqc(j, 0)) else e1, "the first direction, or the last iterate")
        return
    rt.goaleq(e, e1, "the direction is the last iterate")
    rt.goal(lt(cg.ip(e, g), -rt.eps), "descent direction")
    n0 = ssqrt(cg.ip(rt.r0, rt.r0))
    tn = fn("pow", n0, f["theta"], nonneg=True)
    nr = ssqrt(cg.ip(r1, r1))
    rt.goal(le(f["Min_Inner_Iter"], j), "not before the minimum number of inner iterations")
    rt.goal(Imp(st("LSSM_LCON"), And(lt(f["kappa"], tn), le(nr, n0 * f["kappa"]))), "linear convergence criterion")
    rt.goal(Imp(st("LSSM_SCON"), And(le(tn, f["kappa"]), le(nr, n0 * tn))), "superlinear convergence criterion")


@dvob("C15", "RNewton::GetSearchDir starts the inner iteration at zero")
def rngsd(rt):
    w = mkworld(rt, "RNewton")
    hit = []
    w.this.contracts["tCG_LS"] = lambda rt_, o, a: hit.append(w.this.f["eta1"].val())
    was = keep(w)
    reach(rt, w.this, "GetSearchDir")
    frame(rt, w, was, {"eta1"})
    rt.goaleq(S.of(len(hit)), 1, "tCG_LS is called once")
    rt.goaleq(hit[0], M.zero(w.N, 1), "from the zero vector")
