"""C12, C14: line searches and main loops of the nonsmooth solvers (proximal gradient and subgradient methods)."""
from fractions import Fraction
from world import *
from spec_ls import mkworld, counters, frame, keep, h_state, slope, armijo, consistent, accepted, LSMOD
from spec_run import RunWorld, fresh, bump, c_isstopped, UserFn
import spec_run


def ok(w, nm):
    return eqc(w.this.f["LSstatus"], w.E(nm))


# ------------------------------------------------------------------ line searches
@dvob(["C12", "C14"], "SolversNSMPGLS::LinesearchArmijo: accepted steps satisfy the sufficient decrease condition",
      invs={("SolversNSMPGLS", "LinesearchArmijo", 0): Inv(lambda rt: [("status", ok(rt.w, "LSPG_SUCCESS"))], lambda rt: h_state(rt.w, rt))})
def pg_armijo(rt):
    w = mkworld(rt, "SolversNSMPGLS")
    f = w.this.f
    was = keep(w)
    reach(rt, w.this, "LinesearchArmijo")
    consistent(rt, w)
    rt.goaleq(f["newslope"], slope(w) if rt.decide(ok(w, "LSPG_SUCCESS")) else f["newslope"], "newslope is the slope at x2")
    frame(rt, w, was, LSMOD)
    if rt.decide(ok(w, "LSPG_SUCCESS")):
        accepted(rt, w)
        rt.goal(armijo(w), "f2 <= f1 + LS_alpha stepsize initialslope")
    else:
        rt.goal(lt(f["stepsize"], f["Minstepsize"]), "failure is reported only below the smallest step")


@dvob(["C12", "C14"], "SolversNSMSubLS::LinesearchWolfeLipschitz and ZoomLP: accepted steps satisfy the Wolfe conditions",
      invs={("SolversNSMSubLS", "LinesearchWolfeLipschitz", 0): Inv(lambda rt: [("status", ok(rt.w, "LSNSM_SUCCESS"))], lambda rt: counters(rt.w, rt)),
            ("SolversNSMSubLS", "ZoomLP", 0): Inv(lambda rt: [("status", ok(rt.w, "LSNSM_SUCCESS"))],
                                                 lambda rt: counters(rt.w, rt) + [(("f", "f2"), lambda rt: rt.w.F(rt.w.this.f["x2"]))])})
def sub_wolfe(rt):
    w = mkworld(rt, "SolversNSMSubLS")
    f = w.this.f
    rt.fact(lt(f["Minstepsize"], f["Maxstepsize"]))
    was = keep(w)
    reach(rt, w.this, "LinesearchWolfeLipschitz")
    consistent(rt, w)
    frame(rt, w, was, LSMOD)
    if rt.decide(ok(w, "LSNSM_SUCCESS")):
        accepted(rt, w)
        rt.goal(armijo(w), "f2 <= f1 + LS_alpha stepsize initialslope")
        rt.goaleq(f["newslope"], slope(w), "newslope is the slope at x2")
        rt.goal(le(f["LS_beta"] * f["initialslope"], f["newslope"]), "newslope >= LS_beta initialslope")
        rt.goal(And(lt(f["Minstepsize"], f["stepsize"]), lt(f["stepsize"], f["Maxstepsize"])), "success is reported only strictly between the smallest and the largest step")
    elif rt.decide(ok(w, "LSNSM_MAXSTEPSIZE")):
        rt.goal(le(f["Maxstepsize"], f["stepsize"]), "the largest step was reached")
        accepted(rt, w)
    elif rt.decide(ok(w, "LSNSM_MINSTEPSIZE")):
        rt.goal(le(f["stepsize"], f["Minstepsize"]), "the smallest step was reached")
    else:
        rt.goal(ok(w, "LSNSM_NOCURVATURE"), "otherwise no step with the curvature condition was found")
        rt.goal(armijo(w), "which still decreases sufficiently")
        accepted(rt, w)


# ------------------------------------------------------------------ main loops
def nstop(w, f1, f2, nd):
    f = w.this.f
    return eqc(fn("stopn", f1, f2, nd, f["ndir0"], f["iter"]), 1)


class NRun(RunWorld):
    def __init__(self, rt, cls, shift=0):
        super().__init__(rt, cls)
        w = self.w
        self.shift = shift
        rt.ghosts.update(DK=var("DK0"), fcrit=var("fcrit0"))
        rt.ghost_ty.update(DK="double", fcrit="double")

        def isst(rt_, o, a):
            f = o.f
            rt.ghosts["tflag"] = batom(rt.newname("timeout"))
            rt.ghosts["fprev"] = f["f1"]
            rt.ghosts["stops"] = nstop(w, f["f1"], f["f2"], f["ndir1"])
            return Or(rt.ghosts["stops"], rt.ghosts["tflag"])
        w.this.contracts["IsStopped"] = isst
        w.this.contracts["UpdateData"] = lambda rt_, o, a: None
        rt.nans = []

        def nan(rt_, a):
            b = batom(rt_.newname("not a number"))
            rt.nans.append(b)
            return b
        rt.over["isnan"] = rt.over["isinf"] = nan

        def prox(x, g, ada, tol, lam, prob, initD, it, cg, res):
            rt.goaleq(el(g), w.G(x), "the proximal mapping gets the gradient at its point")
            el(res).setval(w.letter_(rt.newname("prox")), w.N, 1)
            rt.dirlen = ssqrt(w.metric(el(x).val(), w.comb_m(el(res).val()), w.comb_m(el(res).val()))), w.metric(el(x).val(), w.comb_m(el(g).val()), w.comb_m(el(res).val())), el(res).val()
            el(initD).setval(w.letter_(rt.newname("initD")), w.N, 1)
            for p in (it, cg):
                p = val(p)
                (p.to if isinstance(p, Ptr) else p.deref()).set(var(rt.newname("inner"), isint=True, nonneg=True))
        w.m_TangentSpaceProximalMap = prox
        w.m_InvRetraction = lambda x, y, res: w.put(res, M.sym(opaque("IR", (el(x).val(), el(y).val()), w.N, 1)))

    def record(self, entry=False):
        rt, f = self.rt, self.w.this.f
        g = rt.ghosts
        new = True if entry else Not(eqc(f["iter"], self.it0))
        c = And(eqc(f["iter"], self.K), new) if not entry else eqc(f["iter"], self.K)
        v = rt.fold(c)
        c = c if v is None else v
        g["FK"] = rt.ite(c, self.fval(), g["FK"])
        d = And(eqc(f["iter"] - self.shift, self.K), new) if not entry else eqc(f["iter"], self.K)
        v = rt.fold(d)
        d = d if v is None else v
        g["DK"] = rt.ite(d, S.of(0) if entry else f["ndir1"], g["DK"])

    def fval(self):
        return self.w.F(self.w.this.f["x1"])

    def seriesok(self):
        f = self.w.this.f
        if not self.rt.decide(self.verbose()):
            return True
        g = self.rt.ghosts
        return And(Imp(le(self.K, f["iter"]), eqc(self.at("funSeries"), g["FK"])), Imp(le(self.K, f["iter"] - self.shift), eqc(self.at("dirSeries"), g["DK"])))

    def state(self):
        w = self.w
        f = w.this.f
        return counters(w, self.rt) + [(("f", "nH"), lambda rt: rt.ghosts["nH"]), (("f", "f1"), lambda rt: w.F(f["x1"])), (("f", "gf1"), lambda rt: w.G(f["x1"]))]

    def final(self):
        rt, w = self.rt, self.w
        f, g = w.this.f, rt.ghosts
        rt.goaleq(f["f1"], w.F(f["x1"]), "the reported value is the cost at the reported point")
        rt.goaleq(f["gf1"], w.G(f["x1"]), "gf1 is the gradient at the reported point")
        for a, b in (("nf", "nF"), ("ng", "nG"), ("nR", "nR"), ("nH", "nH")):
            rt.goaleq(f[a], g[b], "%s counts the evaluations" % a)
        rt.goal(And(le(0, f["iter"]), le(f["iter"], f["Max_Iteration"])), "iteration count within the limit")
        if rt.decide(self.verbose()):
            rt.goaleq(f["lengthSeries"], f["iter"] + 1, "length of the series")
        rt.goal(self.seriesok(), "entry K of the series is the value at iterate K")


def linesearch(w, *names):
    def c(rt, o, a):
        f = o.f
        rt.goaleq(f["gf1"], w.G(f["x1"]), "the line search starts with the gradient at x1")
        rt.goaleq(f["f1"], w.F(f["x1"]), "the line search starts with the value at x1")
        if getattr(rt, "dirlen", None) is not None:
            rt.goaleq(f["ndir1"], rt.dirlen[0], "ndir1 is the length of the direction at x1")
            rt.goaleq(f["initialslope"], rt.dirlen[1], "initialslope is the slope of the smooth part at x1")
            rt.goaleq(f["eta1"], rt.dirlen[2], "the direction is the proximal direction")
        fresh(rt, w, "stepsize", "eta2", "x2", "newslope", "LSstatus", "nV")
        for a_, b in (("nf", "nF"), ("ng", "nG"), ("nR", "nR")):
            bump(rt, w, a_, b, "")
        f["f2"] = w.F(f["x2"])
        f["gf2"].setval(w.G(f["x2"]), w.N, 1)
        s = f["LSstatus"]
        c = Cond("==", s, w.E(names[0]))
        for n in names[1:]:
            c = Or(c, eqc(s, w.E(n)))
        rt.assume(c) if hasattr(rt, "assume") else rt.fact(c)
    return c


def pg_inv(cls):
    def conds(rt):
        rw = rt.rw
        f, g = rt.w.this.f, rt.ghosts
        stop = rt.tocond(rt.L("isstop"))
        c = rw.conds() + [("status", ok(rt.w, "LSPG_SUCCESS"))]
        if cls == "ManPG":
            return c + [("stop", Imp(And(stop, Or(le(f["Min_Iteration"], f["iter"]), False)), Or(nstop(rt.w, g["fprev"], f["f1"], f["ndir1"]), g["tflag"])))]
        return c + [("stop", Imp(stop, Or(g["stops"], g["tflag"])))]

    def defs(rt):
        l = rt.rw.state()
        if cls == "AManPG":
            w = rt.w
            l = l + [(("f", "gfy1"), lambda rt: w.G(w.this.f["y1"]))]
        return l

    def state(rt):
        rt.rw.it0 = rt.w.this.f["iter"]
    return {(cls, "Run", 0): Inv(conds, defs, ghost=lambda rt: rt.rw.record(), entry=lambda rt: rt.rw.record(True), state=state)}


class ARun(NRun):
    def fval(self):
        return self.w.this.f["f2"]


def run_pg(cls):
    @dvob("C14", "%s::Run: final report, counters, series and stop reason" % cls, invs=pg_inv(cls), maxpaths=900)
    def go(rt):
        rw = (NRun if cls == "ManPG" else ARun)(rt, cls)
        w = rw.w
        f = w.this.f
        w.this.contracts["LinesearchArmijo"] = linesearch(w, "LSPG_SUCCESS", "LSPG_MINSTEPSIZE")
        rt.fact(le(1, f.get("SGIterGap", S.of(1))))
        reach(rt, w.this, "Run")
        rw.final()
        g = rt.ghosts
        near = lambda v, k: le(v, S.const(Fraction(101, 100 * 10 ** k)))
        r = [le(f["Max_Iteration"], f["iter"]), And(Not(ok(w, "LSPG_SUCCESS")), And(near(f["SMlambda"], 10), near(f["SMtol"], 24))), g["tflag"]] + rt.nans
        if cls == "ManPG":
            r.append(nstop(w, g["fprev"], f["f1"], f["ndir1"]))
        else:
            r.append(g["stops"])
        rt.goal(Or(*r), "the run stopped for a reason that holds")
    return go


run_pg("ManPG")
run_pg("AManPG")


# ------------------------------------------------------------------ subgradient-based methods
def sub_inv():
    def conds(rt):
        rw = rt.rw
        g = rt.ghosts
        return rw.conds() + [("status", Or(ok(rt.w, "LSNSM_SUCCESS"), ok(rt.w, "LSNSM_MAXSTEPSIZE"), ok(rt.w, "LSNSM_MINSTEPSIZE"), ok(rt.w, "LSNSM_NOCURVATURE"))),
                             ("stop", Imp(rt.tocond(rt.L("isstop")), Or(g["stops"], g["tflag"])))]

    def state(rt):
        rt.rw.it0 = rt.w.this.f["iter"]
    return {("SolversNSMSubLS", "Run", 0): Inv(conds, lambda rt: rt.rw.state(), ghost=lambda rt: rt.rw.record(), entry=lambda rt: rt.rw.record(True), state=state),
            ("SolversNSMSubLS", "Run", 1): Inv(lambda rt: [])}


@dvob("C14", "SolversNSMSubLS::Run: final report, counters, series and stop reason", invs=sub_inv(), maxpaths=900)
def run_sub(rt):
    rw = NRun(rt, "SolversNSMSubLS", 1)
    w = rw.w
    f = w.this.f

    for m in ("NewVectors", "DeleteVectors", "NewVariables", "DeleteVariables"):
        w.this.contracts[m] = lambda rt_, o, a: None

    def dirn(rt_, o, a):
        fresh(rt, w, "stepsize", "eta2", "x2", "nV", "eta1", "minPv", "ndir1", "f2", "gf2", "subprobtimes", "initialslope")
        for a_, b in (("nf", "nF"), ("ng", "nG"), ("nR", "nR")):
            bump(rt, w, a_, b, "")
    w.this.contracts["GetSearchDir"] = dirn
    w.this.contracts["LinesearchWolfeLipschitz"] = linesearch(w, "LSNSM_SUCCESS", "LSNSM_MAXSTEPSIZE", "LSNSM_MINSTEPSIZE", "LSNSM_NOCURVATURE")
    reach(rt, w.this, "Run")
    rw.final()
    g = rt.ghosts
    rt.goal(Or(le(f["Max_Iteration"], f["iter"]), Not(Or(ok(w, "LSNSM_SUCCESS"), ok(w, "LSNSM_MAXSTEPSIZE"))), And(Or(g["stops"], g["tflag"]), le(f["Eps"], f["Min_Eps"]))), "the run stopped for a reason that holds")
