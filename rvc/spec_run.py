"""C14: the main loops. Virtual members enter by contract; the contracts are the ones proved for the members themselves."""
from world import *
from spec_ls import mkworld, counters, frame, keep, prelen, LSMOD
import spec_ls


def bump(rt, w, f, g, nm):
    k = var(rt.newname("d" + f), isint=True, nonneg=True)
    w.this.f[f] = w.this.f[f] + k
    rt.ghosts[g] = rt.ghosts[g] + k


def fresh(rt, w, *names):
    for k in names:
        v = w.this.f[k]
        if isinstance(v, Elem):
            v.setval(w.letter_(rt.newname(k)), w.N, 1)
        elif isinstance(v, PList):
            w.this.f[k] = v.havoc(rt, k)
        elif isinstance(v, (Cond, bool)):
            w.this.f[k] = batom(rt.newname(k))
        else:
            a = C().atoms[next(iter(v.atoms()))] if isinstance(v, S) and v.atoms() else None
            ty = rt.fieldtype(w.this, k)
            w.this.f[k] = rt.freshlike(ty, v, k)


def stopcrit(w, f1, f2, ng2):
    f = w.this.f
    return eqc(fn("stop", f1, f2, ng2, f["ngf0"], f["iter"]), 1)


def c_isstopped(w):
    def c(rt, o, a):
        f = o.f
        rt.ghosts["tflag"] = batom(rt.newname("timeout"))
        rt.ghosts["fprev"] = f["f1"]
        rt.ghosts["stops"] = stopcrit(w, f["f1"], f["f2"], f["ngf2"])
        return Or(rt.ghosts["stops"], rt.ghosts["tflag"])
    return c


def ngrad(w, x):
    g = w.comb_m(w.G(x))
    return ssqrt(w.metric(x.val(), g, g))


def series(rt, w, arr, what, now):
    """recorded entry K (arbitrary) is the value at iterate K"""
    f = w.this.f
    return None


class RunWorld:
    def __init__(self, rt, cls):
        self.rt = rt
        w = self.w = mkworld(rt, cls)
        rt.rw = self
        rt.rawbuf = True
        rt.checkbounds = True
        f = w.this.f
        self.K = var("K", isint=True, nonneg=True)
        rt.ghosts.update(FK=var("FK0"), GK=var("GK0"), fprev=var("fprev0"))
        rt.ghosts["tflag"] = batom("timeout0")
        rt.ghosts["stops"] = batom("stops0")
        rt.ghost_ty.update(FK="double", GK="double", fprev="double", tflag="bool", stops="bool")
        for m in ("PrintInfo", "PrintFinalInfo", "CheckParams"):
            w.this.contracts[m] = lambda rt_, o, a: None
        w.this.contracts["IsStopped"] = c_isstopped(w)
        rt.fact(le(0, f["Min_Iteration"]))
        rt.fact(le(f["Min_Iteration"], f["Max_Iteration"]))
        rt.fact(le(1, f["OutputGap"]))

    def record(self):
        rt, w = self.rt, self.w
        f = w.this.f
        c = eqc(f["iter"], self.K)
        v = rt.fold(c)
        c = c if v is None else v
        rt.ghosts["FK"] = rt.ite(c, w.F(f["x1"]), rt.ghosts["FK"])
        rt.ghosts["GK"] = rt.ite(c, ngrad(w, f["x1"]), rt.ghosts["GK"])

    def verbose(self):
        return le(self.w.E("ITERRESULT"), self.w.this.f["Verbose"])

    def at(self, nm):
        b = self.w.this.f[nm].arr.extra
        return b.a.read(self.rt, self.K)

    def seriesok(self):
        f = self.w.this.f
        if not self.rt.decide(self.verbose()):
            return True
        g = self.rt.ghosts
        return Imp(le(self.K, f["iter"]), And(eqc(self.at("funSeries"), g["FK"]), eqc(self.at("gradSeries"), g["GK"])))

    def state(self):
        w = self.w
        f = w.this.f
        return counters(w, self.rt) + [
            (("f", "nH"), lambda rt: rt.ghosts["nH"]),
            (("f", "f1"), lambda rt: w.F(f["x1"])),
            (("f", "gf1"), lambda rt: w.G(f["x1"])),
            (("f", "ngf1"), lambda rt: ngrad(w, f["x1"]))]

    def conds(self):
        rt, f = self.rt, self.w.this.f
        g = rt.ghosts
        return [("iter", And(le(0, f["iter"]), le(f["iter"], f["Max_Iteration"]))),
                ("series", self.seriesok())]

    def final(self, extra=False):
        rt, w = self.rt, self.w
        f, g = w.this.f, rt.ghosts
        rt.goaleq(f["f1"], w.F(f["x1"]), "the reported value is the cost at the reported point")
        rt.goaleq(f["gf1"], w.G(f["x1"]), "gf1 is the gradient at the reported point")
        rt.goaleq(f["ngf1"], ngrad(w, f["x1"]), "the reported gradient norm is that of the reported point")
        for a, b in (("nf", "nF"), ("ng", "nG"), ("nR", "nR"), ("nH", "nH")):
            rt.goaleq(f[a], g[b], "%s counts the evaluations" % a)
        rt.goal(And(le(0, f["iter"]), le(f["iter"], f["Max_Iteration"])), "iteration count within the limit")
        if rt.decide(self.verbose()):
            rt.goaleq(f["lengthSeries"], f["iter"] + 1, "length of the series")
        rt.goal(self.seriesok(), "entry K of the series is the value at iterate K")


def c_linesearch(rt, o, a):
    w = rt.w
    rt.goal(prelen(w), "list of previous values has at most Num_pre_funs entries")
    f = o.f
    fresh(rt, w, "stepsize", "eta2", "x2", "newslope", "LSstatus", "nV")
    bump(rt, w, "nf", "nF", "")
    bump(rt, w, "ng", "nG", "")
    bump(rt, w, "nR", "nR", "")
    f["f2"] = w.F(f["x2"])
    f["gf2"].setval(w.G(f["x2"]), w.N, 1)


class UserFn(Opaque):
    """function supplied by the user: any real"""

    def __call__(self, rt, a):
        return var(rt.newname("user"))


def smls_contracts(rt, rw):
    w = rw.w
    t = w.this

    def searchdir(rt_, o, a):
        fresh(rt, w, "eta1", "nV", "nVp", "Pgf1")
        bump(rt, w, "nH", "nH", "")
    t.contracts["GetSearchDir"] = searchdir
    t.contracts["InitialStepSize"] = lambda rt_, o, a: fresh(rt, w, "stepsize", "pre_BBs")
    t.contracts["UpdateData"] = lambda rt_, o, a: fresh(rt, w, "nV", "nVp", "eta1", "Pgf2")
    t.contracts["ChooseLinesearch"] = lambda rt_, o, a: None
    for m in ("Linesearch", "LinesearchArmijo", "SolversSMLS::LinesearchArmijo", "LinesearchWolfe", "LinesearchStrongWolfe", "LinesearchExact"):
        t.contracts[m] = c_linesearch
    t.f["LinesearchInput"] = UserFn("LinesearchInput")


def smls_inv():
    def conds(rt):
        rw = rt.rw
        f, g = rt.w.this.f, rt.ghosts
        c = rw.conds()
        return c + [("previous values", prelen(rt.w)),
                    ("stop", Imp(rt.tocond(rt.L("isstop")), Or(stopcrit(rt.w, g["fprev"], f["f1"], f["ngf1"]), g["tflag"])))]

    def ghost(rt):
        rt.rw.record()
    return {("SolversSMLS", "Run", 0): Inv(conds, lambda rt: rt.rw.state(), ghost=ghost, entry=lambda rt: rt.rw.record())}


@dvob("C14", "SolversSMLS::Run: final report, counters, series and stop reason of the line-search methods", invs=smls_inv(), maxpaths=900)
def run_smls(rt):
    rw = RunWorld(rt, "SolversSMLS")
    smls_contracts(rt, rw)
    f = rw.w.this.f
    reach(rt, rw.w.this, "Run")
    rw.final()
    g = rt.ghosts
    rt.goal(Or(le(f["Max_Iteration"], f["iter"]), Not(eqc(f["LSstatus"], rw.w.E("LSSM_SUCCESS"))),
               stopcrit(rw.w, g["fprev"], f["f1"], f["ngf1"]), g["tflag"]), "the run stopped for a reason that holds")


# ------------------------------------------------------------------ stopping tests
def rel(w):
    f = w.this.f
    ab = lambda x: w.fabs(w.rt, [x])
    return ab((f["f1"] - f["f2"]) / (ab(f["f1"]) + 1))


def crit_sm(w):
    f = w.this.f
    return {"SM_FUN_REL": lambda: And(lt(rel(w), f["Tolerance"]), lt(0, f["iter"])),
            "SM_GRAD_F": lambda: lt(f["ngf2"], f["Tolerance"]),
            "SM_GRAD_F_0": lambda: lt(f["ngf2"] / f["ngf0"], f["Tolerance"])}


def crit_nsm(w):
    f = w.this.f
    return {"NSM_FUN_REL": lambda: And(lt(rel(w), f["Tolerance"]), lt(0, f["iter"])),
            "NSM_DIR_F": lambda: lt(f["ndir1"], f["Tolerance"]),
            "NSM_DIR_F_0": lambda: lt(f["ndir1"] / f["ndir0"], f["Tolerance"])}


CLK = 1000000        # Others/Timer.h: ticks per second


def isstopped_ob(cls, crits):
    @dvob("C14", "%s::IsStopped: the criterion selected, applied to the current values" % cls)
    def go(rt):
        w = mkworld(rt, cls)
        f = w.this.f
        f["StopPtr"] = None
        was = keep(w)
        now = var("now", isint=True)
        rt.over["getTickCount"] = lambda rt_, a: now
        r = rt.tocond(reach(rt, w.this, "IsStopped"))
        frame(rt, w, was, {"StopPtr"})
        late = lt(f["TimeBound"], (now - f["starttime"]) / CLK)
        for k, c in crits(w).items():
            if rt.decide(eqc(f["Stop_Criterion"], w.E(k))):
                c = c()
                rt.goal(And(Imp(r, Or(late, c)), Imp(Or(late, c), r)), "stops exactly when the time is over or %s says so" % k)
                return
        raise Infeasible()


isstopped_ob("SolversSM", crit_sm)
isstopped_ob("SolversNSM", crit_nsm)


# ------------------------------------------------------------------ trust region: the outer loop
def ngmap(w, v):
    """model Hessian at the current iterate (linear)"""
    return w.linmap("B", (w.this.f["x1"].val(),), v)


def tr_contracts(rt, rw, sr1):
    w = rw.w
    t = w.this
    f = t.f
    rt.step = None

    def initial(rt_, o, a):
        rt.step = {"D": f["Delta"], "x": f["x1"].val(), "f": f["f1"], "g": f["gf1"].val(), "ng": f["ngf1"], "it": f["iter"]}
        fresh(rt, w, "eta1")

    def tcg(rt_, o, a):
        rt.goaleq(f["gf1"], w.G(f["x1"]), "the model is built on the gradient at the iterate")
        fresh(rt, w, "eta2", "tCGstatusSM", "innerIter")
        bump(rt, w, "nH", "nH", "")
        e = w.comb(f["eta2"])
        b = w.comb_m(ngmap(w, f["eta2"]))
        x = f["x1"].val()
        rt.step["pred"] = -(w.metric(x, w.comb(f["gf1"]), e) + S.const("1/2") * w.metric(x, e, b))
        rt.step["x2"] = M.sym(opaque("Retr", (x, f["eta2"].val()), w.N, 1))

    def hess(rt_, o, a):
        rt.ghosts["nH"] = rt.ghosts["nH"] + 1
        return w.put(val(a[1]), ngmap(w, el(a[0])))

    def grad2():
        f["gf2"].setval(w.G(f["x2"]), w.N, 1)
        rt.goaleq(f["f2"], w.F(f["x2"]), "f2 belongs to the candidate")
        f["ng"] = f["ng"] + 1
        rt.ghosts["nG"] = rt.ghosts["nG"] + 1

    def update(rt_, o, a):
        fresh(rt, w, "nV", "nVp", "eta1")
        grad2()

    t.contracts["InitialVector"] = initial
    t.contracts["tCG_TR"] = tcg
    t.contracts["HessianEta"] = hess
    if sr1:
        t.contracts["UpdateData"] = update
        t.contracts["Acceptence"] = lambda rt_, o, a: fresh(rt, w, "nV", "nVp", "eta1")


def status_in(w, *names):
    return Or(*[eqc(w.this.f["tCGstatusSM"], w.E(n)) for n in names])


def tr_step(rt, stopped=False):
    """what one iteration did, from the state it started in"""
    w = rt.w
    f = w.this.f
    st = rt.step
    if st is None:
        return
    rt.step = None
    f2 = w.F(st["x2"])
    rho = f["rho"]
    rt.goal(Imp(Not(eqc(st["pred"], 0)), eqc(rho * st["pred"], st["f"] - f2)), "rho is actual over predicted reduction")
    D0, D1 = st["D"], f["Delta"]
    high, low = lt(S.const("3/4"), rho), lt(rho, S.const("1/4"))
    acc = lt(st["ng"] / (f["ngf0"] + f["Tolerance"]), f["Accuracy"])
    edge = status_in(w, "TRSM_EXCREGION", "TRSM_NEGCURVTURE", "TRSM_MAXITER")
    big = f["Magnified_tau"] * D0
    rt.goal(Imp(And(high, edge, le(big, f["maximum_Delta"])), eqc(D1, big)), "radius enlarged after a good step to the boundary")
    rt.goal(Imp(And(high, edge, lt(f["maximum_Delta"], big)), eqc(D1, f["maximum_Delta"])), "enlarged radius capped at the maximum")
    rt.goal(Imp(And(high, Not(edge)), eqc(D1, D0)), "radius kept after a good step inside the region")
    rt.goal(Imp(And(low, Not(acc)), eqc(D1, f["Shrinked_tau"] * D0)), "radius reduced after a poor step")
    rt.goal(Imp(And(Not(high), Or(Not(low), acc)), eqc(D1, D0)), "radius kept otherwise")
    rt.goal(le(D1, f["maximum_Delta"]), "radius at most the maximum")
    if stopped:
        rt.goal(And(low, Not(acc), lt(D1, f["minimum_Delta"])), "the loop is left early only below the minimum radius")
        return
    ab = lambda x: w.fabs(rt, [x])
    inside = status_in(w, "TRSM_MIN", "TRSM_LCON", "TRSM_SCON")
    dec = lt(f2, st["f"])
    take = Or(lt(f["Acceptence_Rho"], rho),
              And(lt(ab(st["f"] - f2) / (ab(st["f"]) + 1), rt.sqeps), dec),
              And(acc, Or(dec, inside)))
    if rt.decide(take):
        rt.goaleq(f["x1"], st["x2"], "accepted: the candidate becomes the iterate")
        rt.goaleq(f["f1"], f2, "accepted: its cost")
    else:
        rt.goaleq(f["x1"], st["x"], "rejected: the iterate is kept")
        rt.goaleq(f["f1"], st["f"], "rejected: its cost is kept")
    rt.goaleq(f["iter"], st["it"] + 1, "one iteration")


def tr_inv(judge):
    def conds(rt):
        f, g = rt.w.this.f, rt.ghosts
        c = rt.rw.conds() + [("stop", Imp(rt.tocond(rt.L("isstop")), Or(trstop(rt), g["tflag"])))]
        return c + [("radius", And(lt(0, f["Delta"]), le(f["Delta"], f["maximum_Delta"])))] if judge else c

    def ghost(rt):
        if judge:
            tr_step(rt)
        rt.rw.record()

    def defs(rt):
        if judge:
            s = rt.rw.state()
            return [d for d in s if d[0][1] in ("f1", "gf1", "ngf1")]
        return rt.rw.state()
    return {("SolversSMTR", "Run", 0): Inv(conds, defs, ghost=ghost, entry=lambda rt: rt.rw.record())}


def trstop(rt):
    g, w = rt.ghosts, rt.w
    f = w.this.f
    return eqc(fn("stop", g["fprev"], f["f1"], f["ngf1"], f["ngf0"], g["itS"]), 1)


def run_tr(sr1, judge):
    def go(rt):
        rw = RunWorld(rt, "SolversSMTR")
        w = rw.w
        f, g = w.this.f, rt.ghosts
        g["itS"] = var("itS0", isint=True)
        rt.ghost_ty["itS"] = "integer"

        def isst(rt_, o, a):
            g["tflag"] = batom(rt.newname("timeout"))
            g["fprev"] = f["f1"]
            g["itS"] = f["iter"]
            return Or(stopcrit(w, f["f1"], f["f2"], f["ngf2"]), g["tflag"])
        w.this.contracts["IsStopped"] = isst
        tr_contracts(rt, rw, sr1)
        rt.sqeps = ssqrt(fn("epsilon", pos=True))
        rt.over["epsilon"] = lambda rt_, a: fn("epsilon", pos=True)
        if judge:
            rt.fact(And(lt(0, f["Shrinked_tau"]), lt(f["Shrinked_tau"], 1), lt(1, f["Magnified_tau"])))
            rt.fact(And(lt(0, f["initial_Delta"]), le(f["initial_Delta"], f["maximum_Delta"])))
        reach(rt, w.this, "Run")
        if judge:
            tr_step(rt, stopped=True)
            return
        rw.final()
        rt.goal(Or(le(f["Max_Iteration"], f["iter"]), trstop(rt), g["tflag"],
                   And(lt(f["Delta"], f["minimum_Delta"]), lt(f["rho"], S.const("1/4")))), "the run stopped for a reason that holds")
    return go


for sr1 in (False, True):
    nm = "model updated before acceptance (RTRSR1, LRTRSR1)" if sr1 else "exact model (RTRNewton, RTRSD)"
    dvob("C14", "SolversSMTR::Run: final report, counters, series and stop reason; " + nm, invs=tr_inv(False), maxpaths=900)(run_tr(sr1, False))
    dvob("C13", "SolversSMTR::Run: radius and acceptance follow the ratio; " + nm, invs=tr_inv(True), maxpaths=900)(run_tr(sr1, True))
