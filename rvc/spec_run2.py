"""C12, C14: members of SolversSMLS the contracts of Run rest on, and the parts of Run in front of the loop."""
from world import *
from sx import Unsupported
from spec_ls import mkworld, keep, frame


BBINV = {("SolversSMLS", "InitialStepSize", k): Inv(lambda rt: [("i", le(0, rt.L("i"))), ("j", eqc(rt.L("j").pos, rt.L("i"))), ("list", le(rt.L("j").pos, rt.w.this.f["pre_BBs"].n))])
         for k in range(2)}


@dvob("C14", "SolversSMLS::InitialStepSize: only the step size and the list of Barzilai-Borwein steps change", invs=BBINV, maxpaths=900)
def initstep(rt):
    w = mkworld(rt)
    f = w.this.f
    rt.wholecond = True
    w.m_Metric = lambda x, u, v: var(rt.newname("ip"))      # any number: the values of the products do not matter here
    rt.fact(le(0, f["iter"]))
    rt.fact(Or(eqc(f["iter"], 0), lt(0, f["pre_funs"].n)))
    was = keep(w)
    reach(rt, w.this, "InitialStepSize")
    frame(rt, w, was, {"stepsize", "pre_BBs"})
    for a, b in (("nf", "nF"), ("ng", "nG"), ("nR", "nR")):
        rt.goaleq(f[a], rt.ghosts[b], "%s counts the evaluations" % a)
    st = f["stepsize"]
    if rt.decide(eqc(f["iter"], 0)):
        rt.goaleq(st, f["Initstepsize"], "the first step is the one configured")
        return
    q = (f["f1"] - fn(was["pre_funs"].base, S.of(0))) * 2 / f["initialslopepre"]
    for k, v in (("LSSM_ONESTEP", S.of(1)), ("LSSM_QUADINT", q)):
        if rt.decide(eqc(f["InitSteptype"], w.E(k))):
            eps = var("eps", pos=True)
            v1 = rt.ite(lt(v, q / 100), q, v)
            rt.goaleq(st, rt.ite(lt(v1, eps), f["Initstepsize"] / f["ngf1"], v1), "value of " + k)


@dvob("C12", "SolversSMLS::ChooseLinesearch: the line search configured is the one used")
def choose(rt):
    w = mkworld(rt)
    f = w.this.f
    was = keep(w)
    reach(rt, w.this, "ChooseLinesearch")
    frame(rt, w, was, {"Linesearch"})
    used = lambda: getattr(getattr(f["Linesearch"], "to", None), "name", None)
    for k, m in (("LSSM_ARMIJO", "LinesearchArmijo"), ("LSSM_WOLFE", "LinesearchWolfe"), ("LSSM_STRONGWOLFE", "LinesearchStrongWolfe"), ("LSSM_EXACT", "LinesearchExact")):
        if rt.decide(eqc(f["LineSearch_LS"], w.E(k))):
            need(rt, used() == m, "%s selects %s (found %s)" % (k, m, used()))
            return
    if not rt.decide(eqc(f["LineSearch_LS"], w.E("LSSM_INPUTFUN"))):
        need(rt, used() == "LinesearchArmijo", "an unknown choice falls back to LinesearchArmijo")


@dvob("C15", "LRBFGS::GetSearchDir: minus the limited-memory operator applied to the gradient")
def lbdir(rt):
    w = mkworld(rt, "LRBFGS")
    f = w.this.f
    t = w.this

    def hv(rt_, o, a):
        rt.goaleq(el(a[0]), f["gf1"], "the operator is applied to the gradient")
        return w.put(val(a[1]), w.linmap("H", (), el(a[0])))
    t.contracts["HvLRBFGS"] = hv
    was = keep(w)
    reach(rt, t, "GetSearchDir")
    frame(rt, w, was, {"eta1"})
    rt.goaleq(f["eta1"], w.linmap("H", (), f["gf1"]).scale(S.of(-1)), "eta1 = -H grad")


# ------------------------------------------------------------------ start of a solver
class Names:
    """array of option names (text only)"""

    def index(self, i):
        return Opaque("name")


def names(rt, ty, cnt):
    if "string" in ty:
        return Names()
    raise Unsupported("new %s[]" % ty)


USEH = {"RSD": 0, "RCG": 0, "RNewton": 1, "RTRSD": 0, "RTRNewton": 1, "LRBFGS": 0, "LRTRSR1": 0, "RBFGS": 0, "RWRBFGS": 0, "RBroydenFamily": 0, "RTRSR1": 0}
OPER = {"RBFGS": "H", "RWRBFGS": "H", "RBroydenFamily": "H", "RTRSR1": "B"}


def startob(cls):
    @dvob("C14", "%s::SetProbX: the first iterate is the one given" % cls)
    def go(rt):
        w = mkworld(rt, cls)
        f = w.this.f
        seen = {}
        for m in ("SetUseGrad", "SetUseHess"):
            w.prob.contracts[m] = lambda rt_, o, a, m=m: seen.__setitem__(m, rt.tocond(val(a[0])))
        x = w.vec("xinit")
        xv = x.val()
        was = keep(w)
        extra = []
        if cls in OPER:
            given = rt.decide(batom("operator given"))
            H0 = w.vec("initialH")
            extra = [Ptr(H0) if given else None]

            class API(type(rt.elemapi)):
                def m_ScaledIdOPE(self, rt_, e, s=None):
                    s = S.of(1) if s is None else num_(s)
                    e.setval(w.letter_("identity").scale(s), w.N, 1)
                    return e
            rt.elemapi = API()
        reach(rt, w.this, "SetProbX", Ptr(w.prob), Ptr(x), *extra)
        frame(rt, w, was, {"Mani", "Prob", "x1", "x2", "gf1", "gf2", "eta1", "eta2", "Pgf1", "Pgf2", "s", "y", "Py", "Heta2", "u"} | set(OPER.get(cls, "")))
        if cls in OPER:
            h = f[OPER[cls]].val()
            if given:
                rt.goaleq(h, H0, "the operator is the one given")
            else:
                need(rt, repr(h) == "identity", "the operator starts as the identity")
        rt.goaleq(f["x1"], x, "x1 is the point given")
        rt.goaleq(x, xv, "the point given is kept")
        need(rt, f["Prob"].to is w.prob, "the problem is the one given")
        need(rt, f["Mani"].to is w.mani, "the manifold is the problem's domain")
        rt.goal(seen["SetUseGrad"], "the problem is told that gradients are used")
        rt.goaleq(seen["SetUseHess"], Cond("==", S.of(USEH[cls]), S.of(1)), "the problem is told whether Hessians are used")

    @dvob("C14", "%s::SetDefaultParams: the counters start at zero" % cls)
    def go2(rt):
        w = mkworld(rt, cls)
        f = w.this.f
        rt.hooks["newarray"] = names
        reach(rt, w.this, "SetDefaultParams")
        for k in ("nf", "ng", "nR", "nH", "nV", "nVp"):
            rt.goaleq(f[k], 0, "%s starts at zero" % k)


for c in USEH:
    startob(c)
