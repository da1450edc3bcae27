"""C12, C14: line searches of SolversSMLS."""
from world import *


def h_state(w, rt):
    """eta2, x2, f2 belong to the current step size"""
    f = w.this.f
    return [(("f", "eta2"), lambda rt: f["eta1"].val().scale(f["stepsize"])),
            (("f", "x2"), lambda rt: M.sym(opaque("Retr", (f["x1"].val(), f["eta2"].val()), w.N, 1))),
            (("f", "f2"), lambda rt: w.F(f["x2"]))] + counters(w, rt)


def counters(w, rt):
    return [(("f", a), lambda rt, b=b: rt.ghosts[b]) for a, b in (("nf", "nF"), ("ng", "nG"), ("nR", "nR"))]


def slope(w):
    """directional derivative of the cost along the curve at x2 (the code's own transported direction)"""
    f = w.this.f
    d = w.linmap("DR", (f["x1"].val(), f["eta2"].val(), f["x2"].val()), f["eta1"])
    return w.metric(f["x2"].val(), w.comb_m(w.G(f["x2"])), w.comb_m(d))


def armijo(w, bound=None):
    f = w.this.f
    return le(f["f2"], (f["f1"] if bound is None else bound) + f["LS_alpha"] * f["stepsize"] * f["initialslope"])


def succ(w):
    return eqc(w.this.f["LSstatus"], w.E("LSSM_SUCCESS"))


def consistent(rt, w, grad=True):
    f = w.this.f
    rt.goaleq(f["f2"], w.F(f["x2"]), "f2 is the cost at x2")
    if grad:
        rt.goaleq(f["gf2"], w.G(f["x2"]), "gf2 is the gradient at x2")
    for a, b in (("nf", "nF"), ("ng", "nG"), ("nR", "nR")):
        rt.goaleq(f[a], rt.ghosts[b], "%s counts the evaluations" % a)


def accepted(rt, w):
    f = w.this.f
    rt.goaleq(f["eta2"], f["eta1"].val().scale(f["stepsize"]), "eta2 is stepsize times eta1 on success")
    rt.goaleq(f["x2"], M.sym(opaque("Retr", (f["x1"].val(), f["eta2"].val()), w.N, 1)), "x2 is the retraction of the accepted step")


LSMOD = {"stepsize", "eta2", "x2", "f2", "gf2", "newslope", "LSstatus", "nf", "ng", "nR", "nV"}


def keep(w):
    return {k: (v.copy() if isinstance(v, Elem) else v) for k, v in w.this.f.items()}


def frame(rt, w, before, allowed):
    """fields outside allowed keep their values"""
    for k, v in before.items():
        if k in allowed:
            continue
        u = w.this.f.get(k)
        if isinstance(v, Elem):
            if v.hasval():
                rt.goaleq(u, v, "%s kept" % k)
        elif isinstance(v, S):
            rt.goaleq(u, v, "%s kept" % k)
        elif isinstance(v, (Cond, bool)):
            rt.goal(rt.sigeq(u, v), "%s kept" % k)
        elif hasattr(v, "snapkey"):
            rt.goal(rt.sigeq(u.snapkey(), v.snapkey()), "%s kept" % k)
        else:
            rt.goal(rt.sigeq(rt.sigv(u), rt.sigv(v)), "%s kept" % k)


def mkworld(rt, cls="SolversSMLS"):
    w = World(rt, cls)
    rt.w = w
    rt.biglimit = 8
    w.comb_m = lambda m: [(k[0], s) for k, s in normal(m).t.items()]
    return w


def prelen(w):
    """length of the list of previous values (kept by Run)"""
    n = w.this.f["pre_funs"].n
    return Or(le(n, 1), le(n, w.this.f["Num_pre_funs"]))


# ---- Armijo
def armijo_invs():
    def i0(rt):
        w = rt.w
        j, jend = rt.L("j"), rt.L("jend")
        c = [("i", le(0, rt.L("i"))), ("maxpref", le(rt.L("maxpref"), rt.Mb))]
        if j.lst is not None:
            c += [("j", eqc(j.pos, rt.L("i"))), ("jend", le(j.pos, jend.pos))]
        return c

    def s(rt):
        return h_state(rt.w, rt)

    def c1(rt):
        return [("status", succ(rt.w))]
    return {("SolversSMLS", "LinesearchArmijo", 0): Inv(i0),
            ("SolversSMLS", "LinesearchArmijo", 1): Inv(c1, s),
            ("SolversSMLS", "LinesearchArmijo", 2): Inv(c1, s)}


@dvob(["C12", "C14"], "SolversSMLS::LinesearchArmijo: accepted steps satisfy the sufficient decrease condition", invs=armijo_invs())
def ls_armijo(rt):
    w = mkworld(rt)
    f = w.this.f
    rt.Mb = var("Mb")

    def onread(rt_, l, pos, v):
        rt_.fact(Imp(lt(pos, f["Num_pre_funs"] - 1), le(v, rt_.Mb)))
    f["pre_funs"].onread = onread
    rt.fact(le(f["f1"], rt.Mb))
    rt.fact(prelen(w))
    was = keep(w)
    reach(rt, w.this, "LinesearchArmijo")
    consistent(rt, w)
    frame(rt, w, was, LSMOD)
    if rt.decide(succ(w)):
        accepted(rt, w)
        rt.goal(armijo(w, rt.Mb), "f2 <= max(f1, previous values) + LS_alpha stepsize initialslope")


# ---- Wolfe
def slope_state(w, rt):
    """where the sufficient decrease holds, the slope and the gradient are those at x2"""
    if rt.decide(armijo(w)):
        return [(("f", "gf2"), lambda rt: w.G(w.this.f["x2"])), (("f", "newslope"), lambda rt: slope(w))]
    return []


def wolfe_invs():
    def c(rt):
        return [("status", succ(rt.w))]
    key = "LinesearchWolfe"

    def c2(rt):
        f = rt.w.this.f
        return c(rt) + [("slope or decrease", Or(armijo(rt.w), lt(f["newslope"], f["LS_beta"] * f["initialslope"])))]

    def defs(rt):
        return h_state(rt.w, rt)

    def defs2(rt):
        return slope_state(rt.w, rt)
    return {("SolversSMLS", key, 0): Inv(c, lambda rt: counters(rt.w, rt)),
            ("SolversSMLS", key, 1): Inv(c2, [defs, defs2]),
            ("SolversSMLS", key, 2): Inv(c2, [defs, defs2])}


@dvob(["C12", "C14"], "SolversSMLS::LinesearchWolfe: accepted steps satisfy the Wolfe conditions", invs=wolfe_invs(), maxpaths=600)
def ls_wolfe(rt):
    w = mkworld(rt)
    f = w.this.f
    was = keep(w)
    reach(rt, w.this, "LinesearchWolfe")
    consistent(rt, w)
    frame(rt, w, was, LSMOD)
    if rt.decide(succ(w)):
        accepted(rt, w)
        rt.goal(armijo(w), "f2 <= f1 + LS_alpha stepsize initialslope")
        rt.goaleq(f["newslope"], slope(w), "newslope is the slope at x2")
        rt.goal(le(f["LS_beta"] * f["initialslope"], f["newslope"]), "newslope >= LS_beta initialslope")


# ---- strong Wolfe
def strong_invs():
    def c(rt):
        return [("status", succ(rt.w))]

    def d(rt):
        return counters(rt.w, rt)

    def dz(rt):
        return counters(rt.w, rt) + [(("f", "f2"), lambda rt: rt.w.F(rt.w.this.f["x2"]))]
    return {("SolversSMLS", "LinesearchStrongWolfe", 0): Inv(c, d), ("SolversSMLS", "Zoom", 0): Inv(c, dz)}


@dvob(["C12", "C14"], "SolversSMLS::LinesearchStrongWolfe and Zoom: accepted steps satisfy the strong Wolfe conditions", invs=strong_invs())
def ls_strong(rt):
    w = mkworld(rt)
    f = w.this.f
    was = keep(w)
    reach(rt, w.this, "LinesearchStrongWolfe")
    consistent(rt, w)
    frame(rt, w, was, LSMOD)
    if rt.decide(succ(w)):
        accepted(rt, w)
        rt.goal(armijo(w), "f2 <= f1 + LS_alpha stepsize initialslope")
        rt.goaleq(f["newslope"], slope(w), "newslope is the slope at x2")
        b = -(f["LS_beta"] * f["initialslope"])
        rt.goal(And(le(f["newslope"], b), le(-f["newslope"], b)), "|newslope| <= -LS_beta initialslope")


# ---- exact
def exact_invs():
    def consist(rt):
        w = rt.w
        l = [(("f", "eta2"), lambda rt: w.this.f["eta1"].val().scale(w.this.f["stepsize"])),
             (("f", "x2"), lambda rt: M.sym(opaque("Retr", (w.this.f["x1"].val(), w.this.f["eta2"].val()), w.N, 1))),
             (("l", "sf2"), lambda rt: w.F(w.this.f["x2"]))]
        return l

    def d0(rt):
        l = counters(rt.w, rt)
        if not rt.decide(eqc(rt.L("times"), 0)):
            l = l + consist(rt) + [(("f", "gf2"), lambda rt: rt.w.G(rt.w.this.f["x2"])), (("l", "sgf2"), lambda rt: slope(rt.w))]
        return l

    def d1(rt):
        return counters(rt.w, rt) + consist(rt)

    def c0(rt):
        return [("times", le(0, rt.L("times"))), ("status", succ(rt.w))]

    def c1(rt):
        return [("times", le(0, rt.L("times"))), ("status", succ(rt.w))]
    return {("SolversSMLS", "LinesearchExact", 0): Inv(c0, d0), ("SolversSMLS", "LinesearchExact", 1): Inv(c1, d1)}


@dvob(["C12", "C14"], "SolversSMLS::LinesearchExact: the reported step, value, slope and gradient belong together", invs=exact_invs())
def ls_exact(rt):
    w = mkworld(rt)
    f = w.this.f
    was = keep(w)
    reach(rt, w.this, "LinesearchExact")
    consistent(rt, w)
    frame(rt, w, was, LSMOD)
    accepted(rt, w)
    rt.goaleq(f["newslope"], slope(w), "newslope is the slope at x2")
