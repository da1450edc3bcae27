"""C13: the trust-region subproblem of LRTRSR1 (solved through an eigendecomposition, not by truncated CG)."""
from fractions import Fraction
from dv import *
from world import *
from spec_ls import keep, frame
import dv
from alg import ONE

EPS10 = S.const(Fraction(1, 10 ** 10))


# ------------------------------------------------------------------ PhiBar(s) = 1 / |a ./ (Lambda + s)| - 1 / Delta
def A(i):
    return fn("a", i)


def T(i):
    return fn("Lam", i) + var("shift")


def big(v):
    return Or(lt(EPS10, v), lt(v, -EPS10))


def small(v):
    return And(lt(-EPS10, v), lt(v, EPS10))


def inv1(x):
    return S.of(1) / x


def term(i, p):
    z = A(i) * A(i)
    for _ in range(p):
        z = z / T(i)
    return z


def facts(rt, i):
    """prefix sums: over all entries (U*) and over the entries with both numbers away from zero (F*)"""
    c = And(big(A(i)), big(T(i)))
    for nm, p in ((("2", 2), ("3", 3)) if rt.g["grad"] else (("2", 2),)):
        rt.fact(eqc(fn("U" + nm, i + 1), fn("U" + nm, i) + term(i, p)))
        rt.fact(Imp(c, eqc(fn("F" + nm, i + 1), fn("F" + nm, i) + term(i, p))))
        rt.fact(Imp(Not(c), eqc(fn("F" + nm, i + 1), fn("F" + nm, i))))
        for q in "UF":
            rt.fact(eqc(fn(q + nm, S.of(0)), 0))


def inst(rt, i):
    g = rt.g
    for x in (A(i), T(i)):
        pass
    rt.fact(Imp(eqc(i, g["K"]), And(eqc(A(i), A(g["K"])), eqc(fn("Lam", i), fn("Lam", g["K"])))))


def phi_invs(grad):
    f_ = ("LRTRSR1", "PhiBar_fg")
    rng = lambda rt: ("i", And(le(0, rt.L("i")), le(rt.L("i"), rt.g["k"] + 1)))

    def st(ph, last=0):
        def s(rt):
            i = rt.L("i")
            rt.g["phase"], rt.g["i"] = ph, i
            if grad and ph == 2 and last == 2:
                rt.g["i2"] = i
            facts(rt, i)
            inst(rt, i)
            for q in (("U2", "U3", "F2", "F3") if grad else ("U2", "F2")):
                rt.fact(Imp(eqc(i, rt.g["k"] + 1), eqc(fn(q, i), fn(q, rt.g["k"] + 1))))
        return s
    K = lambda rt: rt.g["K"]
    l0 = Inv(lambda rt: [rng(rt), ("flag", Not(rt.tocond(rt.L("flag")))), ("none small before", Imp(lt(K(rt), rt.L("i")), And(Not(small(A(K(rt)))), Not(small(T(K(rt)))))))], state=st(0))
    l1 = Inv(lambda rt: [rng(rt), ("no pole", Imp(lt(K(rt), rt.L("i")), Not(And(big(A(K(rt))), small(T(K(rt)))))))]
             , lambda rt: [(("l", "pnorm2"), lambda rt: fn("F2", rt.L("i")))] + ([(("l", "gradf"), lambda rt: fn("F3", rt.L("i")))] if grad else []), state=st(1))

    def l2c(rt):
        return [rng(rt)]

    def l3c(rt):
        b = rt.L("tmpptr").buf.a.read(rt, K(rt))
        return [rng(rt), ("divided", eqc(b, rt.ite(lt(K(rt), rt.L("i")), A(K(rt)) / T(K(rt)), T(K(rt)))))]
    r = {f_ + (0,): l0, f_ + (1,): l1}
    if grad:
        r[f_ + (2,)] = Inv(l2c, lambda rt: [(("l", "gradf"), lambda rt: fn("U3", rt.L("i")))], state=st(2, 2))
        r[f_ + (3,)] = Inv(l3c, state=st(2))
    else:
        r[f_ + (2,)] = Inv(l3c, state=st(2))
    return r


class PhiAPI(dv.DElemAPI):
    def operator(self, rt, op, args):
        if op == "+" and isinstance(args[0] if isinstance(args[0], Elem) else el(args[0]), Elem) and not isinstance(val(args[1]), Elem):
            a = args[0] if isinstance(args[0], Elem) else el(args[0])
            rt.goaleq(a.arr.extra.a.read(rt, rt.g["K"]), fn("Lam", rt.g["K"]), "the shift is added to Lambda")
            rt.goaleq(num_(args[1]), var("shift"), "the shift")
            e = Elem(rt.g["k"] + 1, 1, 1)
            e.arr = Arr(None)
            e.arr.extra = Buf(ZArr(rt.newname("tmp"), (), lambda i: T(i)), "tmp", rt.g["k"] + 1)
            return e
        return super().operator(rt, op, args)

    def m_Fnorm(self, rt, e):
        g = rt.g
        v = e.arr.extra.a.read(rt, g["K"])
        rt.goaleq(v, A(g["K"]) / T(g["K"]), "the norm is taken of a ./ (Lambda + s)")
        return ssqrt(fn("U2", g["k"] + 1))


def phi(grad):
    @dvob("C13", "LRTRSR1::PhiBar_fg: 1 / |a ./ (Lambda + s)| - 1 / Delta" + (" and its derivative" if grad else ""), invs=phi_invs(grad))
    def go(rt):
        w = World(rt, "LRTRSR1")
        f = w.this.f
        rt.elemapi = PhiAPI()
        rt.rawbuf = rt.checkbounds = rt.cong = True
        k = f["Currentlength"]
        K = var("K", isint=True)
        for c in (le(0, k), le(0, K), lt(K, k + 1)):
            rt.fact(c)
        rt.g = dict(k=k, K=K, grad=grad)

        def vecof(nm, at):
            e = Elem(k + 1, 1, 1)
            e.arr = Arr(None)
            e.arr.extra = Buf(ZArr(nm, (), at), nm, k + 1)
            return e
        lam, aj = vecof("Lambda", lambda i: fn("Lam", i)), vecof("a_j", A)
        rt.g["Lambda"] = lam
        inst(rt, K)
        D = var("Delta1", pos=True)
        was = keep(w)
        a = [var("shift"), D, lam, aj]
        if grad:
            out = Buf(ZArr("gf"), "gf", S.of(1))
            a.append(ZPtr(rt, out))
        r = reach(rt, w.this, "PhiBar_fg", *a, sig="double *)" if grad else "Element &)")
        frame(rt, w, was, set())
        ph, i, n = rt.g["phase"], rt.g["i"], k + 1
        F2, F3, U2 = (fn(q, x) for q, x in (("F2", i), ("F3", i), ("U2", n)))
        form = lambda s: S.of(1) / ssqrt(s) - S.of(1) / D
        gform = lambda c, s: c / ssqrt(s) / ssqrt(s) / ssqrt(s)
        rd = (lambda: out.a.read(rt, S.of(0))) if grad else None
        rt.goal(ph in (1, 2), "one of the two forms")
        if ph == 2:
            rt.goal(And(Not(small(A(K))), Not(small(T(K)))), "the plain sum is used only when no number is close to zero")
            rt.goaleq(r, form(U2), "the value")
            if grad:
                j = rt.g["i2"]
                rt.goaleq(j, n, "all terms of the derivative")
                U3 = fn("U3", j)
                rt.goaleq(rd(), gform(U3, U2), "the derivative")
        elif r.eq(-S.of(1) / D):
            rt.goal(And(big(A(i)), small(T(i))), "the limit value is returned only at a pole")
            if grad:
                rt.goaleq(rd(), S.of(1) / EPS10, "a large slope at a pole")
        else:
            rt.goaleq(i, n, "all terms")
            rt.goal(Not(And(big(A(K)), small(T(K)))), "no pole")
            rt.goaleq(r, form(F2), "the value without the zero terms")
            if grad:
                rt.goaleq(rd(), gform(F3, F2), "the derivative without the zero terms")
    return go


phi(False)
phi(True)


# ------------------------------------------------------------------ Newton's method on PhiBar
def newton_invs():
    def state(rt):
        rt.g["x"], rt.g["k"] = rt.L("x0"), rt.L("k")

    def entry(rt):
        rt.goaleq(rt.L("x0"), rt.g["start"], "Newton's method starts at the given point")
        rt.goaleq(rt.L("k"), 0, "no step so far")

    def ghost(rt):
        g = rt.g
        rt.goaleq(rt.L("x0"), g["x"] - fn("PHI", g["x"]) / fn("DPHI", g["x"]), "one Newton step")
        rt.goaleq(rt.L("k"), g["k"] + 1, "is counted")
    defs = lambda rt: [(("l", "fv"), lambda rt: fn("PHI", rt.L("x0"))), (("l", "gf"), lambda rt: fn("DPHI", rt.L("x0")))]
    return {("LRTRSR1", "LocalNewton", 0): Inv(lambda rt: [("count", And(le(0, rt.L("k")), le(rt.L("k"), rt.g["max"])))], defs, ghost=ghost, state=state, entry=entry)}


@dvob("C13", "LRTRSR1::LocalNewton: Newton's method for PhiBar from the given point", invs=newton_invs())
def newton(rt):
    w = World(rt, "LRTRSR1")
    f = w.this.f
    mx = var("maxIter", isint=True, nonneg=True)
    lam, aj = w.vec("Lambda"), w.vec("a_j")
    x0 = var("start")
    rt.g = dict(max=mx, start=x0)

    def phibar(rt_, o, a):
        rt.goaleq(num_(a[1]), f["Delta"], "with the current radius")
        rt.goaleq(el(a[2]), lam.val(), "with Lambda")
        rt.goaleq(el(a[3]), aj.val(), "with the coefficients")
        if len(a) > 4:
            p = val(a[4])
            (p.to if isinstance(p, Ptr) else p.deref()).set(fn("DPHI", num_(a[0])))
        return fn("PHI", num_(a[0]))
    w.this.contracts["PhiBar_fg"] = phibar
    was = keep(w)
    r = reach(rt, w.this, "LocalNewton", x0, mx, var("tol", pos=True), lam, aj)
    frame(rt, w, was, set())
    rt.goaleq(r, rt.g["x"], "the last iterate is returned")
    e = var("eps", pos=True)
    v = fn("PHI", r)
    rt.goal(Or(eqc(rt.g["k"], mx), And(le(-e, v), le(v, e))), "it solves the equation or the limit of steps is reached")


# ------------------------------------------------------------------ the step for a given multiplier
class SMWAPI(dv.DElemAPI):
    def m_HHRDecom(self, rt, e):
        g = rt.g
        rt.goaleq(e, g["vw"], "the small matrix is tau (tau P + R'R)")
        h = Elem(g["k"], g["k"], 1)
        h.arr = Arr(None)
        h.arr.extra = Buf(ZArr("hhr"), "hhr", g["k"] * g["k"])
        e.fields["_HHR"] = h

    def operator(self, rt, op, args):
        if op == "%":
            a, b = (x if isinstance(x, Elem) else el(x) for x in args)
            g = rt.g
            rt.goaleq(a, g["vw"], "the system solved has that matrix")
            rt.goaleq(b, g["vw"] * M.sym(g["w"]), "and the right-hand side Psi'g")
            e = Elem(g["k"], 1, 1)
            e.setval(M.sym(g["w"]), g["k"], 1)
            return e
        return super().operator(rt, op, args)


def smw_invs():
    def conds(rt):
        i, k = rt.L("i"), rt.g["k"]
        return [("i", And(le(0, i), le(i, k)))]

    def state(rt):
        i, k = rt.L("i"), rt.g["k"]
        rt.fact(Imp(And(le(0, i), lt(i, k)), And(le(0, i + k * i), lt(i + k * i, k * k))))
    return {("LRTRSR1", "ComputeSBySMW", 0): Inv(conds, state=state)}


@dvob("C13", "LRTRSR1::ComputeSBySMW: the step solves (tau I + Psi P^-1 Psi') s = -g", invs=smw_invs(), minok=2)
def smw(rt):
    """Psi = Q R with Q'Q = I; Psi'g = vw w for the solution w of the small system, vw = tau (tau P + R'R)"""
    w = World(rt, "LRTRSR1")
    rt.elemapi = SMWAPI()
    rt.rawbuf = True
    f = w.this.f
    k = f["Currentlength"]
    n = w.N
    rt.fact(le(0, k))
    rt.fact(Imp(lt(0, k), lt(0, k * k)))
    Psi, R, P, W = (sym(nm, r, c) for nm, r, c in (("Psi", n, k), ("R", k, k), ("PM", k, k), ("w", k, S.of(1))))
    tau = var("tau", pos=True)
    RR = M.sym(R).T * M.sym(R)
    vw = M.sym(P).scale(tau * tau) + RR.scale(tau)
    rt.g = dict(k=k, vw=vw, w=W)

    def E(m, r, c):
        e = Elem(r, c, 1)
        e.setval(m, r, c)
        return e
    was = keep(w)
    psig = vw * M.sym(W)
    reach(rt, w.this, "ComputeSBySMW", tau, E(psig, k, S.of(1)), E(M.sym(R), k, k), E(M.sym(P), k, k), E(M.sym(Psi), n, k))
    frame(rt, w, was, {"eta2"})
    g = f["gf1"].val()
    plain = g.scale(S.of(-1) / tau)
    full = plain + M.sym(Psi) * M.sym(W)
    s = f["eta2"].val()
    if rt.decide(eqc(k, 0)):
        rt.goaleq(f["eta2"], plain, "without pairs the step is -g / tau")
    elif len(normal(s).t) == 1:
        rt.goaleq(f["eta2"], plain, "a singular small matrix is left out")
    else:
        rt.goaleq(f["eta2"], full, "s = Psi w - g / tau")
        # the residual, with Psi's = R'R w - Psi'g / tau
        z = RR * M.sym(W) - psig.scale(S.of(1) / tau)
        rt.goaleq(z + (M.sym(P) * M.sym(W)).scale(tau), M.zero(k, S.of(1)), "P^-1 Psi's = -tau w, so that tau s + Psi P^-1 Psi's = -g")


# ------------------------------------------------------------------ the whole subproblem
from spec_qn import sr1world, at, letter, slot, Tab, Z2
import spec_qn

TOL = EPS10


def absite(rt, x):
    return rt.ite(le(0, x), x, -x)


def far(x):
    return Or(lt(TOL, x), lt(x, -TOL))


class Mark:
    """raw pointer into the entries of a matrix value"""

    def __init__(self, e):
        self.e = e


class UnitPtr:
    """raw pointer used only to add one to an entry"""

    def __init__(self, rt, e):
        self.rt, self.e = rt, e

    def index(self, i):
        return UnitCell(self.rt, self.e, i)


class UnitCell:
    def __init__(self, rt, e, i):
        self.rt, self.e, self.i = rt, e, i
        self.cur = var(rt.newname("entry"))

    def get(self):
        return self.cur

    def set(self, v):
        self.rt.goal(And(le(0, self.i), lt(self.i, self.e.r)), "write within the vector")
        self.rt.goaleq(v, self.cur + 1, "a unit vector is added")
        self.e.setval(self.e.val() + M.sym(opaque("unit", (self.i,), self.e.r, S.of(1))), self.e.r, S.of(1))


class ColPtr:
    def __init__(self, buf, off=None):
        self.buf, self.off = buf, off or S.of(0)

    isbuf = True

    def arith(self, op, b):
        return ColPtr(self.buf, self.off + b)

    def advance(self, k):
        return ColPtr(self.buf, self.off + k)


class SubAPI(dv.DElemAPI):
    def mat(self, e):
        rt = self.rt
        e = self.elem(e)
        if not e.hasval() and e.c.eq(rt.g["k"]):
            rt.goal(eqc(rt.g["k"], 0), "only an empty matrix has no entries")
            return M.zero(e.r, e.c)
        return super().mat(e)

    def m_ObtainWriteEntireData(self, rt, e):
        g = rt.g
        if e is g["eta2"]:
            return Mark(e)
        if e.r.eq(g["k"]) and e.c.eq(g["k"]):
            t = Tab(rt, rt.newname("PMGQ"), g["k"])
            e.arr = Arr(None)
            e.arr.extra = t
            g["pm"] = t
            return t
        if e.r.eq(rt.N) and e.c.eq(g["k"]):
            e.arr = Arr(None)
            e.arr.extra = Buf(VZArr(rt, rt.newname("col")), "Psi", g["k"])
            g["cols"] = e.arr.extra
            return ColPtr(e.arr.extra)
        return super().m_ObtainWriteEntireData(rt, e)

    def m_ObtainWritePartialData(self, rt, e):
        if e.hasval():
            return UnitPtr(rt, e)
        return super().m_ObtainWritePartialData(rt, e)

    def m_ObtainReadData(self, rt, e):
        g = rt.g
        if isinstance(e, VElem):
            return Mark(e)
        if e is g.get("gpe"):
            return ZPtr(rt, Buf(ZArr("gp"), "g_parallel", g["k"]))
        if e.hasval():
            if e.c.eq(S.of(1)):       # g_parallel
                rt.goaleq(e, M.sym(g["U"]).T * M.sym(g["Q"]).T * g["gf"], "g_parallel = (Q U)' g")
                return ZPtr(rt, Buf(ZArr("gp"), "g_parallel", g["k"]))
            return Mark(e)
        if not isinstance(e.r, S) or (e.arr is None and e.r.eq(0)):
            return ZPtr(rt, Buf(ZArr(rt.newname("nothing")), "nothing", S.of(0)))
        if e.arr is None and e.c.eq(g["k"]):
            return Mark(e)
        if e.arr is not None and isinstance(e.arr.extra, Buf) and isinstance(e.arr.extra.a, VZArr):
            return Mark(e)
        return super().m_ObtainReadData(rt, e)

    def m_QRDecom(self, rt, e, *a):
        g = rt.g
        K = g["K"]
        if rt.decide(lt(K, g["k"])):
            rt.goaleq(g["cols"].a.read(rt, K), g["psi"](K), "column K of Psi is y_K - gamma s_K")
        e.setval(M.sym(g["Psi"]), rt.N, g["k"])
        q, r = Elem(rt.N, g["k"], 1), Elem(g["k"], g["k"], 1)
        q.setval(M.sym(g["Q"]), rt.N, g["k"])
        r.setval(M.sym(g["R"]), g["k"], g["k"])
        e.fields["_Q"], e.fields["_R"] = q, r

    def m_EigenDecomSym(self, rt, e, *a):
        g = rt.g
        rt.goaleq(e, M.sym(g["R"]) * M.sym(g["PMi"]) * M.sym(g["R"]).T, "the eigenvalues are those of R P^-1 R'")
        v, d = Elem(g["k"], g["k"], 1), Elem(g["k"], 1, 1)
        v.setval(M.sym(g["U"]), g["k"], g["k"])
        d.arr = Arr(None)
        d.arr.extra = Buf(ZArr("D"), "D", g["k"])
        e.fields["_EigVec"], e.fields["_EigVal"] = v, d

    def operator(self, rt, op, args):
        g = rt.g
        if op == "%":
            a, b = (x if isinstance(x, Elem) else el(x) for x in args)
            rt.goal(a.arr is not None and a.arr.extra is g["pm"], "the system solved is that of PMGQ")
            A, B = g["A"], g["B"]
            if rt.decide(And(lt(A, g["k"]), lt(B, g["k"]))):
                f = rt.w.this.f
                rt.goaleq(g["pm"].buf.a.read(A, B), f["SY"].buf.a.read(A, B) - f["gamma"] * f["SS"].buf.a.read(A, B), "entry (A, B) of PMGQ")
            return self.new(M.sym(g["PMi"]) * self.mat(b), b)
        return super().operator(rt, op, args)


def closed(loc, form, lo=None, hi=None, name=None, var_="i", abstract=None, names=()):
    """loop that writes one entry of an array per pass; form(rt, j, i): entry j when entries before i are done"""
    def buf(rt):
        return rt.L(loc).buf

    def entry(rt):
        if abstract:
            abstract(rt)
        rt.g["was." + loc] = buf(rt).a
        K = rt.g["K"]
        rt.goaleq(buf(rt).a.read(rt, K), form(rt, K, rt.L(var_)), "array before the first pass")

    def state(rt):
        i = rt.L(var_)
        rt.g["at." + loc] = i
        for nm in names:
            rt.fact(Imp(eqc(i, rt.g["K"]), eqc(fn(nm, i), fn(nm, rt.g["K"]))))
        buf(rt).a = ZArr(rt.newname(loc), (), lambda j: form(rt, j, i))

    def ghost(rt):
        K = rt.g["K"]
        if rt.decide(le(K, rt.g["k"])):
            rt.goaleq(buf(rt).a.read(rt, K), form(rt, K, rt.g["at." + loc] + 1), "array after the passes so far")
        rt.goaleq(rt.L(var_), rt.g["at." + loc] + 1, "next entry")
    return Inv(lambda rt: [(var_, And(le(0, rt.L(var_)), le(rt.L(var_), hi(rt))))], entry=entry, state=state, ghost=ghost)


def lam0(rt, j):
    g, f = rt.g, rt.w.this.f
    return rt.ite(lt(j, g["k"]), fn("D", j) + f["gamma"], g["last"](rt))


def trunc(rt, v):
    return rt.ite(And(le(v, TOL), le(-TOL, v)), S.of(0), v)


def low(rt):
    g, m, z = rt.g, rt.ghosts["m"], S.of(0)
    # the form proved for an arbitrary index, at the first one and at the one of the smallest; the eigenvalues are ascending
    for j in (m, z):
        rt.fact(eqc(fn("Lam", j), trunc(rt, lam0(rt, j))))
    for j in (m, g["k"] - 1):
        rt.fact(Imp(And(le(0, j), lt(j, g["k"])), le(fn("D", z), fn("D", j))))


def sub_invs():
    f_ = ("LRTRSR1", "tCG_TR")
    k = lambda rt: rt.g["k"]
    k1 = lambda rt: rt.g["k"] + 1
    rng = lambda v, hi: (lambda rt: (v, And(le(0, rt.L(v)), le(rt.L(v), hi(rt)))))

    # columns of Psi, YMGS
    def c_entry(rt):
        f = rt.w.this.f
        rt.g["ymgs0"], rt.g["cols0"] = f["YMGS"].buf.a, rt.g["cols"].a

    def pick(rt, j, i, new, old):
        return new(j) if rt.decide(And(le(0, j), lt(j, i))) else old.read(rt, j)

    def c_state(rt):
        f, i = rt.w.this.f, rt.L("i")
        rt.g["ci"] = i
        psi = rt.g["psi"]
        f["YMGS"].buf.a = VZArr(rt, rt.newname("YMGS"), (), lambda j: pick(rt, j, i, psi, rt.g["ymgs0"]))
        rt.g["cols"].a = VZArr(rt, rt.newname("cols"), (), lambda j: pick(rt, j, i, psi, rt.g["cols0"]))

    def c_ghost(rt):
        f, i, K = rt.w.this.f, rt.g["ci"], rt.g["K"]
        psi = rt.g["psi"]
        rt.goaleq(rt.L("i"), i + 1, "next column")
        for b, o, nm in ((f["YMGS"].buf, "ymgs0", "YMGS"), (rt.g["cols"], "cols0", "Psi")):
            rt.goaleq(b.a.read(rt, K), pick(rt, K, i + 1, psi, rt.g[o]), "%s after the columns so far" % nm)
    iv = {f_ + (0,): Inv(lambda rt: [rng("i", k)(rt)], entry=c_entry, state=c_state, ghost=c_ghost)}

    # PMGQ
    def pm(rt, a, b):
        f = rt.w.this.f
        return f["SY"].buf.a.read(a, b) - f["gamma"] * f["SS"].buf.a.read(a, b)

    def pm_form(rt, i, j):
        def get(a, b):
            c = lt(a, i) if j is None else Or(lt(a, i), And(eqc(a, i), lt(b, j)))
            if rt.decide(And(le(0, a), le(0, b), lt(b, rt.g["k"]), c)):
                return pm(rt, a, b)
            return fn("PMold", a, b)
        return get

    def p_set(inner):
        def state(rt):
            i, j = rt.L("i"), rt.L("j") if inner else None
            rt.g["pj" if inner else "pi"] = j if inner else i
            rt.g["pm"].buf.a = Z2(rt, rt.newname("PMGQ"), (), pm_form(rt, i, j))
        return state

    def p_ghost(inner):
        def ghost(rt):
            g = rt.g
            if not rt.decide(And(lt(g["A"], g["k"]), lt(g["B"], g["k"]))):
                return
            if inner:
                rt.goaleq(rt.L("j"), g["pj"] + 1, "next column")
                frm = pm_form(rt, rt.L("i"), g["pj"] + 1)
            else:
                rt.goaleq(rt.L("i"), g["pi"] + 1, "next row")
                frm = pm_form(rt, g["pi"] + 1, None)
            rt.goaleq(g["pm"].buf.a.read(g["A"], g["B"]), frm(g["A"], g["B"]), "PMGQ after the entries so far")
        return ghost

    def p_entry(inner):
        def entry(rt):
            g = rt.g
            if not inner:
                g["pm"].buf.a = Z2(rt, "PMold")
            if rt.decide(And(lt(g["A"], g["k"]), lt(g["B"], g["k"]))):
                frm = pm_form(rt, rt.L("i"), S.of(0) if inner else None)
                rt.goaleq(g["pm"].buf.a.read(g["A"], g["B"]), frm(g["A"], g["B"]), "PMGQ before the first entry")
        return entry
    iv[f_ + (1,)] = Inv(lambda rt: [rng("i", k)(rt)], entry=p_entry(False), state=p_set(False), ghost=p_ghost(False))
    iv[f_ + (2,)] = Inv(lambda rt: [("i", And(le(0, rt.L("i")), lt(rt.L("i"), k(rt)))), rng("j", k)(rt)], entry=p_entry(True), state=p_set(True), ghost=p_ghost(True))

    # eigenvalues of the model
    def ab0(rt):
        rt.L("Lambdaptr").buf.a = ZArr("Lamraw")
    iv[f_ + (3,)] = closed("Lambdaptr", lambda rt, j, i: rt.ite(lt(j, i), fn("D", j) + rt.w.this.f["gamma"], fn("Lamraw", j)), hi=k, abstract=ab0, names=("D", "Lamraw"))

    def ab1(rt):
        """the eigenvalues before small ones are set to zero: last one gamma, or that of the last column when there is no other"""
        f, g = rt.w.this.f, rt.g
        gam = f["gamma"]
        g["last"] = lambda rt: rt.ite(lt(g["k"], rt.N), gam, fn("D", g["k"] - 1) + gam)
        K = g["K"]
        b = rt.L("Lambdaptr").buf
        rt.fact(Imp(eqc(K, g["k"] - 1), eqc(fn("D", K), fn("D", g["k"] - 1))))
        if rt.decide(le(K, g["k"])):
            rt.goaleq(b.a.read(rt, K), lam0(rt, K), "eigenvalue K of the model")
        b.a = ZArr("Lam0")
        for j in (K,):
            rt.fact(Imp(And(le(0, j), le(j, g["k"])), eqc(fn("Lam0", j), lam0(rt, j))))
    iv[f_ + (4,)] = closed("Lambdaptr", lambda rt, j, i: rt.ite(lt(j, i), trunc(rt, fn("Lam0", j)), fn("Lam0", j)), hi=k1, abstract=ab1, names=("Lam0",))

    # smallest one
    def m_entry(rt):
        g = rt.g
        K = g["K"]
        b = rt.L("Lambdaptr").buf
        if rt.decide(le(K, g["k"])):
            rt.goaleq(b.a.read(rt, K), trunc(rt, lam0(rt, K)), "small eigenvalues are set to zero")
        was = b.a.read(rt, S.of(0))
        rt.goaleq(rt.L("lambda_min"), was, "starts with the first one")
        b.a = ZArr("Lam")
        rt.fact(eqc(fn("Lam", S.of(0)), was))
        rt.ghosts["m"] = S.of(0)

    def m_conds(rt):
        g = rt.g
        K, i, m, v = g["K"], rt.L("i"), rt.ghosts["m"], rt.L("lambda_min")
        return [rng("i", k1)(rt), ("below", Imp(lt(K, i), le(v, fn("Lam", K)))), ("attained", And(eqc(v, fn("Lam", m)), And(le(0, m), le(m, g["k"])))),
                ("not above the first", le(v, fn("Lam", S.of(0))))]

    def m_state(rt):
        i, K = rt.L("i"), rt.g["K"]
        rt.g["mi"], rt.g["mv"] = i, rt.L("lambda_min")
        rt.fact(Imp(eqc(i, K), eqc(fn("Lam", i), fn("Lam", K))))

    def m_ghost(rt):
        g = rt.g
        if rt.decide(lt(fn("Lam", g["mi"]), g["mv"])):
            rt.ghosts["m"] = g["mi"]
    iv[f_ + (5,)] = Inv(m_conds, entry=m_entry, state=m_state, ghost=m_ghost)

    # coefficients
    def ab2(rt):
        rt.L("a_jptr").buf.a = ZArr("ajraw")
    iv[f_ + (6,)] = closed("a_jptr", lambda rt, j, i: rt.ite(lt(j, i), fn("gp", j), fn("ajraw", j)), hi=k, abstract=ab2, names=("gp", "ajraw"))

    def n_entry(rt):
        g = rt.g
        K = g["K"]
        b = rt.L("a_jptr").buf
        if rt.decide(le(K, g["k"])):
            rt.goaleq(b.a.read(rt, K), rt.ite(lt(K, g["k"]), fn("gp", K), rt.L("a_kp2")), "coefficients of the gradient")
        b.a = ZArr("aj")
        rt.fact(eqc(fn("NS", S.of(0)), 0))

    def n_state(rt):
        i, K = rt.L("i"), rt.g["K"]
        a, l = fn("aj", i), fn("Lam", i)
        rt.g["ni"] = i
        rt.fact(eqc(fn("NS", i + 1), fn("NS", i) + a * a / l / l))
    iv[f_ + (7,)] = Inv(lambda rt: [rng("i", k1)(rt)], lambda rt: [(("l", "tmpv"), lambda rt: fn("NS", rt.L("i")))], entry=n_entry, state=n_state)

    # multipliers of the hard case
    def vform(rt, j, i):
        s = rt.L("sigmaStar")
        d = fn("Lam", j) + s
        return rt.ite(lt(j, i), rt.ite(far(d), fn("aj", j) / d, S.of(0)), fn("vraw", j))

    def ab3(rt):
        rt.L("v").buf.a = ZArr("vraw")
    iv[f_ + (8,)] = closed("v", vform, hi=k1, abstract=ab3, names=("Lam", "aj", "vraw"))

    def z_state(rt):
        low(rt)
        el(rt.local("zstar")).setval(M.sym(sym(rt.newname("z"), rt.N, S.of(1))), rt.N, S.of(1))
    iv[f_ + (9,)] = Inv(lambda rt: [rng("i", k1)(rt)], state=z_state)

    def h_state(rt):
        i, K = rt.L("i"), rt.g["K"]
        for nm in ("aj", "Lam"):
            rt.fact(Imp(eqc(i, K), eqc(fn(nm, i), fn(nm, K))))
    iv[f_ + (10,)] = Inv(lambda rt: [rng("i", k1)(rt), ("nonnegative", le(0, rt.L("sigmaHat"))),
                                     ("large", Imp(lt(rt.g["K"], rt.L("i")), hat(rt, rt.g["K"], rt.L("sigmaHat"))))], state=h_state)
    return iv


def hat(rt, j, s):
    a = fn("aj", j)
    d = rt.w.this.f["Delta"]
    return And(le(a / d - fn("Lam", j), s), le(-a / d - fn("Lam", j), s))


@dvob("C13", "LRTRSR1::tCG_TR: the step stays in the region, its model, its multiplier and its status", invs=sub_invs(), maxpaths=4000, timeout=400, minok=4)
def subproblem(rt):
    qn, w, f = sr1world(rt)
    rt.elemapi = SubAPI()
    rt.elemapi.rt = rt
    rt.rawbuf = rt.cong = True
    rt.checkbounds = False
    k = f["Currentlength"]
    K, A, B = (var(x, isint=True) for x in ("Kcol", "rowA", "colB"))
    for c in (le(0, K), le(0, A), le(0, B), le(k, rt.N), lt(0, rt.N), lt(0, f["Delta"])):
        rt.fact(c)
    rt.ghosts["m"] = S.of(0)
    rt.ghost_ty = dict(rt.ghost_ty, m="int")
    n = rt.N
    g = rt.g = dict(k=k, K=K, A=A, B=B, eta2=f["eta2"], gf=f["gf1"].val())
    for nm, r, c in (("Psi", n, k), ("Q", n, k), ("R", k, k), ("PMi", k, k), ("U", k, k), ("vv", k, S.of(1))):
        g[nm] = sym("W" + nm, r, c)
    gam = f["gamma"]
    S0, Y0 = f["S"].buf.a, f["Y"].buf.a
    g["psi"] = lambda j: Y0.read(rt, slot(f, j)) - S0.read(rt, slot(f, j)).scale(gam)

    def copy_(rt_, a):
        src, dst = val(a[1]), val(a[3])
        if isinstance(dst, ColPtr):
            i = rt.L("i")
            rt.goaleq(dst.off, i * n, "column i")
            dst.buf.a = dst.buf.a.store(i, src.e.val())
            return None
        raise Unsupported("copy_")
    rt.over["copy_"] = copy_

    def deref(p):
        p = val(p)
        return num_(p.to.get() if isinstance(p, Ptr) and isinstance(p.to, Cell) else p.deref().get()) if not isinstance(p, S) else p

    def gemm_(rt_, a):
        P, v, out = val(a[6]), val(a[8]), val(a[11])
        pv = rt.elemapi.mat(P.e)
        if not pv.iszero() if hasattr(pv, "iszero") else pv.t:
            rt.goaleq(pv, M.sym(g["Q"]) * M.sym(g["U"]), "the matrix is Q U")
        if rt.decide(lt(K, k)):
            s = g["sig"]
            d = fn("Lam", K) + s
            rt.goaleq(v.buf.a.read(rt, K), rt.ite(far(d), fn("aj", K) / d, S.of(0)), "the vector holds a_j / (Lambda_j + sigma), zero at a pole")
        g["eta2"].setval(-(pv * M.sym(g["vv"])), n, S.of(1))
        g["pv"] = pv
        return None
    rt.over["gemm_"] = gemm_
    f["eta2"].setval(w.letter_("eta2old"), n, 1)

    def given(lam, aj):
        if rt.decide(le(K, k)):
            rt.goaleq(el(lam).arr.extra.a.read(rt, K), fn("Lam", K), "Lambda is passed")
            rt.goaleq(el(aj).arr.extra.a.read(rt, K), fn("aj", K), "the coefficients are passed")

    def phibar(rt_, o, a):
        given(a[2], a[3])
        rt.goaleq(num_(a[1]), f["Delta"], "with the radius")
        g["sig"] = num_(a[0])
        low(rt)
        return fn("PHIBAR", num_(a[0]))

    def lnewton(rt_, o, a):
        given(a[3], a[4])
        x0 = num_(a[0])
        lm = rt.L("lambda_min")
        if rt.decide(lt(0, lm)):
            rt.goaleq(x0, 0, "Newton's method starts at zero for a positive definite model")
        else:
            rt.goal(le(-lm, x0), "it starts where the shifted model is not indefinite")
            if rt.decide(le(K, k)):
                rt.goal(Or(hat(rt, K, x0)), "and where the step is not too short")
        g["newton"] = var("sigmaN")
        return g["newton"]

    def smw(rt_, o, a):
        g["tau"] = num_(a[0])
        rt.goal(el(a[3]).arr is not None and el(a[3]).arr.extra is g["pm"], "PMGQ is passed")
        if not rt.decide(eqc(k, 0)):
            rt.goaleq(el(a[1]), M.sym(g["Psi"]).T * g["gf"], "Psi'g is passed")
            rt.goaleq(el(a[2]), M.sym(g["R"]), "R is passed")
            rt.goaleq(el(a[4]), M.sym(g["Psi"]), "Psi is passed")
        f["eta2"].setval(M.sym(sym("SMW", n, S.of(1))), n, S.of(1))
    w.this.contracts["PhiBar_fg"] = phibar
    w.this.contracts["LocalNewton"] = lnewton
    w.this.contracts["ComputeSBySMW"] = smw

    def proj(x, u, res):
        g["step"] = el(u).val()
        g["lmin"] = rt.L("lambda_min")
        g["sigma"] = rt.L("sigmaStar")
        return w.put(res, g["pl"])
    w.m_Projection = proj
    g["pl"] = w.letter_("pstep")
    was = keep(w)
    reach(rt, w.this, "tCG_TR")
    frame(rt, w, was, {"eta2", "PMGQ", "YMGS", "tCGstatusSM"})
    # the region
    p = g["pl"]
    pe, ee = Elem(n, S.of(1), 1), Elem(n, S.of(1), 1)
    e = f["eta2"].val()
    pe.setval(p, n, S.of(1))
    ee.setval(e, n, S.of(1))
    nn, en = w.m_Metric(f["x1"], pe, pe), w.m_Metric(f["x1"], ee, ee)
    rt.fact(le(0, nn))
    rt.goal(le(en, f["Delta"] * f["Delta"]), "the step stays in the region")
    if rt.decide(lt(f["Delta"], ssqrt(nn))):
        rt.goaleq(e, p.scale(f["Delta"] / ssqrt(nn)), "a longer step is shortened")
    else:
        rt.goaleq(e, p, "the step is that of the model")
    # which step
    lm, tn = g["lmin"], ssqrt(fn("NS", g["ni"]))
    rt.goaleq(g["ni"], k + 1, "all terms")
    st = f["tCGstatusSM"]
    inside = And(lt(0, lm), le(tn, f["Delta"]))
    ph = fn("PHIBAR", -lm)
    if rt.decide(inside):
        rt.goaleq(st, w.E("TRSM_MIN"), "status: minimiser")
        rt.goaleq(g["tau"], gam, "Newton step of the model")
    elif rt.decide(And(le(lm, 0), lt(0, ph))):
        rt.goaleq(st, w.E("TRSM_NEGCURVTURE"), "status: negative curvature")
        rt.goaleq(g["sigma"], -lm, "multiplier of the hard case")
    else:
        rt.goaleq(st, w.E("TRSM_EXCREGION"), "status: boundary")
        rt.goaleq(g["tau"], gam + g["newton"], "step of the shifted model")
    if rt.decide(lt(K, k)):
        rt.goaleq(f["YMGS"].buf.a.read(rt, K), g["psi"](K), "YMGS holds y_K - gamma s_K")
