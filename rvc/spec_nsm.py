"""C20: the proximal mapping and its generalized Jacobian, entry by entry, for vectors of any length and weights of any block
structure. One arbitrary entry K = I*bs+J is followed: it is never written with another value than its own, and at the end it holds the
minimiser of  w/2 (p-x)^2 + lambda |p|."""
from dv import *
from world import *
import num
import geo


def setup(rt, cls):
    rt.rawbuf = True
    rt.checkbounds = True
    nb, bs = var("nb", isint=True), var("bs", isint=True)
    I, J = var("I", isint=True), var("J", isint=True)
    lam = var("lambda", nonneg=True)
    for c in (lt(0, nb), lt(0, bs), le(0, I), lt(I, nb), le(0, J), lt(J, bs)):
        rt.fact(c)
    o = Obj(cls, rt, **{"lambda": lam})
    rt.objs.append(o)
    rt.px = dict(nb=nb, bs=bs, I=I, J=J, lam=lam, K=I * bs + J)
    N = nb * bs

    def e(nm, n):
        v = Elem(n, S.of(1), S.of(1))
        v.name = nm
        v.arr = Arr(None)
        v.arr.extra = Buf(ZArr(nm), nm, n)
        return v
    return o, e("x", N), e("eta", N), e("W", nb), e("result", N)


def invs(cls, fn_, post):
    def order(rt, i):
        p = rt.px
        # products of integers: the blocks do not overlap
        I, bs = p["I"], p["bs"]
        rt.fact(Imp(lt(i, I), le(i * bs + bs, I * bs)))
        rt.fact(Imp(lt(I, i), le(I * bs + bs, i * bs)))
        rt.fact(Imp(eqc(i, I), eqc(i * bs, I * bs)))
        nb = p["nb"]
        rt.fact(Imp(lt(i, nb), le(i * bs + bs, nb * bs)))
        rt.fact(Imp(le(0, i), le(0, i * bs)))

    def same(rt, i, j):
        p = rt.px
        order(rt, i)
        k = i * p["bs"] + j
        for a in ("x", "eta"):
            rt.fact(Imp(eqc(k, p["K"]), eqc(fn(a, k), fn(a, p["K"]))))
        rt.fact(Imp(eqc(i, p["I"]), eqc(fn("W", i), fn("W", p["I"]))))

    def c0(rt):
        i = rt.L("i")
        return [("i", And(le(0, i), le(i, rt.px["nb"])))] + [(t, Imp(lt(rt.px["I"], i), c)) for t, c in post(rt)]

    def c1(rt):
        i, j = rt.L("i"), rt.L("j")
        p = rt.px
        return [("j", And(le(0, j), le(j, p["bs"]))), ("i", And(le(0, i), lt(i, p["nb"])))] + \
            [(t, Imp(Or(lt(p["I"], i), And(eqc(p["I"], i), lt(p["J"], j))), c)) for t, c in post(rt)]

    def s0(rt):
        order(rt, rt.L("i"))

    def s1(rt):
        same(rt, rt.L("i"), rt.L("j"))
    return {(cls, fn_, 0): Inv(c0, state=s0), (cls, fn_, 1): Inv(c1, state=s1)}


def res(rt):
    return rt.res.arr.extra.a.read(rt, rt.px["K"])


def proxpost(rt):
    p = rt.px
    r, x, w, lam = res(rt), fn("x", p["K"]), fn("W", p["I"]), p["lam"]
    g = w * (r - x)
    return [("an entry that stays positive solves w(p-x)+lambda=0", Imp(lt(0, r), eqc(g, -lam))),
            ("an entry that stays negative solves w(p-x)-lambda=0", Imp(lt(r, 0), eqc(g, lam))),
            ("an entry set to zero satisfies |w x| <= lambda", Imp(eqc(r, 0), And(le(w * x, lam), le(-lam, w * x))))]


def jacpost(rt):
    p = rt.px
    r, x, w, lam, e = res(rt), fn("x", p["K"]), fn("W", p["I"]), p["lam"], fn("eta", p["K"])
    a = w * x
    return [("the derivative is the identity where the mapping moves the entry", Imp(Or(lt(lam, a), lt(a, -lam)), eqc(r, e))),
            ("the derivative is zero where the mapping gives zero", Imp(And(lt(a, lam), lt(-lam, a)), eqc(r, 0))),
            ("at a kink it lies between", Or(eqc(r, 0), eqc(r, e)))]


def operands(rt, *es):
    for e in es:
        rt.goal(e.arr.extra.a.w == () and e.arr.extra.a.base == e.name, e.name + " is left unchanged")


def both(cls):
    @dvob("C20", cls + "::ProxW minimises w/2 (p-x)^2 + lambda |p| in every entry", "prob", invs=invs(cls, "ProxW", proxpost))
    def prox(rt):
        o, x, eta, W, r = setup(rt, cls)
        rt.fact(lt(0, fn("W", rt.px["I"])))
        rt.res = r
        reach(rt, o, "ProxW", x, W, Ptr(r))
        for t, c in proxpost(rt):
            rt.goal(c, t)
        operands(rt, x, W)

    @dvob("C20", cls + "::CalJW is an element of the generalized Jacobian of ProxW", "prob", invs=invs(cls, "CalJW", jacpost))
    def jac(rt):
        o, x, eta, W, r = setup(rt, cls)
        rt.fact(lt(0, fn("W", rt.px["I"])))
        rt.res = r
        reach(rt, o, "CalJW", x, eta, W, Ptr(r))
        for t, c in jacpost(rt):
            rt.goal(c, t)
        operands(rt, x, eta, W)


both("StieSPCA")
both("FRankESparseApprox")


# ------------------------------------------------------------------ minimum-norm vector in a convex hull
def hull(rt, hv):
    """SphereConvexHull: W holds n >= 1 vectors of any length, x any point with n entries, P = Hv self-adjoint (or absent)"""
    rt.rawbuf = True
    rt.checkbounds = True
    rt.N = var("N", isint=True, pos=True)
    n = var("n", isint=True)
    K = var("K", isint=True)
    for c in (lt(0, n), lt(0, rt.N), le(0, K), lt(K, n)):
        rt.fact(c)
    P = M.sym(sym("P", rt.N, rt.N, symm=True)) if hv else None

    def Hv(rt_, o_, a):
        r = a[1].to if isinstance(a[1], Ptr) else a[1]
        v = a[0].get() if isinstance(a[0], (Cell, FieldCell)) else a[0]
        r.setval(P * v.val(), rt.N, S.of(1))
        return r
    so = Obj("SolversNSMSub", rt)
    so.contracts["Hv"] = Hv
    W = vecarray(rt, "W", n)
    o = Obj("SphereConvexHull", rt, W=W, lengthW=n, solver=Ptr(so), Hv=Opaque("Hv") if hv else None, Mani=None)
    rt.objs.append(o)
    rt.h = dict(n=n, K=K, P=P, W=W, o=o)

    def raw(nm):
        v = Elem(n, S.of(1), S.of(1))
        v.name = nm
        v.arr = Arr(None)
        v.arr.extra = Buf(ZArr(nm), nm, n)
        return v
    rt.raw = raw

    def had(rt_, a, b):
        v = Elem(n, S.of(1), S.of(1))
        v.name = "hadamard"
        p, q = a.arr.extra.a, b.arr.extra.a
        v.arr = Arr(None)
        v.arr.extra = Buf(ZArr("hadamard", (), lambda i: p.read(rt, i) * q.read(rt, i)), "hadamard", n)
        return v
    rt.elemapi.m_GetHadamardProduct = had
    return o


def PS(rt, i):
    return M.sym(opaque("PS", (i,), rt.N, S.of(1)))


def ap(rt, m):
    return rt.h["P"] * m if rt.h["P"] is not None else m


def Wat(rt, i):
    return rt.h["W"].buf.a.read(rt, i)


def suminv(ctr, acc, weight):
    def conds(rt):
        i = rt.L(ctr)
        return [("i", And(le(0, i), le(i, rt.h["n"])))]

    def entry(rt):
        rt.goal(eqc(rt.L(ctr), 0), "the sum starts at the first vector")
        rt.goaleq(rt.local(acc), M.zero(rt.N, S.of(1)), "the sum starts at zero")

    def state(rt):
        rt.local(acc).setval(PS(rt, rt.L(ctr)), rt.N, S.of(1))
        rt.h["i"] = rt.L(ctr)

    def ghost(rt):
        i = rt.h["i"]
        rt.goaleq(rt.local(acc), PS(rt, i) + Wat(rt, i).scale(weight(i)), "the next partial sum adds the weighted vector")
        rt.goal(eqc(rt.L(ctr), i + 1), "goes to the next vector")
    return Inv(conds, None, ghost=ghost, entry=entry, state=state)


def entryinv(ctr, val, before=None):
    """every entry left of the counter has its value, the others the old one"""
    def conds(rt):
        i, K = rt.L(ctr), rt.h["K"]
        r = rt.res.arr.extra.a.read(rt, K)
        out = [("i", And(le(0, i), le(i, rt.h["n"]))), ("entries", Imp(lt(K, i), eqc(r, val(rt, K))))]
        if before:
            out.append(("entries to come", Imp(le(i, K), eqc(r, before(rt, K)))))
        return out

    def state(rt):
        i, K = rt.L(ctr), rt.h["K"]
        for f in (val, before) if before else (val,):
            rt.fact(Imp(eqc(i, K), eqc(f(rt, i), f(rt, K))))
        for nm in ("x", "eta"):
            rt.fact(Imp(eqc(i, K), eqc(fn(nm, i), fn(nm, K))))
        a = rt.res.arr.extra.a
        rt.fact(Imp(eqc(i, K), eqc(a.read(rt, i), a.read(rt, K))))
    return Inv(conds, state=state)


def num0(s):
    return s.tr() if isinstance(s, M) else s


def gradval(rt, k):
    return 4 * fn("x", k) * Wat(rt, k).dot(rt.h["PW"])


def hess1(rt, k):
    return 4 * fn("eta", k) * Wat(rt, k).dot(rt.h["PW"])


def hess2(rt, k):
    return hess1(rt, k) + 8 * fn("x", k) * Wat(rt, k).dot(ap(rt, PS(rt, rt.h.get("i", rt.h["n"]))))


for hv in (False, True):
    nmhv = " (P-norm)" if hv else ""

    @dvob(["C16", "C20"], "SphereConvexHull::f is the squared norm of the combination with weights x_i^2" + nmhv, "prob",
          invs={("SphereConvexHull", "f", 0): suminv("i", "Wxsq", lambda i: fn("x", i) * fn("x", i))})
    def go(rt, hv=hv):
        o = hull(rt, hv)
        x = rt.raw("x")
        v = reach(rt, o, "f", x)
        s = PS(rt, rt.h["n"])
        rt.goaleq(rt.h["i"], rt.h["n"], "all vectors are used")
        s = PS(rt, rt.h["i"])
        rt.goaleq(x.fields["Wxsq"], s, "the combination is attached to the point")
        rt.goaleq(x.fields["PWxsq"], ap(rt, s), "P times the combination is attached to the point")
        rt.goaleq(v, s.dot(ap(rt, s)), "value")
        operands(rt, x)

    @dvob("C16", "SphereConvexHull::EucGrad is 4 x_k <W_k, P w>" + nmhv, "prob",
          invs={("SphereConvexHull", "EucGrad", 0): entryinv("i", gradval)})
    def go(rt, hv=hv):
        o = hull(rt, hv)
        x, r = rt.raw("x"), rt.raw("result")
        rt.res = r
        pw = Elem(rt.N, S.of(1), S.of(1))
        rt.h["PW"] = M.sym(sym("PW", rt.N, S.of(1)))
        pw.setval(rt.h["PW"], rt.N, S.of(1))
        x.fields["PWxsq"] = pw
        reach(rt, o, "EucGrad", x, Ptr(r))
        rt.goaleq(r.arr.extra.a.read(rt, rt.h["K"]), gradval(rt, rt.h["K"]), "entry K")
        operands(rt, x)

    @dvob("C16", "SphereConvexHull::EucHessianEta is 4 eta_k <W_k, P w> + 8 x_k <W_k, P sum x_i eta_i W_i>" + nmhv, "prob",
          invs={("SphereConvexHull", "EucHessianEta", 0): entryinv("i", hess1),
                ("SphereConvexHull", "EucHessianEta", 1): suminv("i", "Wxeta", lambda i: fn("x", i) * fn("eta", i)),
                ("SphereConvexHull", "EucHessianEta", 2): entryinv("i", hess2, hess1)})
    def go(rt, hv=hv):
        o = hull(rt, hv)
        x, e, r = rt.raw("x"), rt.raw("eta"), rt.raw("result")
        rt.res = r
        pw = Elem(rt.N, S.of(1), S.of(1))
        rt.h["PW"] = M.sym(sym("PW", rt.N, S.of(1)))
        pw.setval(rt.h["PW"], rt.N, S.of(1))
        x.fields["PWxsq"] = pw
        reach(rt, o, "EucHessianEta", x, e, Ptr(r))
        rt.goaleq(rt.h["i"], rt.h["n"], "all vectors are used")
        rt.goaleq(r.arr.extra.a.read(rt, rt.h["K"]), hess2(rt, rt.h["K"]), "entry K")
        operands(rt, x, e)


@dvob("C16", "lemma: EucGrad and EucHessianEta of SphereConvexHull are the derivatives of f and EucGrad (induction over the vectors)", "prob")
def go(rt):
    hull(rt, True)
    i, n = var("i", isint=True), rt.h["n"]
    W, D, X = Wat(rt, i), M.sym(opaque("D", (i,), rt.N, S.of(1))), M.sym(opaque("X", (i,), rt.N, S.of(1)))
    x, e = fn("x", i), fn("eta", i)
    s = PS(rt, n)
    # partial sums along x + eps*eta: the recursion of f
    xe = x + e * geo.eps()
    dstep = num.epscoef(xe * xe, 1)
    rt.h["PW"] = ap(rt, s)
    # 2<D(i),P s> = sum of gradient entries times eta up to i: step
    rt.goaleq(W.scale(dstep).dot(ap(rt, s)) * 2, gradval(rt, i) * e, "step of the derivative of f")
    # D(i) = 2 X(i): step, then the derivative of entry k of the gradient
    rt.goaleq(W.scale(dstep), W.scale(x * e).scale(2), "step of D = 2X")
    d = PS(rt, n).scale(2)       # D(n), with PS(n) the partial sums of the Hessian's second loop
    g = num.epscoef(4 * xe * W.dot(ap(rt, s)), 1) + 4 * x * W.dot(ap(rt, d))
    rt.goaleq(g, hess2(rt, i), "derivative of entry k")


def tgt(v):
    while isinstance(v, (Ptr, Cell, FieldCell)):
        v = v.to if isinstance(v, Ptr) else v.get()
    return v


def minnorm(hv):
    @dvob("C20", "MinPNormConHull returns the combination with the weights x_i^2 of the solver's final unit vector and its value" + (" (P-norm)" if hv else ""), "other")
    def go(rt, hv=hv):
        o = hull(rt, hv)
        n = rt.h["n"]
        mani = Obj("Manifold", rt)
        W = rt.h["W"]
        so, Hv = (o.f["solver"], o.f["Hv"]) if hv else (None, None)
        seen = {}

        def ctor(rt_, ty, nd):
            a = [x.get() if isinstance(x, (Cell, FieldCell)) else x for x in rt_.args(nd.ch)]
            if ty == "SphereConvexHull":
                p = Obj(ty, rt, Mani=a[0], W=a[1], lengthW=a[2], solver=a[3], Hv=a[4], dom=None)

                def setdom(rt__, o_, b):
                    o_.f["dom"] = tgt(b[0])
                p.contracts["SetDomain"] = setdom
                seen["prob"] = p
                return p
            if ty == "Sphere":
                d = Obj(ty, rt, n=a[0])

                def rnd(rt__, o_, b):
                    e = rt.raw("x0")
                    e.name = "x0"
                    seen.setdefault("made", []).append(o_)
                    return e
                d.contracts["RandominManifold"] = rnd
                return d
            if ty == "RTRNewton":
                # contract of a run (C14): the reported point is a point of the domain and the reported value its cost; the cost's
                # contract: the combination is attached to the point
                p, x0 = tgt(a[0]), tgt(a[1])
                sv = Obj(ty, rt, ran=False, **{k: S.of(0) for k in ("Stop_Criterion", "Verbose", "Max_Iteration", "Tolerance")})
                rt.objs.append(sv)

                def run(rt__, o_, b):
                    d = p.f["dom"]
                    rt.goal(d is not None and len(seen["made"]) == 1 and seen["made"][0] is d and x0.arr.extra.a.base == "x0", "the run starts at a point of its problem's domain")
                    rt.goal(eqc(d.f["n"], p.f["lengthW"]), "the sphere has one entry per vector")
                    o_.f["ran"] = True

                def xopt(rt__, o_, b):
                    rt.goal(o_.f["ran"] is True, "the result is read after the run")
                    e = rt.raw("xopt")
                    w = Elem(rt.N, S.of(1), S.of(1))
                    w.setval(PS(rt, p.f["lengthW"]), rt.N, S.of(1))
                    pw = Elem(rt.N, S.of(1), S.of(1))
                    pw.setval(ap(rt, PS(rt, p.f["lengthW"])) if p.f["Hv"] is not None else PS(rt, p.f["lengthW"]), rt.N, S.of(1))
                    e.fields["Wxsq"], e.fields["PWxsq"] = w, pw
                    return e

                def fopt(rt__, o_, b):
                    rt.goal(o_.f["ran"] is True, "the value is read after the run")
                    s = PS(rt, p.f["lengthW"])
                    return s.dot(ap(rt, s) if p.f["Hv"] is not None else s)
                sv.contracts.update(Run=run, GetXopt=xopt, Getfinalfun=fopt)
                seen["solver"] = sv
                return sv
            return None
        rt.hooks["constructor"] = ctor
        out = Elem(rt.N, S.of(1), S.of(1))
        x = Elem(S.of(1), S.of(1), S.of(1))
        x.name = "x"
        fs = [f for f in rt.prog.fns[("", "MinPNormConHull")]]
        long = [f for f in fs if len(f.params) == 7]
        short = [f for f in fs if len(f.params) == 5]
        if len(long) != 1 or len(short) != 1:
            raise Unsupported("MinPNormConHull overloads")
        if hv:
            v = rt.run(long[0], None, [Ptr(mani), x, W, n, so, Hv, out])
        else:
            v = rt.run(short[0], None, [Ptr(mani), x, W, n, out])
        p = seen.get("prob")
        if p is None or "solver" not in seen:
            raise Unsupported("the sub-problem is not built as expected")
        rt.goal(p.f["W"] is not None and getattr(p.f["W"], "buf", None) is W.buf and W.off.eq(getattr(p.f["W"], "off", S.of(1))), "the given vectors are combined")
        rt.goaleq(p.f["lengthW"], n, "all vectors are combined")
        rt.goal((p.f["Hv"] is None) == (not hv), "the norm is the requested one")
        rt.goal((getattr(p.f["solver"], "to", None) is (so.to if so else None)), "the operator belongs to the given solver")
        s = PS(rt, n)
        rt.goaleq(out, s, "the combination is returned")
        rt.goaleq(v, s.dot(ap(rt, s)), "its squared norm is returned")
    return go


minnorm(False)
minnorm(True)
