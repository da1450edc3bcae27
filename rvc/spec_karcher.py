"""C16: Karcher mean of num positive definite matrices A_i = L_i L_i'.

One term at a time: cost |log S_i|^2 with S_i = L_i^-1 x L_i^-T, gradient L_i^-T log(S_i) L_i' x^-1, Hessian L_i^-T Dlog(S_i)[L_i^-1 E L_i^-T]
L_i' x^-1 - EGrad E x^-1, where Dlog(S)[D] = U (Z o (U' D U)) U' with the divided differences Z of the logarithm at the eigenvalues
(formula of Daleckii and Krein). The sums over the matrices are by induction; the entries of Z for an arbitrary position."""
from dv import *
from world import *
import dv
from elemapi import ElemAPI
from alg import ONE
from elemapi import logsym, inverse


def Lm(rt, i):
    return M.sym(opaque("Ls", (i,), rt.n, rt.n))


def Wm(rt, i):
    """log(L_i^-1 x L_i^-T)"""
    return M.sym(opaque("logLXL", (i,), rt.n, rt.n, symm=1))


def Um(rt, i):
    return M.sym(opaque("EigVec", (i,), rt.n, rt.n))


def lam(i, k):
    return fn("eigval", i, k)


class Comp(Elem):
    """component of a stack of symbolic length: knows which one it is"""


def comp(rt, m, i, kind):
    e = Comp(m.r, m.c, S.of(1))
    e.setval(m, m.r, m.c)
    e.which, e.kind = i, kind
    return e


class Stack(Elem):
    """Element with num components"""


class API(dv.DElemAPI):
    def m_GetElement(self, rt, e, i):
        i = num_(i)
        rt.goal(And(le(0, i), lt(i, rt.cnt)), "the component exists")
        if e.name == "Ls":
            return comp(rt, Lm(rt, i), i, "Ls")
        if not hasattr(e, "written") and e.num.eq(rt.cnt):
            return comp(rt, Wm(rt, i), i, "W")
        if hasattr(e, "written"):
            for k, c in e.written:
                if k.eq(i):
                    return c
            c = Comp(rt.n, rt.n, S.of(1))
            c.which, c.kind = i, "out"
            e.written.append((i, c))
            return c
        raise Unsupported("component of " + str(e.name))

    def m_NewMemoryOnWrite(self, rt, e):
        if hasattr(e, "written"):
            return None
        return super().m_NewMemoryOnWrite(rt, e)

    def m_Field(self, rt, e, name):
        i = getattr(e, "which", None)
        if getattr(e, "kind", None) == "W" and i is not None:
            if name == "_EigVec":
                return comp(rt, Um(rt, i), i, "U")
            if name == "_EigVal":
                v = Elem(rt.n, S.of(1), S.of(1))
                v.name = "eigenvalues"
                v.arr = Arr(None)
                v.arr.extra = Buf(ZArr("eigval", (), lambda k: lam(i, k)), "eigenvalues", rt.n)
                return v
        return super().m_Field(rt, e, name)

    def m_LogSym(self, rt, e, *a):
        w = e.val()
        r = self.new(logsym(w), e)
        e.fields["_EigVec"] = self.new(M.sym(opaque("V", (w,), rt.n, rt.n)), e)
        e.fields["_EigVal"] = self.new(M.sym(opaque("D", (w,), rt.n, S.of(1))), e)
        return r

    def m_DotProduct(self, rt, e, X):
        if hasattr(e, "written") and el(X) is e:
            return var("sum of squares", nonneg=True)
        return super().m_DotProduct(rt, e, X)


def mk(rt):
    rt.n = n = var("n", isint=True, pos=True)
    rt.cnt = cnt = var("num", isint=True, pos=True)
    rt.N = n
    rt.elemapi = API()
    Ls = Elem(n, n, cnt)
    Ls.name = "Ls"
    o = Obj("SPDKarcherMean", rt, Ls=Ls, n=n, num=cnt)
    rt.objs.append(o)
    z = sym("Lx", n, n)
    z.tags.add("lowerpos")
    rt.Lx = M.sym(z)
    return o


def el_(m, nm):
    e = Elem(m.r, m.c, S.of(1))
    e.name = nm
    e.setval(m, m.r, m.c)
    return e


def PS(rt, i):
    return M.sym(opaque("partial sum", (i,), rt.n, rt.n))


def square(rt, *names):
    """scratch matrices hold n by n values (any)"""
    for nm in names:
        rt.local(nm).setval(M.sym(sym(rt.newname(nm), rt.n, rt.n)), rt.n, rt.n)


def still(rt, *names):
    for nm in names:
        e = rt.local(nm)
        rt.goal(And(eqc(e.r, rt.n), eqc(e.c, rt.n)), "size of the scratch matrices")


def suminv(term, *scratch):
    def conds(rt):
        i = rt.L("i")
        return [("i", And(le(0, i), le(i, rt.cnt)))]

    def entry(rt):
        rt.goal(eqc(rt.L("i"), 0), "the sum starts at the first matrix")
        rt.goaleq(rt.out, M.zero(rt.n, rt.n), "the sum starts at zero")

    def state(rt):
        rt.out.setval(PS(rt, rt.L("i")), rt.n, rt.n)
        rt.i = rt.L("i")
        square(rt, *scratch)

    def ghost(rt):
        still(rt, *scratch)
        rt.goaleq(rt.out, PS(rt, rt.i) + term(rt, rt.i), "the next partial sum adds the term")
        rt.goal(eqc(rt.L("i"), rt.i + 1), "goes to the next matrix")
    return Inv(conds, None, ghost=ghost, entry=entry, state=state)


# ------------------------------------------------------------------ cost
def fstate(rt):
    rt.i = rt.L("i")
    rt.stack.written = []
    square(rt, "tmp1", "tmp2")


def fghost(rt):
    w = rt.stack.written
    still(rt, "tmp1", "tmp2")
    rt.goal(len(w) == 1 and w[0][0].eq(rt.i), "one component is written, the one of the counter")
    c = w[0][1]
    Z = inverse(Lm(rt, rt.i)) * rt.Lx
    A = Z * Z.T
    rt.goaleq(c, logsym(A), "the component is log(L_i^-1 x L_i^-T)")
    rt.goaleq(c.fields["_EigVec"], M.sym(opaque("V", (A,), rt.n, rt.n)), "eigenvectors of L_i^-1 x L_i^-T are attached")
    rt.goaleq(c.fields["_EigVal"], M.sym(opaque("D", (A,), rt.n, S.of(1))), "eigenvalues are attached")
    rt.goal(eqc(rt.L("i"), rt.i + 1), "goes to the next matrix")


def inrange(rt):
    i = rt.L("i")
    return [("i", And(le(0, i), le(i, rt.cnt)))]


@dvob("C16", "SPDKarcherMean::f: sum of the squared norms of log(L_i^-1 x L_i^-T) over 2 num", "prob",
      invs={("SPDKarcherMean", "f", 0): Inv(inrange, state=fstate, ghost=fghost, entry=lambda rt: rt.goal(eqc(rt.L("i"), 0), "starts at the first matrix"))})
def cost(rt):
    o = mk(rt)

    def ctor(rt_, nd):
        if len(nd.ch) != 3:
            return None
        a = [val(z) for z in rt_.args(nd.ch)]
        if not isinstance(a[1], Ptr):
            return None
        s = Stack(rt.n, rt.n, S.of(1))
        s.name = "SharedLXL"
        s.written = []
        rt.goaleq(num_(a[2]), rt.cnt, "one component for every matrix")
        rt.stack = s
        return s
    rt.hooks["construct"] = {"Vector": ctor, "Element": ctor}
    x = el_(rt.Lx * rt.Lx.T, "x")
    if rt.decide(batom("factor attached")):
        x.fields["_L"] = el_(rt.Lx, "_L")
    api = rt.elemapi
    add = api.m_AddToFields

    def addf(rt_, e, name, X):
        X = el(X)
        if X is getattr(rt, "stack", None):
            rt.attached = (e, api.fieldget(rt_, e, name))
            return None
        return add(rt_, e, name, X)
    api.m_AddToFields = addf
    v = S.of(rt.tonum(reach(rt, o, "f", x)))
    rt.goaleq(rt.i, rt.cnt, "all matrices are used")
    rt.goaleq(v * rt.cnt * 2, var("sum of squares", nonneg=True), "value")
    rt.goal(rt.attached[0] is x and rt.attached[1] == "logLXL", "the logarithms are attached to the point")
    rt.goaleq(x, rt.Lx * rt.Lx.T, "the point is kept")


# ------------------------------------------------------------------ gradient
def gradterm(rt, i):
    L = Lm(rt, i)
    return inverse(L).T * Wm(rt, i) * L.T


@dvob("C16", "SPDKarcherMean::EucGrad: (1/num) sum of L_i^-T log(S_i) L_i' times x^-1", "prob",
      invs={("SPDKarcherMean", "EucGrad", 0): suminv(gradterm, "tmp")})
def grad(rt):
    o = mk(rt)
    x = el_(rt.Lx * rt.Lx.T, "x")
    x.fields["_L"] = el_(rt.Lx, "_L")
    w = Elem(rt.n, rt.n, rt.cnt)
    w.name = "logLXL"
    w.setval(M.sym(sym("all", rt.n, rt.n)), rt.n, rt.n)
    x.fields["logLXL"] = w
    rt.out = r = el_(M.sym(sym("old", rt.n, rt.n)), "result")
    reach(rt, o, "EucGrad", x, Ptr(r))
    rt.goaleq(rt.i, rt.cnt, "all matrices are used")
    X1 = inverse(rt.Lx).T * inverse(rt.Lx)
    rt.goaleq(r.val().scale(rt.cnt), PS(rt, rt.i) * X1, "gradient")
    rt.goaleq(x, rt.Lx * rt.Lx.T, "the point is kept")


# ------------------------------------------------------------------ Hessian
def zinv(depth):
    """entries of Z in front of the counters are the divided differences, at an arbitrary position (J, K)"""
    def dd(rt):
        g = rt.g
        z, a, b = rt.zbuf.a.read(rt, g["J"] + g["K"] * rt.n), lam(rt.i, g["J"]), lam(rt.i, g["K"])
        return And(Imp(eqc(a, b), eqc(z * a, 1)), Imp(Not(eqc(a, b)), eqc(z * (a - b), fn("log", a) - fn("log", b))))

    def conds(rt):
        g = rt.g
        j = rt.L("j")
        if depth == 1:
            return [("j", And(le(0, j), le(j, rt.n))), ("rows done", Imp(lt(g["J"], j), dd(rt)))]
        k = rt.L("k")
        return [("j", And(le(0, j), lt(j, rt.n))), ("k", And(le(0, k), le(k, rt.n))),
                ("entries done", Imp(Or(lt(g["J"], j), And(eqc(g["J"], j), lt(g["K"], k))), dd(rt)))]

    def state(rt):
        g = rt.g
        n, J, K = rt.n, g["J"], g["K"]
        j = rt.L("j")
        if depth == 2:
            k = rt.L("k")
            rt.fact(Imp(And(le(0, k), lt(k, n)), And(le(k * n + n, n * n), le(0, k * n))))
            for p, q in ((k, K), (K, k)):
                rt.fact(Imp(lt(p, q), le(p * n + n, q * n)))
            rt.fact(Imp(eqc(k, K), eqc(k * n, K * n)))
            for p in (j, k):
                rt.fact(lt(0, lam(rt.i, p)))
                for q in (J, K):
                    rt.fact(Imp(eqc(p, q), And(eqc(lam(rt.i, p), lam(rt.i, q)), eqc(fn("log", lam(rt.i, p)), fn("log", lam(rt.i, q))))))
        rt.fact(And(lt(0, lam(rt.i, J)), lt(0, lam(rt.i, K))))
    return Inv(conds, state=state), dd


def dlog(rt, i, D):
    """derivative of the logarithm at S_i in direction D"""
    U = Um(rt, i)
    return U * had(rt, i, U.T * D * U) * U.T


def had(rt, i, H):
    """Z_i o H, linear in H"""
    r = M.zero(rt.n, rt.n)
    for w, c in H.t.items():
        r = r + M.sym(opaque("Z o", (i, M(H.r, H.c, {w: ONE})), rt.n, rt.n)).scale(c)
    return r


def hessterm(rt, i):
    L = Lm(rt, i)
    Z = inverse(L)
    return Z.T * dlog(rt, i, Z * rt.E * Z.T) * L.T


Z1, DD = zinv(1)
Z2, _ = zinv(2)


class HAPI(API):
    def m_ObtainWriteEntireData(self, rt, e):
        p = super().m_ObtainWriteEntireData(rt, e)
        if isinstance(p, ZPtr):
            rt.zbuf = p.buf
        return p

    def m_GetHadamardProduct(self, rt, a, b):
        b = el(b)
        if isinstance(a.arr.extra, Buf):
            a, b = b, a
        if not isinstance(b.arr.extra, Buf) or b.arr.extra is not rt.zbuf:
            raise Unsupported("entrywise product")
        rt.goal(DD(rt), "the other factor holds the divided differences of the logarithm")
        return self.new(had(rt, rt.i, a.val()), a)


@dvob("C16", "SPDKarcherMean::EucHessianEta: derivative of the gradient through the derivative of the logarithms", "prob",
      invs={("SPDKarcherMean", "EucHessianEta", 0): suminv(hessterm, "tmp", "tmp2", "H"),
            ("SPDKarcherMean", "EucHessianEta", 1): Z1, ("SPDKarcherMean", "EucHessianEta", 2): Z2})
def hess(rt):
    o = mk(rt)
    rt.elemapi = HAPI()
    rt.rawbuf = rt.checkbounds = rt.cong = True
    n = rt.n
    J, K = var("J", isint=True), var("K", isint=True)
    rt.g = dict(J=J, K=K)
    for c in (le(0, J), lt(J, n), le(0, K), lt(K, n), le(K * n + n, n * n), le(0, K * n)):
        rt.fact(c)
    x = el_(rt.Lx * rt.Lx.T, "x")
    w = Elem(n, n, rt.cnt)
    w.setval(M.sym(sym("all", n, n)), n, n)
    x.fields["logLXL"] = w
    G = M.sym(sym("EGrad", n, n))
    x.fields["EGrad"] = el_(G, "EGrad")
    E = rt.E = M.sym(sym("E", n, n, symm=1))
    e = el_(E, "etax")
    rt.out = r = el_(M.sym(sym("old", n, n)), "result")
    reach(rt, o, "EucHessianEta", x, e, Ptr(r))
    rt.goaleq(rt.i, rt.cnt, "all matrices are used")
    X1 = inverse(rt.Lx).T * inverse(rt.Lx)
    rt.goaleq(r.val().scale(rt.cnt), PS(rt, rt.i) * X1 - (G * E * X1).scale(rt.cnt), "Hessian")
    rt.goaleq(e, E, "the direction is kept")
