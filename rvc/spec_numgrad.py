"""C16: the gradient by differences, entry by entry, for points with any number of entries.

One arbitrary entry K is followed. At every call of the cost the point handed over is x with eps added to entry i (checked at the
arbitrary entry K, so in every entry), and nothing that belongs to another point is attached to it."""
from dv import *
from world import *
import dv


def instance(rt, i):
    """the point moved along: the entry about to be moved (the invariant holds for an arbitrary K, so for it too)"""
    a = rt.local("x_eps").arr.extra.a
    rt.fact(Imp(And(le(0, i), lt(i, rt.g["n"])), eqc(a.read(rt, i), fn("x", i))))


def same(rt, i):
    """functions of the index: equal at equal indices"""
    for a in ("x", "fp"):
        rt.fact(Imp(eqc(i, rt.g["K"]), eqc(fn(a, i), fn(a, rt.g["K"]))))


def point(rt):
    return rt.local("x_eps").arr.extra.a.read(rt, rt.g["K"])


def copied(rt):
    g = rt.g
    i = rt.L("i")
    return [("i", And(le(0, i), le(i, g["n"]))), ("copied", Imp(lt(g["K"], i), eqc(point(rt), fn("x", g["K"]))))]


def step(rt):
    if rt.g["h"] is None:
        rt.g["h"] = rt.L("_eps")
    return rt.g["h"]


def moved(rt):
    g = rt.g
    i, K = rt.L("i"), g["K"]
    return [("i", And(le(0, i), le(i, g["n"]))), ("the point is back at x", eqc(point(rt), fn("x", K))),
            ("difference quotient", Imp(lt(K, i), eqc(g["res"].arr.extra.a.read(rt, K) * step(rt), fn("fp", K) - var("fx"))))]


def st0(rt):
    same(rt, rt.L("i"))


def st(rt):
    same(rt, rt.L("i"))
    instance(rt, rt.L("i"))
    rt.local("x_eps").fields = {"data of another point": None}
    rt.g["i"] = rt.L("i")


class API(dv.DElemAPI):
    def m_ObtainWriteEntireData(self, rt, e):
        p = super().m_ObtainWriteEntireData(rt, e)
        p.buf.a = ZArr(rt.newname("undefined"))
        return p


@dvob("C16", "Problem::EucGrad (numerical): entry i is the difference quotient of the cost along entry i", "prob",
      invs={("Problem", "EucGrad", 0): Inv(copied, state=st0), ("Problem", "EucGrad", 1): Inv(moved, state=st)})
def numgrad(rt):
    rt.rawbuf = rt.checkbounds = rt.cong = True
    n, K = var("n", isint=True, pos=True), var("K", isint=True)
    rt.fact(le(0, K))
    rt.fact(lt(K, n))
    o = Obj("Problem", rt)
    rt.objs.append(o)
    rt.elemapi = API()

    def e(nm):
        v = Elem(n, S.of(1), S.of(1))
        v.name = nm
        v.arr = Arr(None)
        v.arr.extra = Buf(ZArr(nm), nm, n)
        return v
    x, r = e("x"), e("result")
    rt.g = g = dict(n=n, K=K, res=r, h=None, i=None)
    def f(rt_, o_, a):
        p = el(a[0])
        if p is x:
            return var("fx")
        rt.goal(not p.fields, "nothing attached to the point of another evaluation is kept")
        i = g["i"]
        v = p.arr.extra.a.read(rt, K)
        d = v - fn("x", K)
        if rt.decide(eqc(K, i)):
            rt.goal(lt(0, d), "entry i is moved")
            rt.goaleq(d, step(rt), "by the step of the quotient")
        else:
            rt.goaleq(d, 0, "the other entries are kept")
        p.fields = {"of this point": None}
        return fn("fp", i)
    o.contracts["f"] = f
    out = reach(rt, o, "EucGrad", x, Ptr(r))
    need(rt, el(out) is r, "returns the result")
    rt.goaleq(r.arr.extra.a.read(rt, K) * g["h"], fn("fp", K) - var("fx"), "entry K")
    rt.goal(x.arr.extra.a.w == () and x.arr.extra.a.base == "x", "x is left unchanged")
