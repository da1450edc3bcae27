"""C01: the components of a product point to their part of its storage, with the shape and kind they have in the source.

One arbitrary component J of one arbitrary type I, one arbitrary dimension D < 3 and one arbitrary type boundary Q are followed.
Elements have three dimensions; the components of one type have one shape (established by the constructors)."""
from dv import *
from world import *
from spec_prod import PAPI


class Pow(ZArr):
    def read(self, rt, i):
        return powof(rt, self.base, i)


def powof(rt, nm, i):
    i = S.of(i)
    if i.isconst() and i.cval() == 0:
        return S.of(0)
    r = ack(rt, nm, i, isint=True)
    rt.fact(le(0, r))
    seen = rt.__dict__.setdefault("pw", {}).setdefault(nm, [])
    if not any(q.eq(i) for q in seen):
        for q in seen:
            a, b = fn(nm, i, isint=True), fn(nm, q, isint=True)
            rt.fact(Imp(le(i, q), le(a, b)))
            rt.fact(Imp(le(q, i), le(b, a)))
        seen.append(i)
    return r


class CTokCell:
    def __init__(self, t):
        self.comps, self.j = t.comps, t.j

    def get(self):
        self.comps.rt.goal(eqc(self.comps.rd("st", self.j), 1), "the counter of a component is alive")
        return S.of(1) + self.comps.rd("dec", self.j)

    def set(self, v):
        self.comps.wr("dec", self.j, v - 1)


class CTok:
    """counter of component j"""

    def __init__(self, comps, j):
        self.comps, self.j = comps, j

    def cmp(self, op, b):
        if b is None:
            return op == "!="
        raise Unsupported("comparison of counters")

    def deref(self):
        return CTokCell(self)

    def snapkey(self):
        return ("ctok", id(self.comps), self.j)

    def havoc(self, rt, nm):
        return self


class CSize:
    def __init__(self, comps, j):
        self.comps, self.j = comps, j

    def index(self, d):
        return Cell(self.comps.size(self.j, d))

    def cmp(self, op, b):
        if b is None:
            return op == "!="
        raise Unsupported("comparison of size arrays")


class Comps:
    KEYS = ("st", "hs", "off", "len", "cx", "nt", "szD", "szown", "dec")

    def __init__(self, rt, nm, n, fresh=False):
        self.rt, self.nm, self.n = rt, nm, n
        self.o = Obj("comps", rt)
        for k in self.KEYS:
            init = (lambda i, v=S.of({"szown": 1}.get(k, 0)): v) if fresh or k == "dec" else None
            self.o.f[k] = ZPtr(rt, Buf(ZArr("%s.%s" % (nm, k), (), init, "int"), "%s.%s" % (nm, k), n))
        self.deleted = False
        rt.objs.append(self.o)

    def b(self, k):
        return self.o.f[k].buf

    def rd(self, k, j):
        self.rt.bounds(self.b(k), j, "access to a component")
        return self.at(k, j)

    def at(self, k, j):
        v = self.b(k).a.read(self.rt, j)
        if k in ("st", "hs", "cx"):
            self.rt.fact(And(le(0, v), le(v, 2 if k == "st" else 1)))
        if k == "len":
            self.rt.fact(le(0, v))
        return v

    def wr(self, k, j, v):
        self.rt.bounds(self.b(k), j, "access to a component")
        self.b(k).a = self.b(k).a.store(j, S.of(v))

    def size(self, j, d):
        """sizes of component j; the followed dimension is D"""
        rt = self.rt
        v = ack(rt, self.nm + ".size", j, d, isint=True)
        rt.fact(Imp(eqc(d, rt.D), eqc(v, self.rd("szD", j))))
        return v

    def index(self, j):
        return Comp(self.rt, self, S.of(j))

    def cmp(self, op, b):
        if b is None:
            return op == "!="
        return (b is self) == (op == "==")

    def snapkey(self):
        return ("comps", self.nm)

    def havoc(self, rt, nm):
        return self


class Comp(Obj):
    def __init__(self, rt, c, j):
        super().__init__("Element", rt)
        self.c, self.j = c, j

    def default_(self, name):
        f = getattr(self, "m_" + name, None)
        return (lambda rt, o, a: f(*[val(x) for x in a])) if f else None

    @property
    def default(self):
        return self.default_

    @default.setter
    def default(self, v):
        pass

    def m_Getlength(self):
        return self.c.rd("len", self.j)

    def m_Getiscomplex(self):
        return eqc(self.c.rd("cx", self.j), 1)

    def m_Getls(self):
        return S.of(3)

    def m_Getnumoftypes(self):
        return self.c.rd("nt", self.j)

    def m_Getsize(self):
        return CSize(self.c, self.j)

    def m_Getpowsinterval(self):
        return Opaque("inner powsinterval")

    def m_Getelements(self):
        return Opaque("inner elements")

    def m_Getnumofelements(self):
        return var(self.rt.newname("inner.n"), isint=True)

    def m_GetSharedTimes(self):
        return None if self.rt.decide(eqc(self.c.rd("st", self.j), 0)) else CTok(self.c, self.j)

    def m_Setiscomplex(self, b):
        self.c.wr("cx", self.j, self.rt.ite(self.rt.tocond(b), S.of(1), S.of(0), True))

    def m_ResetMultiElementsParams(self, *a):
        # one level down: by induction on the nesting
        if self.c.rd("nt", self.j).iszero():
            pass
        self.rt.inner = self.j

    def m_SetByParams(self, *a):
        c, j, rt = self.c, self.j, self.rt
        if len(a) == 5:
            sz, ls, ln, cnt, sp = a
            rt.goal(eqc(c.rd("szown", j), 0), "the size array of the new component is not lost")
            rt.goal(eqc(ls, 3), "three dimensions")
            c.wr("len", j, ln)
            c.wr("szD", j, sz.buf.a.read(rt, sz.off + rt.D))
        else:
            cnt, sp = a
        st = c.rd("st", j)
        if isinstance(cnt, CTok):
            rt.goal(And(cnt.comps is c, eqc(cnt.j, j), eqc(st, 1)), "a component keeps its own counter")
        else:
            rt.goal(Or(eqc(st, 0), eqc(st, 2)), "the counter of the component is not lost")
            if cnt is None:
                c.wr("st", j, 0)
            else:
                rt.goal(eqc(cnt.buf.a.read(rt, cnt.off), 1), "the counter of a component is one")
                rt.goal(not getattr(cnt.buf, "name", "").startswith("taken") and not cnt.buf.freed, "every component has its own counter")
                cnt.buf.name = "taken counter"
                c.wr("st", j, 1)
        if sp is None:
            c.wr("hs", j, 0)
        else:
            rt.goal(sp.buf is rt.o.f["Space"].buf, "a component points into the storage of the product")
            c.wr("hs", j, 1)
            c.wr("off", j, sp.off)

    def m_DeleteBySettingNull(self):
        self.c.wr("hs", self.j, 0)
        self.c.wr("st", self.j, 0)


class NullSpace:
    pass


def off(rt, j):
    """entries before component j"""
    j = S.of(j)
    if j.isconst() and j.cval() == 0:
        return S.of(0)
    return ack(rt, "Off", j, isint=True)


def step(rt, j):
    rt.fact(eqc(off(rt, j + 1), off(rt, j) + rt.inc.at("len", j)))


def eqs(rt):
    """component J has the same shape and kind in both"""
    a, b, J = rt.own, rt.inc, rt.J
    return And(*[eqc(a.at(k, J), b.at(k, J)) for k in ("len", "cx", "nt", "szD")])


def setto(rt, J):
    c = cur(rt)
    out = [eqc(c.at("hs", J), 1 if rt.space else 0), eqc(c.at("st", J), 1 if rt.space else 0)]
    if rt.space:
        out.append(eqc(c.at("off", J), off(rt, J)))
    if c is not rt.own:
        out += [eqc(c.at(k, J), rt.inc.at(k, J)) for k in ("len", "cx", "szD")]
    return And(*out)


def cur(rt):
    return rt.o.f["elements"]


def curpow(rt, i):
    p = rt.o.f["powsinterval"]
    if isinstance(p.buf.a, Pow):
        return p.buf.a.read(rt, i)
    v = p.buf.a.read(rt, i)
    return v


def shiftis(rt, k):
    return eqc(rt.L("shift"), off(rt, k) if rt.space else S.of(0))


def touch(rt, i):
    for k in (i, i + 1, rt.I, rt.I + 1, rt.nt):
        powof(rt, "inpow", k)
    # every type of a product has at least one component
    rt.fact(Imp(And(le(0, i), lt(i, rt.nt)), lt(powof(rt, "inpow", i), powof(rt, "inpow", i + 1))))


def types(rt):
    i = rt.L("i")
    touch(rt, i)
    ipow = lambda k: powof(rt, "inpow", k)
    return [("range", And(le(0, i), le(i, rt.nt))), ("component", Imp(lt(rt.I, i), setto(rt, rt.J))), ("shift", shiftis(rt, ipow(i)))] + untouched(rt, i)


def untouched(rt, i, j=None):
    """components not reached yet are new (third case)"""
    c = cur(rt)
    J = rt.J
    if c is rt.own:
        return [("counter alive", And(le(0, c.at("st", J)), le(c.at("st", J), 1)))]
    n = le(i, rt.I) if j is None else Or(lt(i, rt.I), And(eqc(i, rt.I), le(j, J)))
    return [("later components are new", Imp(n, And(eqc(c.at("st", J), 0), eqc(c.at("szown", J), 1))))]


def comps(rt):
    i, j = rt.L("i"), rt.L("j")
    touch(rt, i)
    ipow = lambda k: powof(rt, "inpow", k)
    return [("range", And(le(0, i), lt(i, rt.nt))), ("range j", And(le(ipow(i), j), le(j, ipow(i + 1)))),
            ("component", Imp(Or(lt(rt.I, i), And(eqc(rt.I, i), lt(rt.J, j))), setto(rt, rt.J))), ("shift", shiftis(rt, j))] + untouched(rt, i, j)


def powfacts(rt):
    """the boundaries of the types are those of the source: proved for the arbitrary boundary Q, used at others"""
    i = rt.L("i")
    touch(rt, i)
    if not isinstance(rt.o.f["powsinterval"].buf.a, Pow) or rt.o.f["powsinterval"].buf.a.base != "inpow":
        rt.goal(eqc(curpow(rt, rt.Q), powof(rt, "inpow", rt.Q)), "boundaries of the types are those of the source")
        for k in (i, i + 1, rt.I, rt.I + 1, rt.nt):
            rt.fact(Imp(And(le(0, k), le(k, rt.nt)), eqc(curpow(rt, k), powof(rt, "inpow", k))))


def compfacts(rt):
    powfacts(rt)
    j = rt.L("j")
    if cur(rt) is rt.own and rt.own is not rt.inc:
        rt.goal(eqs(rt), "components have the shape and kind of the source")
        rt.fact(Imp(And(le(0, j), lt(j, rt.n)), eqc(rt.own.at("len", j), rt.inc.at("len", j))))
    step(rt, j)
    if cur(rt) is rt.own:      # J arbitrary: the counters of all components are alive
        st = rt.own.at("st", j)
        rt.fact(Imp(And(le(0, j), lt(j, rt.n)), And(le(0, st), le(st, 1))))
    if cur(rt) is not rt.own:
        # J arbitrary: a component not reached yet is new; and the components of a type have the shape of its first one
        c = cur(rt)
        i = rt.L("i")
        rt.fact(Imp(And(le(0, j), lt(j, rt.n)), And(eqc(c.at("st", j), 0), eqc(c.at("szown", j), 1))))
        first = powof(rt, "inpow", i)
        rt.fact(Imp(And(le(first, j), lt(j, powof(rt, "inpow", i + 1))), eqc(rt.inc.at("szD", j), rt.inc.at("szD", first))))


def entry0(rt):
    rt.fact(eqc(off(rt, S.of(0)), 0))
    powfacts(rt)


def entry1(rt):
    powfacts(rt)


def issame(rt):
    return rt.tocond(rt.L("issamesize"))


def cmp0(rt):
    i = rt.L("i")
    return [("range", And(le(0, i), le(i, rt.n))), ("compared", Imp(issame(rt), Imp(lt(rt.J, i), eqs(rt))))]


def cmp1(rt):
    i, j = rt.L("i"), rt.L("j")
    return [("range", And(le(0, i), lt(i, rt.n))), ("range j", And(le(0, j), le(j, 3))), ("compared", Imp(issame(rt), And(Imp(lt(rt.J, i), eqs(rt)), Imp(lt(rt.D, j), eqc(rt.own.at("szD", i), rt.inc.at("szD", i))))))]


def cmp2(rt):
    i = rt.L("i")
    return [("range", And(le(0, i), le(i, rt.nt + 1))), ("compared", Imp(issame(rt), And(eqs(rt), Imp(lt(rt.Q, i), eqc(powof(rt, "ownpow", rt.Q), powof(rt, "inpow", rt.Q))))))]


def newpow(rt):
    i = rt.L("i")
    p = rt.o.f["powsinterval"]
    return [("range", And(le(0, i), le(i, rt.nt + 1))), ("copied", Imp(lt(rt.Q, i), eqc(p.buf.a.read(rt, rt.Q), powof(rt, "inpow", rt.Q)))), ("room", eqc(p.buf.n, rt.nt + 1))]


def newsize(rt):
    i, j = rt.L("i"), rt.L("j")
    p = rt.L("isize")
    first = powof(rt, "inpow", i)
    return [("range j", And(le(0, j), le(j, 3))), ("sizes", Imp(lt(rt.D, j), eqc(p.buf.a.read(rt, p.off + rt.D), rt.inc.at("szD", first)))), ("room", eqc(p.buf.n, 3)), ("offset", eqc(p.off, 0))]


def newsize_state(rt):
    powfacts(rt)


def firstin(rt):
    """component that carries the sizes of the type exists when the type is not empty"""


FN = ("Element", "ResetMultiElementsParams")
INVS = {FN + (0,): Inv(types, entry=entry0, assume=powfacts), FN + (1,): Inv(comps, entry=entry1, assume=compfacts),
        FN + (2,): Inv(cmp0), FN + (3,): Inv(cmp1), FN + (4,): Inv(cmp2),
        FN + (5,): Inv(types, entry=entry0, assume=powfacts), FN + (6,): Inv(comps, entry=entry1, assume=compfacts),
        FN + (7,): Inv(newpow), FN + (8,): Inv(types, entry=entry0, assume=powfacts), FN + (9,): Inv(newsize, assume=powfacts),
        FN + (10,): Inv(comps, entry=entry1, assume=compfacts)}


def ondelete(rt, v):
    if isinstance(v, CTok):
        rt.goal(eqc(v.comps.rd("st", v.j), 1), "a counter is freed once")
        v.comps.wr("st", v.j, 2)
    elif isinstance(v, CSize):
        rt.goal(eqc(v.comps.rd("szown", v.j), 1), "a size array is freed once")
        v.comps.wr("szown", v.j, 0)
    elif isinstance(v, Comps):
        rt.goal(not v.deleted, "components are freed once")
        v.deleted = True


def setup(rt, space, own, same=False):
    rt.elemapi = PAPI()
    rt.cong = True
    rt.checkbounds = True
    rt.space = space
    rt.hooks["delete"] = ondelete
    o = rt.o = rt.this = Obj("Element", rt)
    rt.objs.append(o)
    rt.D, rt.Q, rt.I, rt.J = (var(k, isint=True, nonneg=True) for k in "DQIJ")
    rt.nt = var("numoftypes", isint=True, pos=True)
    rt.fact(lt(rt.D, 3))
    rt.fact(eqc(ack(rt, "Off", S.of(0), isint=True), 0))
    for q in ("inpow", "ownpow"):
        rt.fact(eqc(ack(rt, q, S.of(0), isint=True), 0))
    rt.fact(le(rt.Q, rt.nt))
    rt.fact(lt(rt.I, rt.nt))
    ip = lambda i: powof(rt, "inpow", i)
    rt.n = ip(rt.nt)
    rt.fact(And(le(ip(rt.I), rt.J), lt(rt.J, ip(rt.I + 1))))
    rt.inp = ZPtr(rt, Buf(Pow("inpow", (), None, "int"), "source powsinterval", rt.nt + 1))
    rt.inc = Comps(rt, "in", rt.n)
    o.f["Space"] = ZPtr(rt, Buf(ZArr("data"), "data", off(rt, rt.n))) if space else None
    if same:
        rt.own = rt.inc
        o.f["powsinterval"], o.f["elements"], o.f["numoftypes"], o.f["numofelements"] = rt.inp, rt.inc, rt.nt, rt.n
    elif own:
        nt2 = var("own.numoftypes", isint=True, pos=True)
        n2 = powof(rt, "ownpow", nt2)
        rt.own = Comps(rt, "own", n2)
        o.f["powsinterval"], o.f["elements"] = ZPtr(rt, Buf(Pow("ownpow", (), None, "int"), "powsinterval", nt2 + 1)), rt.own
        o.f["numoftypes"], o.f["numofelements"] = nt2, n2
    else:
        rt.own = None
        o.f["powsinterval"] = o.f["elements"] = None
        o.f["numoftypes"] = o.f["numofelements"] = S.of(0)
    rt.deletedown = []

    def delmulti(rt_, o_, a):
        rt.deletedown.append(1)
        o.f["numoftypes"] = o.f["numofelements"] = S.of(0)
    o.contracts["DeleteMultiElements"] = delmulti
    if rt.own is not None:
        rt.fact(And(le(0, rt.own.rd("st", rt.J)), le(rt.own.rd("st", rt.J), 1))) if rt.own is rt.inc else rt.fact(Imp(lt(rt.J, rt.own.n), And(le(0, ack(rt, "own.st", rt.J, isint=True)), le(ack(rt, "own.st", rt.J, isint=True), 1))))

    def newarray(ty, cnt):
        if ty == "Element":
            return Comps(rt, rt.newname("newcomps"), cnt, fresh=True)
        return DRT.newarray(rt, ty, cnt)
    rt.newarray = newarray


def done(rt):
    o = rt.o
    rt.goal(eqc(o.f["numoftypes"], rt.nt), "number of types")
    rt.goal(eqc(o.f["numofelements"], rt.n), "number of components")
    rt.goal(eqc(curpow(rt, rt.Q), powof(rt, "inpow", rt.Q)), "boundaries of the types")
    rt.goal(setto(rt, rt.J), "the component points to its part of the storage")
    c = cur(rt)
    if c is not rt.inc:
        for k in ("len", "cx", "szD"):
            rt.goal(eqc(c.rd(k, rt.J), rt.inc.rd(k, rt.J)), "%s of the component" % k)
        rt.goal(c is rt.own or len(rt.deletedown) == 1, "previous components are freed when they are replaced")
        rt.goal(c is not rt.own or not rt.deletedown, "components in use are not freed")


def mk_(nm, space, own, same):
    @dvob("C01", "Element::ResetMultiElementsParams, %s, storage %s" % (nm, "there" if space else "empty"), "elem", invs=INVS)
    def o(rt):
        setup(rt, space, own, same)
        f = rt.prog.fns[FN][0]
        rt.run(f, rt.o, [rt.inp, rt.nt, rt.inc, rt.n])
        done(rt)


mk_("its own components", True, True, True)
for space in (True, False):
    mk_("components of another product", space, True, False)
    mk_("from a plain element", space, False, False)


@dvob("C01", "Element::ResetMultiElementsParams, from a source that is no product", "elem", invs=INVS, minok=2)
def reset0(rt):
    setup(rt, True, rt.decide(batom("product")))
    rt.run(rt.prog.fns[FN][0], rt.o, [None, S.of(0), None, S.of(0)])
    rt.goal(len(rt.deletedown) == 1, "previous components are freed")
    rt.goal(eqc(rt.o.f["numoftypes"], 0) and eqc(rt.o.f["numofelements"], 0) and rt.o.f["elements"] is None and rt.o.f["powsinterval"] is None, "no components")
