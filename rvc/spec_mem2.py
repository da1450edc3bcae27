"""C01/C02: elements on top of the storage: attached data (the Fields map), components of a product, copies.

A map is a set of keys with one value each; one arbitrary key is followed, iteration visits the keys in some order. A product element
is an array of components (length, sizes, kind, memory, counter); one arbitrary component J of one arbitrary type I is followed."""
from dv import *
from world import *
from spec_prod import PAPI
from spec_mem import Han, onwrite, copied, unit, untouched, KINDS
import spec_mem


# ------------------------------------------------------------------ maps
class FVal(Elem):
    """value of an attached element (a number stands for all entries, shape and attached data)"""

    def __init__(self, rt, v=None, mp=None, key=None):
        super().__init__(1, 1, 1)
        self.rt, self.v_, self.mp, self.key = rt, v, mp, key
        self.name = "attached data"
        self.deleted = False

    def v(self):
        if self.mp is not None:
            return self.mp.val(self.key)
        return self.v_

    def copy(self):
        return FVal(self.rt, self.v())

    def assign(self, o):
        self.put(o.v())

    def put(self, v):
        if self.mp is not None:
            self.mp.setval(self.key, v)
        else:
            self.v_ = v

    def pmethod(self, rt, name, args):
        if name == "CopyTo":
            el(args[0]).put(self.v())
            return None
        raise Unsupported("attached element: " + name)


class MIter:
    def __init__(self, rt, mp, pos=None, key=None, order=None):
        self.rt, self.mp, self.pos, self.key_, self.order = rt, mp, pos, key, order

    def copyiter(self):
        return self

    def key(self):
        if self.pos is not None:
            self.rt.goal(And(le(0, self.pos), lt(self.pos, self.order.n)), "iterator is inside the map")
            return self.order.at(self.pos)
        return self.key_

    def deref(self):
        if self.key_ == "end" or self.mp is None:
            self.rt.goal(False, "end of the map dereferenced")
        k = self.key()
        self.rt.goal(self.mp.has(k), "iterator points to an entry of the map")
        return MPair(self.rt, self.mp, k)

    def advance(self, k):
        if self.pos is None:
            raise Unsupported("iterator of a search is advanced")
        self.rt.goal(self.mp.has(self.key()), "advance of an iterator whose entry was removed")
        return MIter(self.rt, self.mp, self.pos + k, None, self.order)

    def cmp(self, op, b):
        a = self
        if a.key_ == "end":
            a, b = b, a
        if b.key_ != "end":
            raise Unsupported("comparison of map iterators")
        c = eqc(a.pos, a.order.n) if a.pos is not None else (True if a.key_ == "end" else Not(a.mp.has(a.key_)))
        return c if op == "==" else Not(c)

    def havoc(self, rt, nm):
        if self.pos is None:
            return self
        return MIter(rt, self.mp, var(rt.newname(nm), isint=True), None, self.order)

    def snapkey(self):
        return ("mit", self.pos if self.pos is not None else S.of(0), str(self.key_), id(self.order))


class MPair:
    def __init__(self, rt, mp, key):
        self.rt, self.mp, self.key = rt, mp, key

    def member(self, nm):
        if nm == "first":
            return Cell(self.key)
        return Ptr(FVal(self.rt, None, self.mp, self.key))


class Order:
    """order in which the keys of a map are visited"""

    def __init__(self, rt, mp, nm):
        self.rt, self.nm, self.n = rt, nm, mp.n
        self.has = mp.hasat()
        K = rt.K0
        self.posK = var(nm + ".posK", isint=True)
        h = self.has(K)
        rt.fact(Imp(h, And(le(0, self.posK), lt(self.posK, self.n), eqc(self.at(self.posK), K))))

    def at(self, p):
        k = ack(self.rt, self.nm, p, isint=True)
        self.rt.fact(Imp(And(le(0, p), lt(p, self.n)), self.has(k)))
        self.rt.fact(Imp(And(le(0, p), lt(p, self.n), eqc(k, self.rt.K0)), eqc(p, self.posK)))
        return k


class FMap:
    """std::map from names to attached elements"""

    def __init__(self, rt, nm):
        self.rt, self.nm = rt, nm
        self.o = Obj("map", rt)
        self.o.f["has"] = ZPtr(rt, Buf(ZArr(nm + ".has", (), None, "int"), nm + ".has"))
        self.o.f["val"] = ZPtr(rt, Buf(ZArr(nm + ".val"), nm + ".val"))
        self.o.f["n"] = var(nm + ".n", isint=True, nonneg=True)
        self.o.types = {"n": "integer"}
        rt.objs.append(self.o)
        self.onsize = None
        self.deleted = []

    @property
    def n(self):
        return self.o.f["n"]

    def hasat(self):
        a = self.o.f["has"].buf.a

        def has(k):
            v = a.read(self.rt, self.k(k))
            self.rt.fact(Or(eqc(v, 0), eqc(v, 1)))
            return eqc(v, 1)
        return has

    def k(self, k):
        if isinstance(k, (str, Opaque)):
            return var("name:%s" % k, isint=True)
        return S.of(k)

    def has(self, k):
        return self.hasat()(k)

    def val(self, k):
        return self.o.f["val"].buf.a.read(self.rt, self.k(k))

    def setval(self, k, v):
        b = self.o.f["val"].buf
        b.a = b.a.store(self.k(k), S.of(v))

    def add(self, k, v):
        h = self.has(k)
        b = self.o.f["has"].buf
        b.a = b.a.store(self.k(k), S.of(1))
        self.setval(k, v)
        self.o.f["n"] = self.n + self.rt.ite(h, S.of(0), S.of(1), True)

    def remove(self, k):
        h = self.has(k)
        b = self.o.f["has"].buf
        b.a = b.a.store(self.k(k), S.of(0))
        self.o.f["n"] = self.n - self.rt.ite(h, S.of(1), S.of(0), True)

    def method(self, rt, name, a):
        a = [x.get() if isinstance(x, (Cell, FieldCell)) else x for x in a]
        if name == "find":
            return MIter(rt, self, None, self.k(a[0]))
        if name in ("end", "cend"):
            return MIter(rt, self, None, "end")
        if name in ("begin", "cbegin"):
            return MIter(rt, self, S.of(0), None, Order(rt, self, rt.newname(self.nm + ".key")))
        if name == "size":
            if self.onsize:
                self.onsize()
            return self.n
        if name == "insert":
            k, p = a[0]
            v = p.to if isinstance(p, Ptr) else p
            rt.goal(Not(self.has(k)), "insert of a key that is not there (the map keeps the old value otherwise)")
            rt.goal(v.mp is None, "the map owns its values")
            self.add(k, v.v())
            return None
        if name == "erase":
            k = a[0].key()
            rt.goal(self.has(k), "erase of an entry of the map")
            rt.goal(any(rt.fold(eqc(d, self.k(k))) is True for d in self.deleted), "the erased value was deleted")
            self.remove(k)
            return None
        if name == "clear":
            b = self.o.f["has"].buf
            b.a = ZArr(rt.newname(self.nm + ".empty"), (), lambda i: S.of(0), "int")
            self.o.f["n"] = S.of(0)
            return None
        raise Unsupported("map method " + name)

    def snapkey(self):
        return ("map", self.nm)

    def havoc(self, rt, nm):
        return self


def ondelete(rt, v):
    if isinstance(v, Ptr) and isinstance(v.to, FVal):
        f = v.to
        if f.mp is not None:
            k = f.mp.k(f.key)
            if any(rt.fold(eqc(d, k)) is True for d in f.mp.deleted):
                rt.goal(False, "a value is deleted twice")
            f.mp.deleted.append(k)
            if getattr(rt, "ondel", None):
                rt.ondel(f.mp, k)


def setup(rt):
    rt.elemapi = PAPI()
    rt.cong = rt.checkbounds = True
    rt.hooks["delete"] = ondelete
    rt.K0 = var("K0", isint=True)
    o = Obj("Element", rt)
    o.f["Fields"] = FMap(rt, "Fields")
    o.f["elements"] = None
    o.f["numofelements"] = o.f["numoftypes"] = S.of(0)
    rt.objs.append(o)
    rt.this = o
    rt.fields = o.f["Fields"]
    rt.has0, rt.val0 = rt.fields.has(rt.K0), rt.fields.val(rt.K0)
    return o


def run(rt, o, name, *a, sig=None):
    f = [g for g in rt.prog.fns[("Element", name)] if sig is None or sig in g.sig][0]
    return rt.run(f, o, list(a))


NAME = Opaque("some name")


def others(rt, m, k):
    rt.goal(Imp(Not(eqc(rt.K0, m.k(k))), And(Imp(m.has(rt.K0), rt.has0), Imp(rt.has0, m.has(rt.K0)), eqc(m.val(rt.K0), rt.val0))), "other attached data are kept")


for sg, nm in (("const Element &", "constant"), ("Element &", "variable")):
    def mk_(sg=sg, nm=nm):
        @dvob(["C01", "C02"], "Element::AddToFields (%s) attaches a copy, replacing data of the same name" % nm, "elem", minok=2)
        def o(rt):
            o = setup(rt)
            m = rt.fields
            t = FVal(rt, var("value"))
            fs = [g for g in rt.prog.fns[("Element", "AddToFields")] if ("const" in g.params[1][1]) == (nm == "constant")]
            rt.run(fs[0], o, [NAME, t])
            rt.goal(m.has(NAME), "the data are there")
            rt.goal(eqc(m.val(NAME), t.v_), "the data have the value given")
            rt.goal(eqc(t.v_, var("value")), "the value given is not changed")
            others(rt, m, NAME)
    mk_()


@dvob(["C01", "C02"], "Element::FieldsExist and Field return the data attached under the name", "elem", minok=2)
def fexist(rt):
    o = setup(rt)
    m = rt.fields
    h = m.has(NAME)
    r = rt.tocond(run(rt, o, "FieldsExist", NAME))
    rt.goaleq(r, h, "FieldsExist")
    if rt.decide(h):
        f = el(run(rt, o, "Field", NAME))
        rt.goal(f.mp is m and f.key.eq(m.k(NAME)), "Field returns the attached element itself")
    others(rt, m, "nothing")


@dvob(["C01", "C02"], "Element::RemoveFromFields removes and frees exactly the named data", "elem", minok=2)
def fremove(rt):
    o = setup(rt)
    m = rt.fields
    h = rt.decide(m.has(NAME))
    run(rt, o, "RemoveFromFields", NAME)
    rt.goal(Not(m.has(NAME)), "removed")
    rt.goal(len(m.deleted) == (1 if h else 0), "freed exactly once")
    others(rt, m, NAME)


# ---- RemoveAllFromFields: the map is emptied, each value freed, and so are the data of the components
def raf_inv0(rt):
    it = rt.L("thisiter")
    p, od = it.pos, it.order
    return [("position", And(le(0, p), le(p, od.n))), ("values before the position are freed", Imp(And(rt.has0, lt(od.posK, p)), eqc(rt.ghosts["freed"], 1))),
            ("values after it are not", Imp(Or(Not(rt.has0), le(p, od.posK)), eqc(rt.ghosts["freed"], 0))), ("map is not changed during the iteration", rt.fields.o.f["has"].buf.a is rt.m0)]


def raf_inv1(rt):
    i = rt.L("i")
    return [("range", And(le(0, i), le(i, rt.ne))), ("component", Imp(lt(rt.J, i), eqc(rt.comps.buf.a.read(rt, rt.J), 0)))]


class RComps:
    def __init__(self, rt, o):
        self.rt = rt
        self.o = Obj("comps", rt)
        self.buf = Buf(ZArr("component fields"), "component fields", o.f["numofelements"])
        self.o.f["cf"] = ZPtr(rt, self.buf)
        rt.objs.append(self.o)

    def index(self, j):
        rt = self.rt
        c = Obj("Element", rt)

        def removeall(rt_, o_, a):
            rt.bounds(self.buf, j, "access to a component")
            self.buf.a = self.buf.a.store(j, S.of(0))
        c.contracts["RemoveAllFromFields"] = removeall
        return c

    def cmp(self, op, b):
        if b is None:
            return op == "!="
        raise Unsupported("comparison of component arrays")

    def snapkey(self):
        return ("comps",)


for prod in (False, True):
    def mk_(prod=prod):
        @dvob(["C01", "C02"], "Element::RemoveAllFromFields frees every attached element%s" % (", also of the components of a product" if prod else ""), "elem",
              invs={("Element", "RemoveAllFromFields", 0): Inv(raf_inv0, state=lambda rt: None), ("Element", "RemoveAllFromFields", 1): Inv(raf_inv1)})
        def o(rt):
            o = setup(rt)
            rt.ghosts["freed"] = S.of(0)
            rt.ghost_ty["freed"] = "integer"

            def ondel(m, k):
                c = eqc(k, rt.K0)
                rt.goal(Imp(c, eqc(rt.ghosts["freed"], 0)), "no value is freed twice")
                rt.ghosts["freed"] = rt.ite(c, S.of(1), rt.ghosts["freed"], True)
                m.deleted = []
            rt.ondel = ondel
            rt.m0 = rt.fields.o.f["has"].buf.a
            rt.ne = var("numofelements", isint=True, pos=True)
            rt.J = var("J", isint=True, nonneg=True)
            rt.fact(lt(rt.J, rt.ne))
            if prod:
                o.f["numofelements"] = rt.ne
                rt.comps = o.f["elements"] = RComps(rt, o)
            run(rt, o, "RemoveAllFromFields")
            rt.goal(Not(rt.fields.has(rt.K0)), "no data are attached any more")
            rt.goal(eqc(rt.fields.n, 0), "the map is empty")
            rt.goaleq(eqc(rt.ghosts["freed"], 1), rt.has0, "every value is freed once")
            if prod:
                rt.goal(eqc(rt.comps.buf.a.read(rt, rt.J), 0), "the data of every component are removed")
    mk_()


# ------------------------------------------------------------------ write access of an element
def wrap(name, kind, kw, keep, args=0, cond=None, loops=False):
    invs = {("SmartSpace", name, 0): spec_mem.loopinv(name, cond)} if loops else None
    drops = name != "CopyOnWrite"

    @dvob(["C01", "C02"] if drops else "C01", "Element::%s, %s" % (name, kind), "elem", invs=invs)
    def o(rt):
        h = rt.h = Han(rt, "x", **kw)
        o = h.o
        o.cls = "Element"
        rt.this = o
        spec_mem.setup(rt, h)
        if h.comp:
            rt.I = var("I0", isint=True, nonneg=True)
            rt.fact(And(lt(rt.I, h.buf.n), Or(lt(rt.I, h.off), le(h.off + h.len, rt.I))))
        rt.over["genrandreal"] = lambda rt_, a: unit(rt)
        rt.over["genrandnormal"] = lambda rt_, a: var(rt.newname("normal"))
        o.f["powsinterval"], o.f["elements"] = Opaque("powsinterval"), Opaque("elements")
        o.f["numoftypes"], o.f["numofelements"] = var("numoftypes", isint=True, nonneg=True), var("numofelements", isint=True, nonneg=True)
        st = rt.st = {"fields": True, "view": None}

        def removeall(rt_, o_, a):
            st["fields"] = False

        def reset(rt_, o_, a):
            v = [num_(x) for x in a]
            rt.goal(v[0] is o.f["powsinterval"] and v[2] is o.f["elements"] and v[1].eq(o.f["numoftypes"]) and v[3].eq(o.f["numofelements"]), "the components of this element are the ones reset")
            rt.goal(o.f["Space"] is not None, "components are reset to memory that is there")
            st["view"] = o.f["Space"]
        o.contracts["RemoveAllFromFields"] = removeall
        o.contracts["ResetMultiElementsParams"] = reset
        if not h.null:
            st["view"] = o.f["Space"]
        f = [g for g in rt.prog.fns[("Element", name)] if len(g.params) == args][0]
        a = [var("a%d" % i) for i in range(args)]
        if name == "RandUnform":
            rt.fact(le(a[0], a[1]))
            rt.lo, rt.hi = a
        r = rt.run(f, o, a)
        rt.goal(st["view"] is o.f["Space"] or (st["view"] is not None and st["view"].buf is o.f["Space"].buf and st["view"].off.eq(o.f["Space"].off)), "the components point into the storage of this element")
        if drops:
            rt.goal(not st["fields"], "attached data are discarded")
        onwrite(rt, h, keep)
        if name.startswith("ObtainWrite"):
            rt.goal(isinstance(r, ZPtr) and r.buf is h.Space.buf and r.off.eq(h.Space.off), "the pointer returned is the storage")
        if cond:
            rt.goal(cond(rt, h.now(rt.K)), "entries")


for kind, kw in KINDS:
    wrap("NewMemoryOnWrite", kind, kw, False)
    wrap("CopyOnWrite", kind, kw, True)
    wrap("ObtainWriteEntireData", kind, kw, False)
    wrap("ObtainWritePartialData", kind, kw, True)
    wrap("SetToZeros", kind, kw, False, cond=lambda rt, v: eqc(v, 0), loops=True)
    wrap("RandUnform", kind, kw, False, 2, cond=lambda rt, v: And(le(rt.lo, v), le(v, rt.hi)), loops=True)
    wrap("RandGaussian", kind, kw, False, 2, loops=True)


# ------------------------------------------------------------------ copies of elements: attached data
class CComps:
    """components of a product with their attached data as one number each (0: none)"""

    def __init__(self, rt, nm, n):
        self.rt, self.nm = rt, nm
        self.o = Obj("comps", rt)
        self.buf = Buf(ZArr(nm + ".cf"), nm + " component fields", n)
        self.o.f["cf"] = ZPtr(rt, self.buf)
        rt.objs.append(self.o)

    def index(self, j):
        return CRef(self.rt, self, S.of(j))

    def snapkey(self):
        return ("comps", self.nm)

    def cmp(self, op, b):
        if b is None:
            return op == "!="
        return (b is self) == (op == "==")


class CRef(Obj):
    def __init__(self, rt, arr, j):
        super().__init__("Element", rt)
        self.arr, self.j = arr, j
        self.contracts["RemoveAllFromFields"] = lambda rt_, o_, a: self.set0()
        self.contracts["CopyFieldsTo"] = self.copyfields

    def set0(self):
        self.rt.bounds(self.arr.buf, self.j, "access to a component")
        self.arr.buf.a = self.arr.buf.a.store(self.j, S.of(0))

    def copyfields(self, rt, o, a):
        t = val(a[0])
        t = t.to if isinstance(t, Ptr) else t
        rt.bounds(self.arr.buf, self.j, "access to a component")
        rt.bounds(t.arr.buf, t.j, "access to a component")
        old = t.arr.buf.a.read(rt, t.j)
        rt.goal(eqc(old, 0), "data of the component are copied to a component without data (stale data stay otherwise)")
        t.arr.buf.a = t.arr.buf.a.store(t.j, self.arr.buf.a.read(rt, self.j))


def cp_c(rt):
    i = rt.L("i")
    return [("range", And(le(0, i), le(i, rt.nt))), ("component", Imp(lt(rt.I, i), rt.cdone()))]


def cp_cj(rt):
    i, j = rt.L("i"), rt.L("j")
    return [("range", And(le(0, i), lt(i, rt.nt))), ("range j", And(le(rt.pow(i), j), le(j, rt.pow(i + 1)))),
            ("component", Imp(Or(lt(rt.I, i), And(eqc(rt.I, i), lt(rt.J, j))), rt.cdone()))]


def same(rt):
    return And(rt.ef.has(rt.K0), eqc(rt.ef.val(rt.K0), rt.val0))


def cp_f(rt):
    it = rt.L("thisiter")
    p, od = it.pos, it.order
    return [("position", And(le(0, p), le(p, od.n))), ("keys before the position are copied", Imp(And(rt.has0, lt(od.posK, p)), same(rt))),
            ("other keys are kept", Imp(Not(And(rt.has0, lt(od.posK, p))), And(Imp(rt.ef.has(rt.K0), rt.ehas0), Imp(rt.ehas0, rt.ef.has(rt.K0)), Imp(rt.ehas0, eqc(rt.ef.val(rt.K0), rt.eval0))))),
            ("this is not changed", rt.fields.o.f["has"].buf.a is rt.m0 and rt.fields.o.f["val"].buf.a is rt.v0)]


def cp_r(rt):
    it = rt.L("etaiter")
    p, od = it.pos, it.order
    return [("position", And(le(0, p), le(p, od.n))), ("keys of this are kept", Imp(rt.has0, same(rt))),
            ("keys before the position that this has not are removed", Imp(And(Not(rt.has0), rt.ef.has(rt.K0)), And(od.has(rt.K0), le(p, od.posK)))),
            ("a key from the position on that was there is there", Imp(And(od.has(rt.K0), le(p, od.posK)), rt.ef.has(rt.K0))),
            ("this is not changed", rt.fields.o.f["has"].buf.a is rt.m0 and rt.fields.o.f["val"].buf.a is rt.v0)]


def cp_r_assume(rt):
    # the key is arbitrary: what is known of K0 holds for the key the iterator points to
    it = rt.L("etaiter")
    p, od = it.pos, it.order
    k = ack(rt, od.nm, p, isint=True)
    rt.fact(Imp(And(le(0, p), lt(p, od.n)), rt.ef.has(k)))


def copysetup(rt, prod):
    o = setup(rt)
    e = Obj("Element", rt)
    e.f["Fields"] = FMap(rt, "eta")
    rt.objs.append(e)
    rt.ef = e.f["Fields"]
    rt.ehas0, rt.eval0 = rt.ef.has(rt.K0), rt.ef.val(rt.K0)
    rt.m0, rt.v0 = rt.fields.o.f["has"].buf.a, rt.fields.o.f["val"].buf.a
    e.contracts["AddToFields"] = lambda rt_, o_, a: rt.ef.add(val(a[0]), el(a[1]).v())
    e.contracts["RemoveFromFields"] = lambda rt_, o_, a: rt.ef.remove(val(a[0]))
    o.f["iscomplex"] = batom("x.iscomplex")
    e.f["iscomplex"] = batom("eta.iscomplex")
    rt.log = []
    o.contracts["SmartSpace::CopyTo"] = lambda rt_, o_, a: rt.log.append(("space", val(a[0])))
    e.contracts["Setiscomplex"] = lambda rt_, o_, a: (rt.log.append(("complex",)), e.f.__setitem__("iscomplex", val(a[0])))[1]

    def reset(rt_, o_, a):
        v = [num_(x) for x in a]
        rt.log.append(("reset", v))
    e.contracts["ResetMultiElementsParams"] = reset
    if prod:
        from spec_prod import powat, PowArr
        rt.nt = o.f["numoftypes"] = var("numoftypes", isint=True, pos=True)
        rt.pow = lambda i: powat(rt, i)
        n = o.f["numofelements"] = rt.pow(rt.nt)
        o.f["powsinterval"] = ZPtr(rt, Buf(PowArr("pow", (), None, "int"), "powsinterval", rt.nt + 1))
        rt.I, rt.J = var("I", isint=True, nonneg=True), var("J", isint=True, nonneg=True)
        rt.fact(And(lt(rt.I, rt.nt), le(rt.pow(rt.I), rt.J), lt(rt.J, rt.pow(rt.I + 1))))
        rt.tc = o.f["elements"] = CComps(rt, "x", n)
        rt.ec = CComps(rt, "eta", n)
        e.contracts["GetElement"] = lambda rt_, o_, a: rt.ec.index(num_(a[0]))
        rt.tc0 = rt.tc.buf.a
        rt.cdone = lambda: eqc(rt.ec.buf.a.read(rt, rt.J), rt.tc0.read(rt, rt.J))
    else:
        rt.nt = S.of(0)
        rt.pow = lambda i: S.of(0)
        rt.I = rt.J = S.of(-1)
        rt.cdone = lambda: True
        o.f["powsinterval"] = o.f["elements"] = None

    def onsize():
        if not rt.discover:
            rt.goal(Imp(rt.has0, same(rt)), "every key of this is now in eta, with its value")
            # finite sets: a subset with as many elements is the whole set
            rt.fact(le(rt.fields.n, rt.ef.n))
            rt.fact(Imp(eqc(rt.fields.n, rt.ef.n), Imp(rt.ef.has(rt.K0), rt.has0)))
    rt.ef.onsize = onsize
    return o, e


CPINV = {("Element", "CopyTo", 0): Inv(cp_c), ("Element", "CopyTo", 1): Inv(cp_cj, entry=lambda rt: (rt.pow(rt.L("i")), rt.pow(rt.L("i") + 1))),
         ("Element", "CopyTo", 2): Inv(cp_f), ("Element", "CopyTo", 3): Inv(cp_r, assume=cp_r_assume)}

for prod in (False, True):
    def mk_(prod=prod):
        @dvob(["C01", "C02"], "Element::CopyTo, %selement: kind, components and attached data are those of the source" % ("product " if prod else ""), "elem", invs=CPINV, minok=2)
        def o(rt):
            o, e = copysetup(rt, prod)
            run(rt, o, "CopyTo", e)
            kinds = [x[0] for x in rt.log]
            rt.goal(kinds[:1] == ["space"] and rt.log[0][1] is e, "entries are copied first")
            rt.goal(kinds.count("space") == 1 and kinds.count("reset") == 1, "components are set up once, after the entries")
            v = [x for x in rt.log if x[0] == "reset"][0][1]
            rt.goal(v[0] is o.f["powsinterval"] and v[2] is o.f["elements"] and v[1].eq(o.f["numoftypes"]) and v[3].eq(S.of(o.f["numofelements"])), "with the components of this")
            rt.goal(e.f["iscomplex"] is o.f["iscomplex"], "kind of the copy")
            rt.goaleq(rt.ef.has(rt.K0), rt.has0, "the copy has exactly the attached data of the source")
            rt.goal(Imp(rt.has0, eqc(rt.ef.val(rt.K0), rt.val0)), "with the same values")
            rt.goal(rt.fields.o.f["has"].buf.a is rt.m0 and rt.fields.o.f["val"].buf.a is rt.v0, "the source keeps its attached data")
            if prod:
                rt.goal(rt.cdone(), "the attached data of every component are those of the source")
                rt.goal(rt.tc.buf.a is rt.tc0, "the source's components keep theirs")
    mk_()


@dvob(["C01", "C02"], "Element::CopyTo, to itself does nothing", "elem", invs=CPINV)
def copyself(rt):
    o, e = copysetup(rt, False)
    run(rt, o, "CopyTo", o)
    rt.goal(not rt.log and rt.fields.o.f["has"].buf.a is rt.m0, "nothing happens")


@dvob(["C01", "C02"], "Element::CopyFieldsTo, to an element without data: the data are those of the source", "elem", invs={("Element", "CopyFieldsTo", 0): Inv(cp_f)})
def copyfields(rt):
    o, e = copysetup(rt, False)
    rt.fact(Not(rt.ehas0))
    run(rt, o, "CopyFieldsTo", e)
    rt.goaleq(rt.ef.has(rt.K0), rt.has0, "exactly the attached data of the source")
    rt.goal(Imp(rt.has0, eqc(rt.ef.val(rt.K0), rt.val0)), "with the same values")
    rt.goal(rt.fields.o.f["has"].buf.a is rt.m0 and rt.fields.o.f["val"].buf.a is rt.v0, "the source keeps its attached data")


@dvob("C01", "Element copy constructor and assignment go through CopyTo", "elem", minok=2)
def ctorcopy(rt):
    o = Obj("Element", rt)
    e = Obj("Element", rt)
    for q in (o, e):
        q.f["size"] = ZPtr(rt, Buf(ZArr("size", (), None, "int"), "size", S.of(3)))
    log = []
    e.contracts["CopyTo"] = lambda rt_, o_, a: log.append(val(a[0]).to if isinstance(val(a[0]), Ptr) else val(a[0]))
    f = [g for g in rt.prog.fns[("Element", "operator=")]][0]
    rt.run(f, o, [e])
    rt.goal(log == [o], "assignment copies the right side to the left side")
    log.clear()
    rt.run(f, e, [e])
    rt.goal(log == [], "self assignment does nothing")
    if rt.decide(batom("ctor")):
        cs = [g for g in rt.prog.fns[("Element", "Element")] if len(g.params) == 1 and "const Element &" in g.sig.replace("ROPTLIB::", "")]
        n = Obj("Element", rt)
        n.contracts["Initialization"] = lambda rt_, o_, a: log.append(("init", [num_(x) for x in a]))
        rt.run(cs[0], n, [e])
        s = e.f["size"]
        rt.goal(len(log) == 2 and log[1] is n and log[0][0] == "init", "the copy is initialised, then copied to")
        rt.goal(And(*[eqc(x, y) for x, y in zip(log[0][1], [S.of(3)] + [s.buf.a.read(rt, S.of(k)) for k in range(3)])]), "with the sizes of the source")
        rt.goal(eqc(n.f["numoftypes"], 0) and n.f["elements"] is None, "no components before the copy")
