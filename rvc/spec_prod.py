"""C11: operations of a product of manifolds, for any number of component types, any multiplicities and any component.

A product element is an array of component values; a component value is an opaque number (the component's own operation is an
uninterpreted function of the component manifold, its representation flag and the component values), so equality of the numbers is
equality of the components for all sizes and kinds. One arbitrary component J of type I is followed. Copies share memory until
NewMemoryOnWrite/CopyOnWrite, as the elements of the library do: writing a component of a shared element changes the other owner."""
from dv import *
from world import *
from spec_nsm import tgt


class PArr(ZArr):
    """component values"""

    def store(self, i, v):
        return PArr(self.base, self.w + ((i, v),), self.init, self.ty)

    def fresh(self, rt):
        return PArr(rt.newname("comp"), (), None, self.ty)

    def read(self, rt, i):
        r = ack(rt, self.base, i)
        for k, v in self.w:
            r = v if i.eq(k) else rt.ite(eqc(i, k), v, r)
        return r


class PVec(Elem):
    def __init__(self, rt, name):
        super().__init__(1, 1, 1)
        self.rt, self.name = rt, name
        self.arr = Arr(None)
        self.arr.extra = Buf(PArr(name), name)

    def copy(self):
        e = PVec(self.rt, self.name + "'")
        e.assign(self)
        return e

    def assign(self, o):
        if o is self:
            return
        if getattr(self, "scalar", False):       # operators are written with copy on write (C01)
            self.arr = Arr(None)
            self.arr.extra = Buf(o.arr.extra.a, self.name)
            return
        super().assign(o)

    def at(self, j):
        return self.arr.extra.a.read(self.rt, j)

    def own(self, keep):
        b = self.arr.extra
        if self.arr.owners > 1 or not keep:
            self.detach()
            self.arr = Arr(None)
            self.arr.extra = Buf(b.a if keep else PArr(self.rt.newname("new")), self.name)

    def pmethod(self, rt, name, args):
        if name == "GetElement":
            return PComp(rt, self, num_(args[0]))
        if name == "NewMemoryOnWrite":
            return self.own(False)
        if name == "CopyOnWrite":
            return self.own(True)
        if name == "CopyFieldsTo":
            return None
        if name == "FieldsExist":
            return Not(True) if args[0] not in self.fields else True
        if name == "AddToFields":
            self.fields[args[0]] = el(args[1]).copy()
            rt.ghosts_added = getattr(rt, "ghosts_added", []) + [(self, args[0], self.fields[args[0]])]
            return None
        raise Unsupported("product element: " + name)


class PComp(Elem):
    def __init__(self, rt, vec, j):
        super().__init__(1, 1, 1)
        self.rt, self.vec, self.j = rt, vec, j
        self.name = vec.name + "[]"

    def v(self):
        return self.vec.at(self.j)

    def copy(self):
        return PVal(self.rt, self.v())

    def assign(self, o):
        self.set_(o.v())

    def set_(self, v):
        self.vec.arr.extra.a = self.vec.arr.extra.a.store(self.j, S.of(v))

    def pmethod(self, rt, name, args):
        if name == "Getlength":
            return ack(rt, "len", self.j, self.v(), isint=True)
        if name == "FieldsExist":
            return False
        raise Unsupported("component: " + name)


class PVal(Elem):
    def __init__(self, rt, v):
        super().__init__(1, 1, 1)
        self.rt, self.val_ = rt, v

    def v(self):
        return self.val_

    def copy(self):
        return PVal(self.rt, self.val_)

    def pmethod(self, rt, name, args):
        raise Unsupported("component: " + name)


class ManiI:
    """component manifold of type i"""
    noflag = {"Dist", "ExtrProjection", "EucGradToGrad", "EucHvToHv", "RandominManifold", "ObtainIntr", "ObtainExtr"}

    def __init__(self, rt, i):
        self.rt, self.i = rt, i

    def flag(self):
        return flagat(self.rt, self.i)

    def method(self, rt, name, args):
        rt.contracts.add("component manifold: " + name)
        args = [a.get() if isinstance(a, (Cell, FieldCell)) else a for a in args]
        args = [a for a in args if not isinstance(a, sx._Default)]
        if name == "GetIsIntrinsic":
            return eqc(self.flag(), 1)
        if name == "SetIsIntrApproach":
            c = rt.tocond(args[0])
            rt.flags.a = rt.flags.a.store(self.i, rt.ite(c, S.of(1), S.of(0), True))
            return None
        if name in ("GetExtrDim", "GetIntrDim"):
            return ack(rt, name, self.i, isint=True)
        vals, res = [], None
        for a in args:
            if isinstance(a, Ptr):
                if not isinstance(a.to, Elem):
                    continue          # the problem is handed on
                res = a.to
            elif isinstance(a, PVec):
                vals.append(a.at(S.of(0)) if getattr(a, "scalar", False) else S.of(0))
            elif isinstance(a, (PComp, PVal)):
                vals.append(a.v())
            elif isinstance(a, (bool, Cond)):
                vals.append(rt.ite(a, S.of(1), S.of(0)) if isinstance(a, Cond) else S.of(int(a)))
            elif isinstance(a, S):
                vals.append(a)
            else:
                raise Unsupported("argument of %s: %r" % (name, a))
        v = op(rt, name, self.i, None if name in self.noflag else self.flag(), vals)
        if name in ("Metric", "Dist"):
            return v
        if name == "RandominManifold":
            return PVal(rt, v)
        if res is None:
            raise Unsupported("component operation " + name)
        if isinstance(res, PComp):
            res.set_(v)
        elif isinstance(res, PVec) and getattr(res, "scalar", False):
            res.arr.extra.a = res.arr.extra.a.store(S.of(0), v)
        else:
            raise Unsupported("result of " + name)
        return res


def op(rt, name, i, flag, vals):
    return ack(rt, "op:" + name, i, *([flag] if flag is not None else []), *vals)


class MArr:
    def __init__(self, rt):
        self.rt = rt

    def index(self, i):
        return ManiI(self.rt, S.of(i))


class PowArr(ZArr):
    def read(self, rt, i):
        return powat(rt, i)


def powat(rt, i):
    i = S.of(i)
    if i.isconst() and i.cval() == 0:
        return S.of(0)
    r = ack(rt, "pow", i, isint=True)
    rt.fact(le(0, r))
    seen = rt.__dict__.setdefault("powseen", [])
    if not any(q.eq(i) for q in seen):
        for q in seen:
            a, b = fn("pow", i, isint=True), fn("pow", q, isint=True)
            rt.fact(Imp(le(i, q), le(a, b)))
            rt.fact(Imp(le(q, i), le(b, a)))
        seen.append(i)
    return r


def f0(rt, i):
    r = ack(rt, "f0", i, isint=True)
    rt.fact(Or(eqc(r, 0), eqc(r, 1)))
    return r


class FlagArr(PArr):
    def store(self, i, v):
        return FlagArr(self.base, self.w + ((i, v),), None, "int")

    def fresh(self, rt):
        return FlagArr(rt.newname("flags"), (), None, "int")

    def read(self, rt, i):
        r = f0(rt, i) if self.base == "f0" else ack(rt, self.base, i, isint=True)
        for k, v in self.w:
            r = v if i.eq(k) else rt.ite(eqc(i, k), v, r, True)
        return r


def flagat(rt, i):
    return rt.flags.a.read(rt, S.of(i))


class PAPI(DElemAPI):
    def method(self, rt, e, name, args, ref):
        if hasattr(e, "pmethod"):
            args = [a.get() if isinstance(a, (Cell, FieldCell)) else a for a in args]
            rt.contracts.add("Element::" + name)
            return e.pmethod(rt, name, args)
        return super().method(rt, e, name, args, ref)


def setup(rt, mk):
    rt.elemapi = PAPI()
    rt.construct_classes = ("ComponentRepresentation",)
    nt = var("numoftypes", isint=True)
    I, J, Q = (var(k, isint=True) for k in "IJQ")
    intr = batom("IsIntrApproach")
    rt.p = dict(nt=nt, I=I, J=J, Q=Q)
    for c in (lt(0, nt), le(0, I), lt(I, nt), le(powat(rt, I), J), lt(J, powat(rt, I + 1)), le(0, Q), lt(Q, nt)):
        rt.fact(c)
    rt.fact(le(0, J))
    powat(rt, nt)
    o = Obj("MultiManifolds", rt, numoftypes=nt, manifolds=MArr(rt), IsIntrApproach=intr, HasHHR=batom("HasHHR"))
    pb = Buf(PowArr("pow", ty="int"), "powsinterval")
    o.f["powsinterval"] = ZPtr(rt, pb)
    fl = Obj("Manifold", rt)
    rt.flags = Buf(FlagArr("f0", (), None, "int"), "flags")
    fl.f["flags"] = ZPtr(rt, rt.flags)
    rt.objs += [o, fl]
    rt.o = o
    rt.intr = rt.decide(intr)
    return o


def want(rt, i):
    """the representation component i works in"""
    return f0(rt, i) if rt.intr else S.of(0)


def res_(rt):
    return rt.local(rt.res) if isinstance(rt.res, str) else rt.res


def pinvs(fn_, kind, loops=1, acc=("result",), ctr=("i", "j")):
    """kind: 'map' (rt.spec(rt, i, j) is the value of component j of rt.res), or 'fold' (rt.fold(rt, k, i, j): what component j adds to
    accumulator k)"""
    ci, cj = ctr

    def common(rt):
        powat(rt, rt.L(ci)), powat(rt, rt.L(ci) + 1)

    def done(rt, c):
        if kind != "map":
            return []
        J, I = rt.p["J"], rt.p["I"]
        return [("component", Imp(c, eqc(res_(rt).at(J), rt.spec(rt, I, J))))]

    def accs(rt, k):
        out = []
        if kind == "fold":
            for nm in acc:
                out.append(("partial sum", eqc(num_(rt.L(nm)), MS(rt, nm, k))))
        if kind == "chain":
            out.append(("partial result", eqc(res_(rt).at(S.of(0)), MS(rt, "H", k))))
            if rt.chain:
                out.append(("offset", eqc(rt.L("end"), MS(rt, "off", k))))
        return out

    def c0(rt):
        i = rt.L(ci)
        Q = rt.p["Q"]
        return [("i", And(le(0, i), le(i, rt.p["nt"]))), ("flags restored", eqc(flagat(rt, Q), f0(rt, Q)))] + done(rt, lt(rt.p["I"], i)) + accs(rt, powat(rt, i))

    def s0(rt):
        common(rt)

    def a0(rt):
        i = rt.L(ci)
        rt.fact(Imp(And(le(0, i), lt(i, rt.p["nt"])), eqc(flagat(rt, i), f0(rt, i))))       # Q is arbitrary
        I = rt.p["I"]
        flagat(rt, I)
        rt.fact(eqc(flagat(rt, I), f0(rt, I)))

    def c1(rt):
        i, j = rt.L(ci), rt.L(cj)
        Q, I, J = rt.p["Q"], rt.p["I"], rt.p["J"]
        return [("i", And(le(0, i), lt(i, rt.p["nt"]))), ("j", And(le(powat(rt, i), j), le(j, powat(rt, i + 1)))),
                ("flag of this type", eqc(flagat(rt, i), rt.fl)), ("other flags", Imp(Not(eqc(Q, i)), eqc(flagat(rt, Q), f0(rt, Q))))] + \
            done(rt, Or(lt(I, i), And(eqc(I, i), lt(J, j)))) + accs(rt, j)

    def e1(rt):
        rt.fl = flagat(rt, rt.L(ci))
        common(rt)

    def s1(rt):
        common(rt)
        rt.h = (rt.L(ci), rt.L(cj))

    def g1(rt):
        i, j = rt.h
        if kind == "fold":
            for nm in acc:
                rt.goal(eqc(num_(rt.L(nm)), MS(rt, nm, j) + rt.foldf(rt, nm, i, j)), "component j adds its own value to " + nm)
                rt.fact(eqc(num_(rt.L(nm)), MS(rt, nm, j + 1)))
        if kind == "chain":
            e = rt.chain
            if e:
                L = ack(rt, "len", j, rt.eta.at(j), isint=True)
                rt.goal(eqc(rt.L("start"), MS(rt, "off", j)), "the block of component j starts after the blocks before it")
                rt.goal(eqc(rt.L("end"), MS(rt, "off", j) + L), "it has the length of the component")
                rt.fact(eqc(rt.L("end"), MS(rt, "off", j + 1)))
            rt.goal(eqc(res_(rt).at(S.of(0)), rt.foldf(rt, "H", i, j)), "component j acts on its block")
            rt.fact(eqc(res_(rt).at(S.of(0)), MS(rt, "H", j + 1)))
    r = {}
    for k in range(loops):
        r[("MultiManifolds", fn_, 2 * k)] = Inv(c0, state=s0, assume=a0)
        r[("MultiManifolds", fn_, 2 * k + 1)] = Inv(c1, state=s1, entry=e1, ghost=g1)
    return r


def MS(rt, nm, k):
    return ack(rt, "MS" + nm, k, isint=nm == "off")


def total(rt):
    return powat(rt, rt.p["nt"])


def flagsback(rt):
    rt.goal(eqc(flagat(rt, rt.p["Q"]), f0(rt, rt.p["Q"])), "every component keeps its own representation option")


def unchanged(rt, *vs):
    for v in vs:
        rt.goal(eqc(v.at(rt.p["J"]), ack(rt, v.name, rt.p["J"])), v.name + " is left unchanged")


def mapop(name, args, tang=(), flag=True, extra=None, pre=None, loops=1, decl=None):
    """args: names of the element arguments in order. One obligation per memory situation: the result is its own object, shares memory with
    an argument (an earlier copy), or is the tangent argument itself."""
    for kind, which in [("own", None)] + [("alias", t) for t in tang] + [("shared", args[-1]), ("shared", args[0])]:
        mapop1(name, args, kind, which, flag, extra, pre, loops)


def mapop1(name, args, kind, which, flag, extra, pre, loops):
    txt = {"own": "", "alias": " (the result is the argument %s)" % which, "shared": " (the result is a copy of %s before)" % which}[kind]

    @dvob("C11", "MultiManifolds::%s acts on each component with its own manifold and options%s" % (name, txt), "mani", invs=pinvs(name, "map", loops), maxpaths=3000, timeout=200)
    def go(rt):
        o = setup(rt, name)
        if pre:
            pre(rt, o)
        vs = {a: PVec(rt, a) for a in args}
        alias = which if kind == "alias" else None
        res = vs[alias] if alias else PVec(rt, "result")
        if kind == "shared":
            res.assign(vs[which])
        rt.res = res

        def spec(rt_, i, j):
            return op(rt, name, i, want(rt, i) if flag else None, [ack(rt, a, j) for a in args] + ([S.of(int(x)) for x in extra(rt)] if extra else []))
        rt.spec = spec
        call = [vs[a] for a in args]
        if name in ("EucGradToGrad", "EucHvToHv"):
            pr = Obj("Problem", rt)
            pr.contracts["GetUseHess"] = lambda rt_, o_, a: batom("UseHess")
            call.append(Ptr(pr))
        call.append(Ptr(res))
        if extra:
            call += extra(rt)
        r = reach(rt, o, name, *call)
        rt.goal(el(r) is res, "the result is returned")
        if getattr(rt, "delegated", None):
            return
        rt.goal(eqc(res.at(rt.p["J"]), spec(rt, rt.p["I"], rt.p["J"])), "component J")
        flagsback(rt)
        unchanged(rt, *[v for a, v in vs.items() if a != alias])
    return go


def hhr(*lc):
    """with the locking option the transports are those of C09 (LC...), which get the arguments as they are"""
    def pre(rt, o):
        def c(nm):
            def f(rt_, o_, a):
                rt.delegated = True
                a = [x.get() if isinstance(x, (Cell, FieldCell)) else x for x in a]
                rt.goal(rt.decide(o.f["HasHHR"]) is True, "only with the locking option")
                names = [x.name for x in a if isinstance(x, PVec)]
                rt.goal([n for n in names] == rt.lcargs, "arguments handed on in order")
                return a[-1].to
            return f
        for nm in lc:
            o.contracts[nm] = c(nm)
    return pre


mapop("Projection", ["x", "etax"], ["etax"])
mapop("ExtrProjection", ["x", "etax"], ["etax"], flag=False)
mapop("Retraction", ["x", "etax"], loops=2)
mapop("InvRetraction", ["x", "y"], loops=2)
mapop("coTangentVector", ["x", "etax", "y", "xiy"], ["xiy"])
mapop("EucGradToGrad", ["x", "egf"], ["egf"], flag=False)
mapop("EucHvToHv", ["x", "etax", "exix"], ["exix"], flag=False)


def vt(name, lc, last):
    def pre(rt, o):
        hhr(lc)(rt, o)
        rt.lcargs = ["x", "etax", "y", last]
    mapop(name, ["x", "etax", "y", last], [last], pre=pre)


vt("VectorTransport", "LCVectorTransport", "xix")
vt("InverseVectorTransport", "LCInverseVectorTransport", "xiy")


def drpre(rt, o):
    rt.same = rt.decide(batom("IsEtaXiSameDir"))
    if rt.same:      # the locking data of the whole product: bounded check
        rt.assume(Not(o.f["HasHHR"]))


mapop("DiffRetraction", ["x", "etax", "y", "xix"], ["xix"], pre=drpre, extra=lambda rt: [rt.same])


def foldop(name, args, acc, f, post, sq=False):
    @dvob("C11", "MultiManifolds::%s sums over all components, each measured by its own manifold" % name, "mani", invs=pinvs(name, "fold", 1, acc), maxpaths=3000, timeout=200)
    def go(rt):
        o = setup(rt, name)
        vs = [PVec(rt, a) for a in args]
        rt.foldf = f
        for nm in acc:
            rt.fact(eqc(MS(rt, nm, S.of(0)), 0))
        r = reach(rt, o, name, *vs)
        r = num_(r)
        if sq:
            rt.fact(le(0, post(rt)))       # a sum of squares
            rt.goal(And(le(0, r), eqc(r * r, post(rt))), "value")
        else:
            rt.goaleq(r, post(rt), "value")
        flagsback(rt)
        unchanged(rt, *vs)


foldop("Metric", ["x", "etax", "xix"], ("result",), lambda rt, nm, i, j: op(rt, "Metric", i, want(rt, i), [ack(rt, a, j) for a in ("x", "etax", "xix")]),
       lambda rt: MS(rt, "result", total(rt)))
foldop("Dist", ["x1", "x2"], ("result",), lambda rt, nm, i, j: op(rt, "Dist", i, None, [ack(rt, a, j) for a in ("x1", "x2")]) ** 2,
       lambda rt: MS(rt, "result", total(rt)), sq=True)


def intrext(name, arg):
    @dvob("C11", "MultiManifolds::%s changes the representation of the components that have one" % name, "mani", invs=pinvs(name, "map"), maxpaths=3000, timeout=200)
    def go(rt):
        o = setup(rt, name)
        vs = {a: PVec(rt, a) for a in ("x", arg)}
        res = PVec(rt, "result")
        rt.res = res

        def spec(rt_, i, j):
            a = ack(rt, arg, j)
            return rt.ite(eqc(f0(rt, i), 1), op(rt, name, i, None, [ack(rt, "x", j), a]), a)
        rt.spec = spec
        r = reach(rt, o, name, vs["x"], vs[arg], Ptr(res))
        rt.goal(el(r) is res, "the result is returned")
        rt.goal(eqc(res.at(rt.p["J"]), spec(rt, rt.p["I"], rt.p["J"])), "component J")
        flagsback(rt)
        unchanged(rt, *vs.values())


intrext("ObtainIntr", "etax")
intrext("ObtainExtr", "intretax")


@dvob("C11", "MultiManifolds::RandominManifold draws every component from its own manifold", "mani", invs=pinvs("RandominManifold", "map"), maxpaths=3000)
def go(rt):
    o = setup(rt, "")
    o.f["EMPTYEXTR"] = PVec(rt, "EMPTYEXTR")
    rt.res = "result"
    rt.spec = lambda rt_, i, j: op(rt, "RandominManifold", i, None, [])
    r = reach(rt, o, "RandominManifold")
    rt.goal(eqc(el(r).at(rt.p["J"]), rt.spec(rt, rt.p["I"], rt.p["J"])), "component J")
    flagsback(rt)
    unchanged(rt, o.f["EMPTYEXTR"])


@dvob("C11", "MultiManifolds::Beta is the ratio of the summed squared lengths (no stored value)", "mani", invs=pinvs("Beta", "fold", 1, ("numerator", "denominator")), maxpaths=3000)
def go(rt):
    o = setup(rt, "")
    vs = [PVec(rt, a) for a in ("x", "etax")]
    rt.foldf = lambda rt_, nm, i, j: op(rt, "Metric", i, want(rt, i), [ack(rt, a, j) for a in ("x", "etax", "etax")])
    for nm in ("numerator", "denominator"):
        rt.fact(eqc(MS(rt, nm, S.of(0)), 0))
    r = num_(reach(rt, o, "Beta", *vs))
    if rt.decide(o.f["HasHHR"]):
        n, d = MS(rt, "numerator", total(rt)), MS(rt, "denominator", total(rt))
        rt.assume(And(lt(0, d), le(0, n)))       # a nonzero direction
        rt.goal(And(le(0, r), eqc(r * r * d, n)), "value")
    else:
        rt.goaleq(r, S.of(1), "value without the locking option")
    flagsback(rt)
    unchanged(rt, *vs)


def opval(rt, name):
    h = PVec(rt, name)
    h.scalar = True
    return h


def tran(alias):
    @dvob("C11", "MultiManifolds::TranHInvTran transports block after block with the component's own transport" + (" (in place)" if alias else ""), "mani",
          invs=pinvs("TranHInvTran", "chain"), maxpaths=3000)
    def go(rt):
        o = setup(rt, "")
        hhr("LCTranHInvTran")(rt, o)
        rt.lcargs = ["x", "etax", "y", "Hx"]
        vs = {a: PVec(rt, a) for a in ("x", "etax", "y")}
        H = opval(rt, "Hx")
        res = H if alias else opval(rt, "result")
        rt.res, rt.eta, rt.chain = res, vs["etax"], True

        def foldf(rt_, nm, i, j):
            a = [ack(rt, k, j) for k in ("x", "etax", "y")]
            s = MS(rt, "off", j)
            e = s + ack(rt, "len", j, vs["etax"].at(j), isint=True)
            return op(rt, "TranH", i, want(rt, i), a + [op(rt, "HInvTran", i, want(rt, i), a + [MS(rt, "H", j), s, e]), s, e])
        rt.foldf = foldf
        h0 = H.at(S.of(0))
        rt.fact(eqc(MS(rt, "off", S.of(0)), 0))
        rt.fact(eqc(MS(rt, "H", S.of(0)), h0))
        reach(rt, o, "TranHInvTran", vs["x"], vs["etax"], vs["y"], H, Ptr(res))
        if getattr(rt, "delegated", None):
            return
        rt.goal(eqc(res.at(S.of(0)), MS(rt, "H", total(rt))), "all blocks are transported")
        flagsback(rt)
        unchanged(rt, *vs.values())
        if not alias:
            rt.goal(eqc(H.at(S.of(0)), h0), "the operator given is left unchanged")


tran(False)
tran(True)


@dvob("C11", "MultiManifolds::HaddScaledRank1OPE takes the flat of every component with its own metric", "mani", invs=pinvs("HaddScaledRank1OPE", "map"), maxpaths=3000)
def go(rt):
    o = setup(rt, "")
    vs = {a: PVec(rt, a) for a in ("x", "etax", "xix")}
    H, res = opval(rt, "Hx"), opval(rt, "result")
    rt.res = "xixflat"
    rt.spec = lambda rt_, i, j: op(rt, "ObtainEtaxFlat", i, want(rt, i), [ack(rt, a, j) for a in ("x", "xix")])
    called = []

    def base(rt_, o_, a):
        a = [x.get() if isinstance(x, (Cell, FieldCell)) else x for x in a]
        called.append(1)
        rt.goal(a[0] is vs["x"] and a[1] is H and a[3] is vs["etax"] and tgt(a[5]) is res, "operands handed on")
        rt.goaleq(num_(a[2]), var("scalar"), "scalar handed on")
        rt.goal(eqc(a[4].at(rt.p["J"]), rt.spec(rt, rt.p["I"], rt.p["J"])), "component J of the flat")
        return res
    o.contracts["Manifold::HaddScaledRank1OPE"] = base
    reach(rt, o, "HaddScaledRank1OPE", vs["x"], H, var("scalar"), vs["etax"], vs["xix"], Ptr(res))
    rt.goal(len(called) == 1, "the operator is updated once")
    flagsback(rt)
    unchanged(rt, *vs.values())
