"""C01: the reference-counted storage of SmartSpace, for any size, any contents, any number of owners.

A handle is a SmartSpace object; its entries, its counter and its size array are buffers. Of the owners of a storage only the
handles the function touches are named; the others are counted (counter = named handles + others, others >= 0). One arbitrary entry
K and one arbitrary dimension D are followed. Freeing a buffer twice, reading or writing a freed buffer and leaving a buffer's
bounds are failed obligations."""
from dv import *
from world import *


class Han:
    """one handle and what it held before the call"""

    def __init__(self, rt, nm, null=False, share=None, comp=False):
        self.rt, self.nm, self.null, self.comp = rt, nm, null, comp
        o = self.o = Obj("SmartSpace", rt)
        self.ls = o.f["ls"] = var("%s.ls" % nm, isint=True, pos=True)
        self.len = o.f["length"] = var("%s.length" % nm, isint=True, nonneg=True)
        self.size = Buf(ZArr("%s.size" % nm, (), None, "int"), "%s.size" % nm, self.ls)
        o.f["size"] = ZPtr(rt, self.size)
        o.f["IsComponent"] = comp
        if null:
            o.f["Space"] = o.f["sharedtimes"] = None
            self.buf = self.cnt = self.c = None
            self.off = S.of(0)
        elif share is not None:
            self.buf, self.cnt, self.c, self.off = share.buf, share.cnt, share.c, S.of(0)
            o.f["Space"], o.f["sharedtimes"] = ZPtr(rt, self.buf), ZPtr(rt, self.cnt)
        else:
            self.off = var("%s.off" % nm, isint=True, nonneg=True) if comp else S.of(0)
            self.c = S.of(1) if comp else var("%s.count" % nm, isint=True, pos=True)
            self.buf = Buf(ZArr("%s.data" % nm), "%s.data" % nm, self.off + self.len + (var("%s.rest" % nm, isint=True, nonneg=True) if comp else 0))
            self.cnt = Buf(ZArr("%s.cnt" % nm, (), lambda i: self.c, "int"), "%s.count" % nm, S.of(1))
            o.f["Space"], o.f["sharedtimes"] = ZPtr(rt, self.buf, self.off), ZPtr(rt, self.cnt)
        self.a0 = self.buf.a if self.buf else None
        self.s0 = self.size.a
        self.p0 = dict(o.f)

    def __getattr__(self, k):
        if k in ("Space", "sharedtimes"):
            return self.o.f[k]
        raise AttributeError(k)

    def old(self, k):
        return self.a0.read(self.rt, self.off + k)

    def now(self, k):
        p = self.Space
        self.rt.goal(not p.buf.freed, "%s: its entries are alive" % self.nm)
        return p.buf.a.read(self.rt, p.off + k)

    def count(self):
        p = self.sharedtimes
        self.rt.goal(not p.buf.freed, "%s: its counter is alive" % self.nm)
        return p.buf.a.read(self.rt, p.off)

    def dim(self, d):
        p = self.o.f["size"]
        self.rt.goal(not p.buf.freed, "%s: its size is alive" % self.nm)
        return p.buf.a.read(self.rt, p.off + d)


def copy_(rt, a):
    N, x, ix, y, iy = [val(q) for q in a]
    N = val(N.to) if isinstance(N, Ptr) else N
    for i in (ix, iy):
        i = val(i.to) if isinstance(i, Ptr) else i
        if not (isinstance(i, S) and i.eq(S.of(1))):
            raise Unsupported("copy with stride")
    if x is None or y is None:
        rt.goal(le(N, 0), "copy with a null pointer")
        return None
    rt.goal(not x.buf.freed and not y.buf.freed, "copy uses memory that is alive")
    rt.goal(And(le(0, x.off), le(x.off + N, x.buf.n)), "copy reads within the source")
    rt.goal(And(le(0, y.off), le(y.off + N, y.buf.n)), "copy writes within the target")
    if x.buf is y.buf:
        raise Unsupported("copy within one buffer")
    sa, da = x.buf.a, y.buf.a
    xo, yo = x.off, y.off
    y.buf.a = ZArr(rt.newname("copied"), (), lambda i: rt.ite(And(le(yo, i), lt(i, yo + N)), sa.read(rt, i - yo + xo), da.read(rt, i)))
    return None


def setup(rt, *hs):
    rt.checkbounds = rt.cong = True
    rt.over["copy_"] = copy_
    rt.objs = [h.o for h in hs]
    K, D = var("K", isint=True, nonneg=True), var("D", isint=True, nonneg=True)
    rt.K, rt.D = K, D
    for h in hs:
        rt.fact(lt(D, h.ls)) if h is hs[0] else None
    rt.fact(lt(K, hs[0].len))
    if len(hs) == 2:
        t, e = hs
        # equal shapes have equal lengths: D is a dimension in which they differ if they do
        W = rt.W = var("W", isint=True, nonneg=True)
        rt.fact(lt(W, t.ls))
        rt.fact(Imp(And(eqc(t.ls, e.ls), eqc(t.dim(W), e.dim(W))), eqc(t.len, e.len)))
        rt.fact(Imp(eqc(D, W), And(eqc(t.dim(D), t.dim(W)), eqc(e.dim(D), e.dim(W)))))


def call(rt, h, name, *a):
    f = [g for g in rt.prog.fns[("SmartSpace", name)] if len(g.params) == len(a)][0]
    return rt.run(f, h.o, list(a))


def untouched(rt, b, a0, what):
    rt.goal(not b.freed, what + " is not freed")
    rt.goal(b.a is a0, what + " is not written")


# ------------------------------------------------------------------ making storage writable
def onwrite(rt, h, keep, what="its own storage", zero=None):
    """after a write access: h owns its storage alone and the other owners keep theirs"""
    if h.null:
        rt.goal(h.sharedtimes is not None and h.Space is not None, "storage is there")
        rt.goal(eqc(h.count(), 1), "counter of new storage")
        rt.goal(And(eqc(h.Space.off, 0), eqc(h.Space.buf.n, h.len)), "new storage has the length of the element")
        rt.goal(not h.Space.buf.freed, "new storage is alive")
        return
    one = rt.decide(eqc(h.c, 1))
    rt.goal(eqc(h.count(), 1), "counter after a write access")
    if one:
        rt.goal(h.Space.buf is h.buf and h.sharedtimes.buf is h.cnt, "a sole owner keeps its storage")
        rt.goal(not h.buf.freed, "storage is alive")
    else:
        rt.goal(h.Space.buf is not h.buf and h.sharedtimes.buf is not h.cnt, "a shared storage is left")
        untouched(rt, h.buf, h.a0, "the storage of the other owners")
        rt.goal(not h.cnt.freed, "the counter of the other owners is alive")
        rt.goal(eqc(h.cnt.a.read(rt, S.of(0)), h.c - 1), "the counter of the other owners")
        rt.goal(And(eqc(h.Space.off, 0), eqc(h.Space.buf.n, h.len)), "new storage has the length of the element")
    if keep:
        rt.goal(eqc(h.now(rt.K), h.old(rt.K)), "entries are kept")
    if h.comp:
        i = rt.I
        rt.goal(eqc(h.buf.a.read(rt, i), h.a0.read(rt, i)), "entries of the collection outside the component")


KINDS = [("empty", dict(null=True)), ("storage with any number of owners", {}), ("component of a collection", dict(comp=True))]


def loopinv(fn_, cond=None):
    def conds(rt):
        i = rt.L("i")
        p = rt.this.f["Space"]
        out = [("counter range", And(le(0, i), le(i, rt.h.len))), ("buffer is alive", not p.buf.freed), ("buffer length", le(p.off + rt.h.len, p.buf.n)), ("offset", le(0, p.off))]
        if cond:
            out.append(("entries done", Imp(lt(rt.K, i), cond(rt, p.buf.a.read(rt, p.off + rt.K)))))
        if rt.h.comp:
            b = rt.h.buf
            q = rt.I
            out.append(("entries outside the component", eqc(b.a.read(rt, q), rt.h.a0.read(rt, q))))
        return out
    return Inv(conds)


def mkwrite(name, kind, kw, keep, args=0, cond=None, loops=False):
    invs = {("SmartSpace", name, 0): loopinv(name, cond)} if loops else None

    @dvob("C01", "SmartSpace::%s, %s" % (name, kind), "elem", invs=invs)
    def o(rt):
        h = rt.h = Han(rt, "x", **kw)
        rt.this = h.o
        setup(rt, h)
        if h.comp:
            rt.I = var("I0", isint=True, nonneg=True)
            rt.fact(And(lt(rt.I, h.buf.n), Or(lt(rt.I, h.off), le(h.off + h.len, rt.I))))
        rt.over["genrandreal"] = lambda rt_, a: unit(rt)
        rt.over["genrandnormal"] = lambda rt_, a: var(rt.newname("normal"))
        a = [var("a%d" % i) for i in range(args)]
        if name == "RandUnform":
            rt.fact(le(a[0], a[1]))
            rt.lo, rt.hi = a
        r = call(rt, h, name, *a)
        onwrite(rt, h, keep)
        if name.startswith("ObtainWrite"):
            rt.goal(isinstance(r, ZPtr) and r.buf is h.Space.buf and r.off.eq(h.Space.off), "the pointer returned is the storage")
        if cond:
            rt.goal(cond(rt, h.now(rt.K)), "entries")
        rt.goal(h.o.f["ls"].eq(h.ls) and h.o.f["length"].eq(h.len) and h.o.f["size"] is h.p0["size"], "shape is kept")
        untouched(rt, h.size, h.s0, "the size array")


def unit(rt):
    v = var(rt.newname("u"))
    rt.fact(And(le(0, v), le(v, 1)))
    return v


for kind, kw in KINDS:
    mkwrite("NewMemoryOnWrite", kind, kw, False)
    mkwrite("CopyOnWrite", kind, kw, True)
    mkwrite("ObtainWriteEntireData", kind, kw, False)
    mkwrite("ObtainWritePartialData", kind, kw, True)
    mkwrite("SetToZeros", kind, kw, False, cond=lambda rt, v: eqc(v, 0), loops=True)
    mkwrite("RandUnform", kind, kw, False, 2, cond=lambda rt, v: And(le(rt.lo, v), le(v, rt.hi)), loops=True)
    mkwrite("RandGaussian", kind, kw, False, 2, loops=True)


# ------------------------------------------------------------------ copies
def invcopy():
    def sizes(rt, before=None):
        t, e = rt.t, rt.e
        i = rt.L("i")
        p = e.o.f["size"]
        out = [("range", And(le(0, i), le(i, t.ls))), ("size is alive", not p.buf.freed), ("size has room", eqc(p.buf.n, t.ls)),
               ("sizes copied", Imp(lt(rt.D, i), eqc(p.buf.a.read(rt, p.off + rt.D), t.dim(rt.D)))), ("offset", eqc(p.off, 0))]
        return out

    def cmp(rt):
        t, e = rt.t, rt.e
        i = rt.L("i")
        same = rt.tocond(rt.L("IsSameSize"))
        return [("range", And(le(0, i), le(i, t.ls))), ("all sizes so far agree", same),
                ("D", Imp(lt(rt.D, i), eqc(t.dim(rt.D), e.dim(rt.D)))), ("W", Imp(lt(rt.W, i), eqc(t.dim(rt.W), e.dim(rt.W))))]
    return {("SmartSpace", "CopyTo", 0): Inv(sizes), ("SmartSpace", "CopyTo", 1): Inv(cmp), ("SmartSpace", "CopyTo", 2): Inv(sizes)}


def copied(rt, t, e):
    """contract of CopyTo"""
    # the copy has the value and the shape of this
    rt.goal(And(eqc(e.o.f["ls"], t.ls), eqc(e.o.f["length"], t.len)), "length of the copy")
    rt.goal(eqc(e.dim(rt.D), t.s0.read(rt, rt.D)), "sizes of the copy")
    rt.goal(e.o.f["size"].buf is not t.size, "the copy has its own size array")
    rt.goal(eqc(e.o.f["size"].buf.n, t.ls), "size array has the dimensions of the copy")
    if e.o.f["size"].buf is not e.size:
        rt.goal(e.size.freed, "the previous size array is freed")
    if t.null:
        rt.goal(e.Space is None and e.sharedtimes is None, "a copy of an empty element is empty")
    else:
        rt.goal(e.Space is not None and e.sharedtimes is not None, "the copy has storage")
        rt.goal(eqc(e.now(rt.K), t.old(rt.K)), "entries of the copy")
    # this is not changed
    rt.goal(t.o.f["size"] is t.p0["size"] and t.o.f["ls"].eq(t.ls) and t.o.f["length"].eq(t.len), "the shape of this is kept")
    untouched(rt, t.size, t.s0, "the size array of this")
    if not t.null:
        rt.goal(t.Space is t.p0["Space"] and t.sharedtimes is t.p0["sharedtimes"], "this keeps its storage")
        untouched(rt, t.buf, t.a0, "the storage of this")
        if e.sharedtimes is not None and e.sharedtimes.buf is t.cnt:
            rt.goal(e.Space.buf is t.buf and e.Space.off.eq(t.off) and not t.comp, "shared storage and counter go together, components are not shared")
            rt.goal(eqc(t.count(), t.c + 1), "counter counts the new owner")
        else:
            rt.goal(e.Space.buf is not t.buf, "separate counters have separate storage")
            rt.goal(eqc(t.count(), t.c), "counter of this is kept")
            rt.goal(eqc(e.count(), 1), "counter of the separate copy")
            if e.Space.buf is not e.buf:
                rt.goal(And(eqc(e.Space.off, 0), eqc(e.Space.buf.n, t.len)), "new storage has the length of the copy")
    # the previous storage of eta
    if not e.null:
        one = rt.decide(eqc(e.c, 1))
        if not one:
            untouched(rt, e.buf, e.a0, "the storage of the other owners of eta")
            rt.goal(not e.cnt.freed, "the counter of the other owners of eta")
            rt.goal(eqc(e.cnt.a.read(rt, S.of(0)), e.c - 1), "the counter of the other owners counts them")
            rt.goal(e.Space is None or e.Space.buf is not e.buf, "eta leaves the shared storage")
        elif e.Space is None or e.Space.buf is not e.buf:
            rt.goal(e.buf.freed and e.cnt.freed, "a storage without owner is freed")
        else:
            rt.goal(not e.buf.freed and e.sharedtimes.buf is e.cnt, "eta keeps its storage and counter")
        if e.comp:
            rt.goal(e.Space is not None and e.Space.buf is e.buf and e.Space.off.eq(e.off), "a component stays in the memory of its collection")
            i = var("I", isint=True, nonneg=True)
            rt.fact(And(lt(i, e.buf.n), Or(lt(i, e.off), le(e.off + e.len, i))))
            rt.goal(eqc(e.buf.a.read(rt, i), e.a0.read(rt, i)), "entries of the collection outside the component")


def mkcopy(kt, kwt, ke, kwe):
    @dvob("C01", "SmartSpace::CopyTo, from %s to %s" % (kt, ke), "elem", invs=invcopy())
    def o(rt):
        t = rt.t = Han(rt, "x", **kwt)
        e = rt.e = Han(rt, "y", **kwe)
        rt.this = t.o
        setup(rt, t, e)
        if e.comp:      # a component is only assigned values of its own shape, and is made writable first
            rt.fact(And(eqc(t.ls, e.ls), eqc(t.dim(rt.W), e.dim(rt.W)), eqc(t.dim(rt.D), e.dim(rt.D)), eqc(t.len, e.len)))
            d = var("Dx", isint=True, nonneg=True)
            rt.sameshape = True
        call(rt, t, "CopyTo", e.o)
        copied(rt, t, e)


for kt, kwt in KINDS:
    for ke, kwe in KINDS[:2]:
        mkcopy(kt, kwt, ke, kwe)


def invcomp():
    """eta has the shape of this: every comparison of sizes agrees"""
    d = invcopy()

    def assume(rt):
        i = rt.L("i")
        rt.fact(Imp(lt(i, rt.t.ls), eqc(rt.t.dim(i), rt.e.dim(i))))
    d[("SmartSpace", "CopyTo", 1)] = Inv(d[("SmartSpace", "CopyTo", 1)].conds, assume=assume)
    return d


for kt, kwt in KINDS[1:]:
    def mk_(kt=kt, kwt=kwt):
        @dvob("C01", "SmartSpace::CopyTo, from %s to component of a collection of the same shape" % kt, "elem", invs=invcomp())
        def o(rt):
            t = rt.t = Han(rt, "x", **kwt)
            e = rt.e = Han(rt, "y", comp=True)
            rt.this = t.o
            setup(rt, t, e)
            rt.fact(And(eqc(t.ls, e.ls), eqc(t.dim(rt.W), e.dim(rt.W)), eqc(t.dim(rt.D), e.dim(rt.D)), eqc(t.len, e.len)))
            call(rt, t, "CopyTo", e.o)
            copied(rt, t, e)
    mk_()


@dvob("C01", "SmartSpace::CopyTo, between two handles of one storage", "elem", invs=invcopy())
def copy_shared(rt):
    t = rt.t = Han(rt, "x")
    e = rt.e = Han(rt, "y", share=t)
    rt.this = t.o
    setup(rt, t, e)
    rt.fact(le(2, t.c))
    rt.fact(eqc(t.len, e.len))
    rt.fact(eqc(t.ls, e.ls))      # elements have three dimensions
    call(rt, t, "CopyTo", e.o)
    rt.goal(And(eqc(e.o.f["ls"], t.ls), eqc(e.o.f["length"], t.len)), "length of the copy")
    rt.goal(eqc(e.dim(rt.D), t.s0.read(rt, rt.D)), "sizes of the copy")
    rt.goal(e.Space is e.p0["Space"] and t.Space is t.p0["Space"], "storage stays shared")
    untouched(rt, t.buf, t.a0, "the shared storage")
    rt.goal(eqc(t.count(), t.c), "counter is kept")
    untouched(rt, t.size, t.s0, "the size array of this")


@dvob("C01", "SmartSpace::CopyTo, to itself", "elem", invs=invcopy())
def copy_self(rt):
    t = rt.t = rt.e = Han(rt, "x")
    rt.this = t.o
    setup(rt, t)
    rt.W = rt.D
    call(rt, t, "CopyTo", t.o)
    rt.goal(dict(t.o.f) == t.p0, "nothing happens")
    untouched(rt, t.buf, t.a0, "the storage")
    rt.goal(eqc(t.count(), t.c), "counter is kept")


# ------------------------------------------------------------------ end of life
def ended(rt, h, name):
    rt.goal(h.o.f["size"] is None and h.size.freed, "the size array is freed once")
    rt.goal(h.Space is None and h.sharedtimes is None, "the handle forgets its storage")
    if name == "Delete":
        rt.goal(And(eqc(h.o.f["ls"], 0), eqc(h.o.f["length"], 0)), "no size left")
    if h.null:
        return
    if rt.decide(eqc(h.c, 1)):
        rt.goal(h.buf.freed and h.cnt.freed, "the last owner frees the storage")
    else:
        untouched(rt, h.buf, h.a0, "the storage of the other owners")
        rt.goal(not h.cnt.freed, "the counter of the other owners is alive")
        rt.goal(eqc(h.cnt.a.read(rt, S.of(0)), h.c - 1), "the counter of the other owners counts them")


for nm in ("~SmartSpace", "Delete"):
    for kind, kw in KINDS[:2]:
        def mk_(nm=nm, kind=kind, kw=kw):
            @dvob("C01", "SmartSpace::%s, %s" % (nm, kind), "elem")
            def o(rt):
                h = Han(rt, "x", **kw)
                rt.this = h.o
                setup(rt, h)
                call(rt, h, nm)
                ended(rt, h, nm)
        mk_()


@dvob("C01", "SmartSpace::DeleteBySettingNull and SetByParams, components own nothing", "elem")
def setby(rt):
    h = Han(rt, "x", comp=True)
    rt.this = h.o
    setup(rt, h)
    f = rt.prog.fns[("SmartSpace", "SetByParams")]
    g = Han(rt, "y")
    rt.run([q for q in f if len(q.params) == 2][0], h.o, [g.sharedtimes, g.Space])
    rt.goal(h.Space is g.Space and h.sharedtimes is g.sharedtimes and h.o.f["IsComponent"] is True, "component set")
    untouched(rt, h.buf, h.a0, "previous memory")
    rt.run([q for q in f if len(q.params) == 5][0], h.o, [g.o.f["size"], g.ls, g.len, g.sharedtimes, g.Space])
    rt.goal(h.Space is g.Space and h.sharedtimes is g.sharedtimes and h.o.f["IsComponent"] is True and h.o.f["size"] is g.o.f["size"], "component set")
    rt.goal(And(eqc(h.o.f["ls"], g.ls), eqc(h.o.f["length"], g.len)), "length of the component")
    untouched(rt, g.buf, g.a0, "memory of the collection")
    call(rt, h, "DeleteBySettingNull")
    rt.goal(h.Space is None and h.sharedtimes is None and h.o.f["size"] is None, "component forgets its memory")
    untouched(rt, g.buf, g.a0, "memory of the collection")
    untouched(rt, g.size, g.s0, "size of the collection")
    rt.goal(not g.cnt.freed, "counter of the collection")
