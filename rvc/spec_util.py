"""C18: wavelet transforms, splines and sparse products, for every size and every data (no bound on the loops)."""
from dv import *
from world import *
import sx
import spec_elem as se
from spec_elem import CPtr, lem, ne

sqrt2 = None


def setup(rt):
    se.setup(rt)
    rt.parity, rt.coord = [], []
    rt.intonly = True


def free(rt, name, n=None):
    l = [f for f in rt.prog.fns.get(("", name), []) if n is None or len(f.params) == n]
    if len(l) != 1:
        raise Unsupported("%s: %d candidates" % (name, len(l)))
    return l[0]


def pw(rt, p):
    """2^p by its recurrence"""
    x = ack(rt, "pow2", p, isint=True)
    y = ack(rt, "pow2", p - 1, isint=True)
    rt.fact(Imp(le(0, p), le(1, x)))
    rt.fact(Imp(le(1, p), eqc(x, y * 2)))
    rt.fact(Imp(eqc(p, 0), eqc(x, 1)))
    return x


def levels(rt, n, nm):
    """the number of levels for n entries: 2^P <= n < 2^(P+1)"""
    P = var(nm, isint=True)
    rt.fact(le(0, P))
    rt.fact(le(pw(rt, P), n))
    rt.fact(lt(n, pw(rt, P) * 2))
    return P


def mono(rt, p, P):
    """2^p grows with p"""
    a, b = pw(rt, p), pw(rt, P)
    rt.fact(Imp(And(le(0, p), lt(p, P)), le(a * 2, b)))
    rt.fact(Imp(And(le(0, P), lt(P, p)), le(b * 2, a)))
    rt.fact(Imp(eqc(p, P), eqc(a, b)))


class Fam:
    """the coefficients after each level: F(P,.) is the data, F(p-1,.) one step of averages and differences of F(p,.), by its
    definition; idx(e) maps an entry number along the transformed direction to the index of the real"""

    def __init__(self, rt, name, idx):
        self.rt, self.name, self.idx = rt, name, idx

    def at(self, p, i):
        return ack(self.rt, self.name, p, i)

    def step(self, p, a):
        """definition of F(p-1, .) at entry a, from F(p, .)"""
        rt, k = self.rt, pw(self.rt, p - 1)
        F, idx = self.at, self.idx
        r2 = ssqrt(S.of(2))
        ok = le(1, p)
        now = F(p - 1, idx(a))
        rt.fact(Imp(And(ok, lt(a, k)), eqc(now, (F(p, idx(a * 2)) + F(p, idx(a * 2 + 1))) / r2)))
        rt.fact(Imp(And(ok, le(k, a), lt(a, k * 2)), eqc(now, (F(p, idx((a - k) * 2)) - F(p, idx((a - k) * 2 + 1))) / r2)))
        rt.fact(Imp(And(ok, le(k * 2, a)), eqc(now, F(p, idx(a)))))
        return now


def bufp(rt, name):
    v = rt.L(name)
    return v.buf


def rd(rt, b, i):
    return b.a.read(rt, S.of(i))


def setinit(b, rt, f):
    b.a = ZArr(rt.newname("arr"), (), f)


# ------------------------------------------------------------------ one dimension
def fwd1(name, q):
    K = lambda rt: rt.a * 2 + q

    def A(rt):
        return rt.fam

    def find(rt):
        j, p = rt.L("j"), rt.ghosts["p"]
        mono(rt, p, rt.P)
        return [("power of two", And(le(0, p), eqc(j, pw(rt, p)))), ("at most n", And(le(1, j), le(j, rt.n)))]

    def entry1(rt):
        rt.ghosts["p"] = S.of(0)
        rt.ghost_ty = dict(rt.ghost_ty, p="int")

    def inc(rt):
        rt.ghosts["p"] = rt.ghosts["p"] + 1
        pw(rt, rt.ghosts["p"])

    def dec(rt):
        rt.ghosts["p"] = rt.ghosts["p"] - 1

    def lev(rt):
        j, p = rt.L("j"), rt.ghosts["p"]
        mono(rt, p, rt.P)
        A(rt).step(p + 1, rt.a)
        return [("power of two", And(le(0, p), le(p, rt.P), eqc(j, pw(rt, p)))), ("level", eqc(rd(rt, bufp(rt, "v"), K(rt)), A(rt).at(p, K(rt))))]

    def levstate(rt):
        setinit(bufp(rt, "v"), rt, lambda i: A(rt).at(rt.ghosts["p"], i))

    def steps(rt):
        i, j, p = rt.L("i"), rt.L("j"), rt.ghosts["p"]
        F, a = A(rt), rt.a
        r2 = ssqrt(S.of(2))
        t = rd(rt, bufp(rt, "tmp"), K(rt))
        x, y = F.at(p, F.idx(a * 2)), F.at(p, F.idx(a * 2 + 1))
        z, w = F.at(p, F.idx((a - j) * 2)), F.at(p, F.idx((a - j) * 2 + 1))
        return [("counter", And(le(0, i), le(i, j))), ("averages", Imp(And(lt(a, j), lt(a, i)), eqc(t, (x + y) / r2))),
                ("differences", Imp(And(le(j, a), lt(a, j * 2), lt(a - j, i)), eqc(t, (z - w) / r2)))]

    def copy(rt):
        i, j = rt.L("i"), rt.L("j")
        v, t = rd(rt, bufp(rt, "v"), K(rt)), rd(rt, bufp(rt, "tmp"), K(rt))
        old = A(rt).at(rt.ghosts["p"], K(rt))
        return [("counter", And(le(0, i), le(i, j * 2))), ("copied", Imp(lt(rt.a, i), eqc(v, t))), ("to come", Imp(le(i, rt.a), eqc(v, old)))]
    iv = {("", name, 0): Inv(lambda rt: [("counter", And(le(0, rt.L("i")), le(rt.L("i"), rt.n * 2)))]),
          ("", name, 1): Inv(find, entry=entry1, ghost=inc),
          ("", name, 2): Inv(lev, state=levstate, ghost=dec),
          ("", name, 3): Inv(steps), ("", name, 4): Inv(copy)}

    @dvob("C18", "%s: every level is one step of averages and differences (%s parts)" % (name, ["real", "imaginary"][q]), "other", invs=iv, timeout=120)
    def ob(rt):
        setup(rt)
        n = rt.n = se.dims(rt, "n")
        rt.P = levels(rt, n, "P")
        rt.a = var("a", isint=True)
        rt.fact(le(0, rt.a))
        rt.fact(lt(rt.a, n))
        rt.fam = Fam(rt, "F", lambda e: e * 2 + q)
        v = Buf(ZArr("v", (), lambda i: rt.fam.at(rt.P, i)), "v", n * 2)
        rt.run(free(rt, name), None, [n, CPtr(rt, v, S.of(0))])
        rt.goal(eqc(rd(rt, v, K(rt)), rt.fam.at(S.of(0), K(rt))), "the last level")


def inv1(name, q, e):
    K = lambda rt: rt.a * 2 + q

    def entry1(rt):
        rt.ghosts["p"] = S.of(0)
        rt.ghost_ty = dict(rt.ghost_ty, p="int")

    def inc(rt):
        rt.ghosts["p"] = rt.ghosts["p"] + 1

    def lev(rt):
        j, p = rt.L("j"), rt.ghosts["p"]
        mono(rt, p, rt.P)
        rt.fam.step(p, rt.a)
        return [("power of two", And(le(0, p), le(p, rt.P), eqc(j, pw(rt, p)))), ("level", eqc(rd(rt, bufp(rt, "v"), K(rt)), rt.fam.at(p, K(rt))))]

    def levstate(rt):
        setinit(bufp(rt, "v"), rt, lambda i: rt.fam.at(rt.ghosts["p"], i))

    def assume(rt):
        # the definition of F(p, .) at the two entries that the followed one is computed from, and at the followed one
        p, c = rt.ghosts["p"], rt.c
        k = pw(rt, p)
        rt.fam.step(p + 1, c)
        rt.fam.step(p + 1, c + k)
        rt.fam.step(p + 1, rt.a)

    def steps(rt):
        i, j, p = rt.L("i"), rt.L("j"), rt.ghosts["p"]
        F, c = rt.fam, rt.c
        r2 = ssqrt(S.of(2))
        t = rd(rt, bufp(rt, "tmp"), K(rt))
        x, y = F.at(p, F.idx(c)), F.at(p, F.idx(c + j))
        return [("counter", And(le(0, i), le(i, j))), ("entry", Imp(lt(c, i), eqc(t, ((x + y) if e == 0 else (x - y)) / r2)))]

    def copy(rt):
        i, j = rt.L("i"), rt.L("j")
        v, t = rd(rt, bufp(rt, "v"), K(rt)), rd(rt, bufp(rt, "tmp"), K(rt))
        old = rt.fam.at(rt.ghosts["p"], K(rt))
        return [("counter", And(le(0, i), le(i, j * 2))), ("copied", Imp(lt(rt.a, i), eqc(v, t))), ("to come", Imp(le(i, rt.a), eqc(v, old)))]
    iv = {("", name, 0): Inv(lambda rt: [("counter", And(le(0, rt.L("i")), le(rt.L("i"), rt.n * 2)))]),
          ("", name, 1): Inv(lev, entry=entry1, state=levstate, ghost=inc, assume=assume),
          ("", name, 2): Inv(steps), ("", name, 3): Inv(copy)}

    @dvob("C18", "%s: every level is recovered from the one below (%s parts, %s entries)" % (name, ["real", "imaginary"][q], ["even", "odd"][e]), "other", invs=iv, timeout=120)
    def ob(rt):
        setup(rt)
        n = rt.n = se.dims(rt, "n")
        rt.P = levels(rt, n, "P")
        rt.c = var("c", isint=True)
        rt.a = rt.c * 2 + e
        rt.fact(le(0, rt.c))
        rt.fact(lt(rt.a, n))
        rt.fam = Fam(rt, "F", lambda x: x * 2 + q)
        v = Buf(ZArr("v", (), lambda i: rt.fam.at(S.of(0), i)), "v", n * 2)
        rt.run(free(rt, name), None, [n, CPtr(rt, v, S.of(0))])
        rt.goal(eqc(rd(rt, v, K(rt)), rt.fam.at(rt.P, K(rt))), "the data the transform started from")


for q in (0, 1):
    fwd1("haarFWT_1d", q)
    for e in (0, 1):
        inv1("haarFWT_1d_inverse", q, e)


# ------------------------------------------------------------------ two dimensions
class Pass:
    """invariants of one pass (along the rows of the columns: axis 0, or along the columns: axis 1) of a 2-dimensional transform;
    `data` names the local pointer to the data; ordinals count from `o`"""

    def __init__(self, cls, name, o, axis, inverse, e, data):
        self.cls, self.name, self.o, self.axis, self.inverse, self.e, self.data = cls, name, o, axis, inverse, e, data

    # entry followed along the direction of the pass; the other coordinate
    def co(self, rt):
        return (rt.a, rt.b) if self.axis == 0 else (rt.b, rt.a)

    def fam(self, rt):
        return rt.famA if self.axis == 0 else rt.famB

    def P(self, rt):
        return rt.P1 if self.axis == 0 else rt.P2

    def p(self, rt):
        return rt.ghosts["p%d" % self.axis]

    def setp(self, rt, v):
        rt.ghosts["p%d" % self.axis] = v
        rt.ghost_ty = dict(rt.ghost_ty, **{"p%d" % self.axis: "int"})

    def v(self, rt):
        return bufp(rt, self.data)

    def ge(self, rt, i, k):
        """geometry of columns: no overlap"""
        for x in (i, k):
            if x is not None:
                lem(rt, x, rt.b, rt.n1, rt.n2)

    # -- loops
    def find(self, rt):
        k, p = rt.L("k"), self.p(rt)
        mono(rt, p, self.P(rt))
        n = rt.n1 if self.axis == 0 else rt.n2
        return [("power of two", And(le(0, p), eqc(k, pw(rt, p)))), ("at most n", And(le(1, k), le(k, n)))]

    def lev(self, rt):
        k, p = rt.L("k"), self.p(rt)
        mono(rt, p, self.P(rt))
        x, _ = self.co(rt)
        self.fam(rt).step(p if self.inverse else p + 1, x)
        if self.axis == 1 or self.inverse:
            rt.fact(eqc(rt.famB.at(rt.P2, rt.KK), rt.famA.at(S.of(0), rt.KK)))
        return [("power of two", And(le(0, p), le(p, self.P(rt)), eqc(k, pw(rt, p)))), ("level", eqc(rd(rt, self.v(rt), rt.KK), self.fam(rt).at(p, rt.KK)))]

    def state(self, rt):
        setinit(self.v(rt), rt, lambda i: self.fam(rt).at(self.p(rt), i))

    def assume(self, rt):
        if self.inverse:
            p, c = self.p(rt), rt.c
            k = pw(rt, p)
            F = self.fam(rt)
            for x in (c, c + k, self.co(rt)[0]):
                F.step(p + 1, x)

    def vals(self, rt):
        """(condition, target along the pass, value) of the followed entry of tmp after the step"""
        k, p = rt.L("k"), self.p(rt)
        F = self.fam(rt)
        x, _ = self.co(rt)
        r2 = ssqrt(S.of(2))
        if self.inverse:
            u, w = F.at(p, F.idx(rt.c)), F.at(p, F.idx(rt.c + k))
            return [(lt(rt.c, k), rt.c, ((u + w) if self.e == 0 else (u - w)) / r2)]
        u, w = F.at(p, F.idx(x * 2)), F.at(p, F.idx(x * 2 + 1))
        y, z = F.at(p, F.idx((x - k) * 2)), F.at(p, F.idx((x - k) * 2 + 1))
        return [(lt(x, k), x, (u + w) / r2), (And(le(k, x), lt(x, k * 2)), x - k, (y - z) / r2)]

    def nest(self, rt, inner, copy):
        """(range conditions, predicate: the followed entry whose target along the pass is t is done)"""
        k = rt.L("k")
        if copy:
            k = k * 2
        i, j = (rt.L("i") if inner else None), rt.L("j")
        n = (rt.n2, k) if self.axis == 0 else (k, rt.n1)
        _, oth = self.co(rt)
        out = [("outer", And(le(0, j), le(j, n[0]) if not inner else lt(j, n[0])))]
        if inner:
            out.append(("inner", And(le(0, i), le(i, n[1]))))
        lem(rt, j, rt.b, rt.n1, rt.n2)
        if self.axis == 1 and not copy:
            kk = rt.L("k")
            for x in (j * 2, j * 2 + 1, j + kk):
                lem(rt, x, rt.b, rt.n1, rt.n2)

        def done(t):
            ot, it = (oth, t) if self.axis == 0 else (t, oth)
            return Or(lt(ot, j), And(eqc(ot, j), lt(it, i))) if inner else lt(ot, j)
        return out, done

    def steps(self, inner):
        def conds(rt):
            out, done = self.nest(rt, inner, False)
            t = rd(rt, bufp(rt, "tmp"), rt.KK)
            for q, (c, tg, v) in enumerate(self.vals(rt)):
                out.append(("entry %d" % q, Imp(And(c, done(tg)), eqc(t, v))))
            return out
        return conds

    def copy(self, inner):
        def conds(rt):
            out, done = self.nest(rt, inner, True)
            x, _ = self.co(rt)
            v, t = rd(rt, self.v(rt), rt.KK), rd(rt, bufp(rt, "tmp"), rt.KK)
            hit = And(done(x), lt(x, rt.L("k") * 2))
            out.append(("copied", Imp(hit, eqc(v, t))))
            out.append(("to come", Imp(Not(hit), eqc(v, self.fam(rt).at(self.p(rt), rt.KK)))))
            return out
        return conds

    def invs(self):
        K = lambda i: (self.cls, self.name, self.o + i)
        out = {}
        zero = lambda rt: self.setp(rt, S.of(0))
        inc = lambda rt: self.setp(rt, self.p(rt) + 1)
        dec = lambda rt: self.setp(rt, self.p(rt) - 1)
        o = 0
        if not self.inverse:
            out[K(0)] = Inv(self.find, entry=zero, ghost=inc)
            o = 1
        out[K(o)] = Inv(self.lev, state=self.state, ghost=inc if self.inverse else dec, entry=zero if self.inverse else None, assume=self.assume)
        out[K(o + 1)], out[K(o + 2)] = Inv(self.steps(False)), Inv(self.steps(True))
        out[K(o + 3)], out[K(o + 4)] = Inv(self.copy(False)), Inv(self.copy(True))
        return out


def counter(nm, hi):
    return Inv(lambda rt: [("counter", And(le(0, rt.L(nm)), le(rt.L(nm), hi(rt))))])


def nest2(cls, name, o):
    """two loops over all entries that matter to nobody"""
    def c0(rt):
        lem(rt, rt.L("j"), rt.b, rt.n1, rt.n2)
        return [("outer", And(le(0, rt.L("j")), le(rt.L("j"), rt.n2)))]

    def c1(rt):
        lem(rt, rt.L("j"), rt.b, rt.n1, rt.n2)
        return [("outer", And(le(0, rt.L("j")), lt(rt.L("j"), rt.n2))), ("inner", And(le(0, rt.L("i")), le(rt.L("i"), rt.n1)))]
    return {(cls, name, o): Inv(c0), (cls, name, o + 1): Inv(c1)}


def two(cls, name, inverse, q, e0, e1, data, group, prop):
    """e0, e1: is the followed entry even or odd along the two directions (inverse transforms only)"""
    iv = {}
    if not inverse:
        iv[(cls, name, 0)] = counter("i", lambda rt: rt.n1 * rt.n2)
        iv.update(Pass(cls, name, 1, 0, False, 0, data).invs())
        iv.update(Pass(cls, name, 7, 1, False, 0, data).invs())
    else:
        iv.update(nest2(cls, name, 0))
        iv.update(Pass(cls, name, 2, 1, True, e1, data).invs())
        iv.update(Pass(cls, name, 7, 0, True, e0, data).invs())
        # the half coordinates of the two passes differ
        for k, v in list(iv.items()):
            if k[2] >= 2:
                iv[k] = withc(v, (lambda rt: setattr(rt, "c", rt.c1)) if k[2] < 7 else (lambda rt: setattr(rt, "c", rt.c0)))
    title = "%s%s: %s (%s parts%s)" % (cls + "::" if cls else "", name, "every level is recovered from the one below" if inverse else "every level is one step of averages and differences",
                                       ["real", "imaginary"][q], ", %s row, %s column" % tuple(["even", "odd"][e] for e in (e0, e1)) if inverse else "")

    @dvob(prop, title, group, invs=iv, timeout=300)
    def ob(rt):
        setup(rt)
        n1, n2 = rt.n1, rt.n2 = se.dims(rt, "n1", "n2")
        rt.P1, rt.P2 = levels(rt, n1, "P1"), levels(rt, n2, "P2")
        if inverse:
            rt.c0, rt.c1 = var("c0", isint=True), var("c1", isint=True)
            rt.a, rt.b = rt.c0 * 2 + e0, rt.c1 * 2 + e1
            rt.c = rt.c1
            rt.fact(le(0, rt.c0))
            rt.fact(le(0, rt.c1))
        else:
            rt.a, rt.b = var("a", isint=True), var("b", isint=True)
            rt.fact(le(0, rt.a))
            rt.fact(le(0, rt.b))
        rt.fact(lt(rt.a, n1))
        rt.fact(lt(rt.b, n2))
        lem(rt, rt.b, rt.b, n1, n2)
        rt.KK = (rt.a + rt.b * n1) * 2 + q
        rt.famA = Fam(rt, "A", lambda x: (x + rt.b * n1) * 2 + q)
        rt.famB = Fam(rt, "B", lambda x: (rt.a + x * n1) * 2 + q)
        start = (lambda i: rt.famB.at(S.of(0), i)) if inverse else (lambda i: rt.famA.at(rt.P1, i))
        if cls == "Element":
            h = se.el(rt, "H", n1, n2, True)
            h.arr.extra.a = ZArr("H", (), start)
            r = se.unref(rt.run(se.meth(rt, name, ""), h, []))
            v = r.arr.extra
            se.shape(rt, r, n1, n2, True)
            rt.goal(h.arr.extra is not v and h.arr.extra.a.w == () and h.arr.extra.a.base == "H", "the element keeps its entries")
        else:
            v = Buf(ZArr("v", (), start), "v", n1 * n2 * 2)
            rt.run(free(rt, name), None, [n1, n2, CPtr(rt, v, S.of(0))])
        if inverse:
            rt.goal(eqc(rd(rt, v, rt.KK), rt.famA.at(rt.P1, rt.KK)), "the data the transform started from")
        else:
            rt.goal(eqc(rd(rt, v, rt.KK), rt.famB.at(S.of(0), rt.KK)), "the last level of both directions")


def withc(v, pre):
    def wrap(f):
        if f is None:
            return None

        def g(rt):
            pre(rt)
            return f(rt)
        return g
    return Inv(wrap(v.conds), v.defs, wrap(v.ghost), v.unroll, wrap(v.entry), wrap(v.assume), wrap(v.state))


for q in (0, 1):
    two("", "haarFWT_2d", False, q, 0, 0, "vv", "other", "C18")
    two("Element", "GetHaarFWT", False, q, 0, 0, "vv", "elem", "C18")
    for e0 in (0, 1):
        for e1 in (0, 1):
            two("", "haarFWT_2d_inverse", True, q, e0, e1, "vv", "other", "C18")
            two("Element", "GetInvHaarFWT", True, q, e0, e1, "vv", "elem", "C18")


@dvob("C18", "wavelets: one level keeps the sum of squares of every pair, and entries above stay", "other", timeout=60)
def isometric(rt):
    """lemma over the definition of a level: the pair (2i, 2i+1) becomes the pair (i, i+2^(p-1)), entries from 2^p on stay, so the
    sum of squares over all entries stays"""
    setup(rt)
    p, i, d = var("p", isint=True), var("i", isint=True), var("d", isint=True)
    rt.fact(le(1, p))
    rt.fact(le(0, i))
    k = pw(rt, p - 1)
    rt.fact(eqc(pw(rt, p), k * 2))
    F = Fam(rt, "F", lambda e: e * 2)
    if rt.decide(lt(i, k)):
        x, y = F.step(p, i), F.step(p, i + k)
        u, w = F.at(p, i * 4), F.at(p, (i * 2 + 1) * 2)
        rt.goal(eqc(x * x + y * y, u * u + w * w), "sum of squares of a pair")
    rt.fact(le(pw(rt, p), d))
    rt.goal(eqc(F.step(p, d), F.at(p, d * 2)), "entries above stay")
