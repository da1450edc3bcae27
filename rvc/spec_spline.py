"""C18: cubic splines. The solvers of the two linear systems return a solution of the system they are given; the interpolants built
on them pass through the knots with continuous first and second derivatives and the stated end conditions; the evaluation functions
choose the piece the argument lies in and evaluate its polynomial; the derivative coefficients are those of the derivative."""
from dv import *
from world import *
import spec_elem as se
from spec_util import setup as setup0, rd, setinit, counter


def setup(rt):
    setup0(rt)
    rt.biglimit = 0
    rt.cong = True
    rt.intonly = True
    rt.eps = var("eps", pos=True)


def method(rt, name):
    l = rt.prog.fns.get(("Spline", name), [])
    if len(l) != 1:
        raise Unsupported("Spline::%s: %d candidates" % (name, len(l)))
    return l[0]


def arr(rt, name, n, init=None):
    return Buf(ZArr(name, (), init), name, n)


def zp(rt, b):
    return ZPtr(rt, b, S.of(0))


def lp(rt, name):
    v = rt.L(name)
    return v.get() if isinstance(v, (Cell, FieldCell)) else v


def at(rt, name, i):
    """entry i of the array the local pointer points to"""
    p = lp(rt, name)
    return p.buf.a.read(rt, p.off + i)


def isat(rt, i, *offs):
    """case split: the followed row r is i + off for one of the offsets (and is called so from here on), or none of them"""
    for o in offs:
        if rt.decide(eqc(rt.r, i + o)):
            rt.r = i + o
            return True
    return False


def lincomb(rt, e, known, name):
    """e = 0, as a combination of expressions that are zero (each of them is an obligation of its own)"""
    for k, (m, z) in enumerate(known):
        rt.goal(eqc(z, 0), "%s: relation %d" % (name, k))
    d = e
    for m, z in known:
        d = d - S.of(m) * z
    rt.goal(True if d.iszero() else False if d.isconst() else eqc(d, 0), name)


def rngi(rt, nm, lo, hi):
    v = var(nm, isint=True)
    rt.fact(le(lo, v))
    rt.fact(lt(v, hi))
    return v


# ------------------------------------------------------------------ the tridiagonal system
def tri():
    names = ("d", "ud", "ld", "vec")

    def o(rt, nm, i):
        return ack(rt, nm + "0", i)

    def elim(rt):
        i, r = rt.L("i"), rt.r
        d = lambda k: at(rt, "d", k)
        v = lambda k: at(rt, "vec", k)
        out = [("counter", And(le(0, i), le(i, rt.n - 1)))]
        out.append(("row r is not touched before its turn", Imp(lt(i, r), And(eqc(d(r), o(rt, "d", r)), eqc(v(r), o(rt, "vec", r))))))
        out.append(("row r - 1 is not touched before its turn", Imp(lt(i, r - 1), And(eqc(d(r - 1), o(rt, "d", r - 1)), eqc(v(r - 1), o(rt, "vec", r - 1))))))
        out.append(("lower diagonal", Imp(le(i, r - 1), eqc(at(rt, "ld", r - 1), o(rt, "ld", r - 1)))))
        out.append(("first row", Imp(eqc(r, 0), And(eqc(d(r), o(rt, "d", r)), eqc(v(r), o(rt, "vec", r))))))
        ok = And(le(r, i), le(1, r), Not(eqc(d(r - 1), 0)))
        l = o(rt, "ld", r - 1)
        out.append(("pivot", Imp(ok, eqc(d(r) * d(r - 1), o(rt, "d", r) * d(r - 1) - at(rt, "ud", r - 1) * l))))
        out.append(("right-hand side", Imp(ok, eqc(v(r) * d(r - 1), o(rt, "vec", r) * d(r - 1) - v(r - 1) * l))))
        return out

    def back(rt):
        i, n = rt.L("i"), rt.n
        out = [("counter", And(le(-1, i), le(i, n - 2)))]
        out.append(("last", eqc(at(rt, "s", n - 1) * at(rt, "d", n - 1), at(rt, "vec", n - 1))))
        out.append(("last pivot", Not(eqc(at(rt, "d", n - 1), 0))))
        for q in (rt.r, rt.r - 1):
            c = And(lt(i, q), le(0, q), le(q, n - 2))
            out.append(("row", Imp(c, eqc(at(rt, "s", q) * at(rt, "d", q), at(rt, "vec", q) - at(rt, "s", q + 1) * at(rt, "ud", q)))))
            out.append(("pivot", Imp(c, Not(eqc(at(rt, "d", q), 0)))))
        return out

    def split(rt):
        i = rt.L("i") + 1
        isat(rt, i, 0, 1)

    @dvob("C18", "Spline::SolveTridiagonalSystem: what it returns solves the system it was given", "other",
          invs={("Spline", "SolveTridiagonalSystem", 0): Inv(elim, ghost=lambda rt: isat(rt, rt.L("i"), 0, 1)), ("Spline", "SolveTridiagonalSystem", 1): Inv(back, ghost=split)}, timeout=120)
    def ob(rt):
        setup(rt)
        n = rt.n = var("n", isint=True)
        rt.fact(le(2, n))
        r = rt.r = rngi(rt, "r", 0, n)
        rt.checkbounds = True
        b = {nm: arr(rt, nm + "0", n if nm in ("d", "vec") else n - 1) for nm in names}
        b["s"] = arr(rt, "s0", n)
        ret = rt.run(method(rt, "SolveTridiagonalSystem"), None, [zp(rt, b[k]) for k in ("d", "ud", "ld", "vec", "s")] + [n])
        rt.checkbounds = False
        ret = rt.tonum(ret)
        rt.goal(Or(eqc(ret, 0), eqc(ret, 1)), "result code")
        if rt.decide(eqc(ret, 0)):
            return
        g = lambda nm, k: rd(rt, b[nm], k)
        s, d, v = (lambda k: g("s", k)), (lambda k: g("d", k)), (lambda k: g("vec", k))
        rt.goal(eqc(g("ud", r), o(rt, "ud", r)), "upper diagonal kept")
        U = o(rt, "ud", r)
        if rt.decide(eqc(r, 0)):
            rt.goal(eqc(d(r) * s(r) + U * s(r + 1), v(r)), "first row, eliminated")
            rt.goal(eqc(o(rt, "d", r) * s(r) + U * s(r + 1), o(rt, "vec", r)), "first row")
            return
        D, l = d(r - 1), o(rt, "ld", r - 1)
        rt.goal(Not(eqc(D, 0)), "pivot of the row above")
        rt.goal(eqc(g("ud", r - 1), o(rt, "ud", r - 1)), "upper diagonal kept above")
        Um = o(rt, "ud", r - 1)
        last = rt.decide(eqc(r, n - 1))
        e1 = d(r) * D - o(rt, "d", r) * D + Um * l
        e2 = v(r) * D - o(rt, "vec", r) * D + v(r - 1) * l
        e3 = s(r - 1) * D - v(r - 1) + s(r) * Um
        e4 = s(r) * d(r) - v(r) + (S.of(0) if last else s(r + 1) * U)
        res = o(rt, "d", r) * s(r) + l * s(r - 1) - o(rt, "vec", r) + (S.of(0) if last else U * s(r + 1))
        lincomb(rt, res * D, [(D, e4), (S.of(0) - s(r), e1), (l, e3), (S.of(1), e2)], "row r times the pivot above")


tri()


# ------------------------------------------------------------------ the periodic system
def keepat(rt, name, cond, f):
    """the array behind local `name` is f(k) where cond(k) (proved at the followed index), anything elsewhere"""
    b = lp(rt, name).buf
    nm = rt.newname("arr")

    def val(k):
        c = cond(k)
        v = rt.fold(c)
        v = rt.solver.entailed(rt, c) if v is None else v
        return rt.ite(c, f(k), ack(rt, nm, k)) if v is None else f(k) if v else ack(rt, nm, k)
    setinit(b, rt, val)


class Per:
    """the cyclic system  ld(i) u(i-1) + 2 u(i) + ud(i) u(i+1) = vec(i)  with 0 < ld, ud < 1; U is any solution of the system the
    elimination ends with, r the followed row of the one it starts with"""
    names = ("d", "ud", "ld", "vec")

    def o(self, rt, nm, i):
        if nm == "d":
            return S.of(2)
        x = ack(rt, nm + "0", i)
        if nm in ("ud", "ld"):
            rt.fact(Imp(And(le(0, i), lt(i, rt.nn)), And(lt(0, x), lt(x, 1))))
        return x

    def U(self, rt, i):
        return ack(rt, "U", i)

    def row(self, rt, j):
        """residual of the eliminated row j <= nn - 3 at U, from the current arrays"""
        return at(rt, "d", j) * self.U(rt, j) + at(rt, "ud", j) * self.U(rt, j + 1) + at(rt, "last_column", j) * self.U(rt, rt.nn - 1) - at(rt, "vec", j)

    def orow(self, rt, j):
        """residual of row j of the system that was given, at U (0 < j < nn - 1)"""
        return self.o(rt, "ld", j) * self.U(rt, j - 1) + self.o(rt, "d", j) * self.U(rt, j) + self.o(rt, "ud", j) * self.U(rt, j + 1) - self.o(rt, "vec", j)

    def orow0(self, rt):
        n = rt.nn
        return self.o(rt, "ld", S.of(0)) * self.U(rt, n - 1) + self.o(rt, "d", 0) * self.U(rt, S.of(0)) + self.o(rt, "ud", S.of(0)) * self.U(rt, S.of(1)) - self.o(rt, "vec", S.of(0))

    def orowl(self, rt):
        n = rt.nn
        return self.o(rt, "ld", n - 1) * self.U(rt, n - 2) + self.o(rt, "d", n - 1) * self.U(rt, n - 1) + self.o(rt, "ud", n - 1) * self.U(rt, S.of(0)) - self.o(rt, "vec", n - 1)


def per_elim(case):
    """case: "first", "mid" (0 < r < nn - 2), "prev" (r = nn - 2), "last" (r = nn - 1)"""
    P = Per()

    def elim(rt):
        i, r, n = rt.L("i"), rt.r, rt.nn
        out = [("counter", And(le(0, i), le(i, n - 3)))]
        out.append(("pivot", le(1, at(rt, "d", i))))
        c = And(lt(i, r), lt(r, n - 1))
        out.append(("rows below are not touched: diagonal", Imp(c, eqc(at(rt, "d", r), 2))))
        out.append(("rows below are not touched: right-hand side", Imp(c, eqc(at(rt, "vec", r), P.o(rt, "vec", r)))))
        if case in ("first", "mid"):
            res = P.orow(rt, r) if case == "mid" else P.orow0(rt)
            out.append(("row", Imp(le(r, i), eqc(P.row(rt, r), res))))
        if case == "last":
            out.append(("row", eqc(rt.tonum(rt.L("temp")) * P.U(rt, i) + P.o(rt, "ld", n - 1) * P.U(rt, n - 2) + at(rt, "d", n - 1) * P.U(rt, n - 1) - at(rt, "vec", n - 1), P.orowl(rt))))
        else:
            out.append(("the current row", Imp(eqc(i, 0), eqc(at(rt, "last_column", S.of(0)), P.o(rt, "ld", S.of(0))))))
        # rows that are finished stay as they were when they were used
        g = rt.ghosts
        j = rt.j
        out.append(("finished rows stay", Imp(lt(j, i), And(*[eqc(at(rt, nm, j), g["g_" + nm]) for nm in ("d", "ud", "vec", "last_column")]))))
        return out

    def entry(rt):
        for nm in ("d", "ud", "vec", "last_column"):
            rt.ghosts["g_" + nm] = S.of(0)
            rt.ghost_ty = dict(rt.ghost_ty, **{"g_" + nm: "real"})

    def state(rt):
        i, n = rt.L("i"), rt.nn
        rt.fact(le(0, i))            # the first part of the invariant, before it is used
        rt.fact(le(i, n - 3))
        keepat(rt, "d", lambda k: And(lt(i, k), lt(k, n - 1)), lambda k: S.of(2))
        keepat(rt, "vec", lambda k: And(lt(i, k), lt(k, n - 1)), lambda k: P.o(rt, "vec", k))

    def assume(rt):
        # U solves the eliminated system: its row i, as it is now
        i = rt.L("i")
        rt.fact(Imp(lt(i, rt.nn - 3), eqc(P.row(rt, i), 0)))
        rt.stash = {nm: at(rt, nm, i) for nm in ("d", "ud", "vec", "last_column")}
        P.o(rt, "ld", i + 1), P.o(rt, "ud", i), P.o(rt, "ud", i + 1)
        if case == "last":
            n = rt.nn
            rt.l0 = (rt.tonum(rt.L("temp")), at(rt, "d", n - 1), at(rt, "vec", n - 1), at(rt, "d", i), P.row(rt, i))

    def ghost(rt):
        i = rt.L("i") - 1
        if rt.decide(eqc(rt.j, i)):
            for nm, v in rt.stash.items():
                rt.ghosts["g_" + nm] = v
        if case == "last":
            n = rt.nn
            lin = lambda t, k, d, v: t * P.U(rt, k) + P.o(rt, "ld", n - 1) * P.U(rt, n - 2) + d * P.U(rt, n - 1) - v - P.orowl(rt)
            t, d, v, pv, row = rt.l0
            e = lin(rt.tonum(rt.L("temp")), i + 1, at(rt, "d", n - 1), at(rt, "vec", n - 1))
            lincomb(rt, e, [(S.of(1), lin(t, i, d, v)), (S.of(0) - t / pv, row)], "last row after one more step")
            rt.fact(eqc(e, 0))
        if case == "mid":
            isat(rt, i, 0, 1)

    def back(rt):
        return [("counter", And(le(0, rt.L("i")), le(rt.L("i"), rt.nn - 2)))]
    txt = {"first": "first row", "mid": "inner rows", "prev": "next to last row", "last": "last row"}[case]

    @dvob("C18", "Spline::SolvePeriodicSystem: a solution of the eliminated system solves the one that was given (%s)" % txt, "other",
          invs={("Spline", "SolvePeriodicSystem", 0): Inv(elim, entry=entry, state=state, assume=assume, ghost=ghost),
                ("Spline", "SolvePeriodicSystem", 1): Inv(back)}, timeout=200)
    def ob(rt):
        setup(rt)
        n = rt.nn = var("nn", isint=True)
        rt.fact(le(3, n))
        j = rt.j = var("j", isint=True)
        rt.fact(le(0, j))
        rt.fact(Imp(lt(3, n), lt(j, n - 3)))
        r = rt.r = rngi(rt, "r", 1, n - 2) if case == "mid" else {"first": S.of(0), "prev": n - 2, "last": n - 1}[case]
        b = {nm: arr(rt, nm + "0", n, lambda k, nm=nm: P.o(rt, nm, k)) for nm in P.names}
        b["s"] = arr(rt, "s0", n + 1)
        rt.lc = None
        fn_ = method(rt, "SolvePeriodicSystem")
        keep = rt.newarray

        def newarray(ty, cnt):
            p = keep(ty, cnt)
            rt.lc = p.buf
            return p
        rt.newarray = newarray
        # what the arrays are after the elimination: nothing writes them afterwards
        ret = rt.tonum(rt.run(fn_, None, [zp(rt, b[k]) for k in ("d", "ud", "ld", "vec", "s")] + [n]))
        if rt.decide(eqc(ret, 0)):
            return
        g = lambda nm, k: rd(rt, b[nm], k)
        # U solves the system the elimination ended with
        lc = lambda k: rd(rt, rt.lc, k)
        m = n - 3
        for nm in ("d", "ud", "vec"):
            rt.goal(Imp(lt(3, n), eqc(g(nm, j), rt.ghosts["g_" + nm])), "finished rows stay: " + nm)
        rt.goal(Imp(lt(3, n), eqc(lc(j), rt.ghosts["g_last_column"])), "finished rows stay: last column")
        z3_ = g("d", m) * P.U(rt, m) + g("ud", m) * P.U(rt, m + 1) + lc(m) * P.U(rt, n - 1) - g("vec", m)
        z2_ = g("d", n - 2) * P.U(rt, n - 2) + g("ud", n - 2) * P.U(rt, n - 1) - g("vec", n - 2)
        z1_ = g("d", n - 1) * P.U(rt, n - 1) - g("vec", n - 1)
        for z in (z3_, z2_, z1_):
            rt.fact(eqc(z, 0))
        if case == "mid":
            rt.goal(Imp(lt(r, m), eqc(g("d", r) * P.U(rt, r) + g("ud", r) * P.U(rt, r + 1) + lc(r) * P.U(rt, n - 1) - g("vec", r), P.orow(rt, r))), "row r")
            rt.goal(Imp(eqc(r, m), eqc(P.orow(rt, r), 0)), "row nn - 3")
            # rows below nn - 3: finished rows are those that were used
            rt.fact(Imp(lt(r, m), eqc(g("d", r) * P.U(rt, r) + g("ud", r) * P.U(rt, r + 1) + lc(r) * P.U(rt, n - 1) - g("vec", r), 0)))
            rt.goal(eqc(P.orow(rt, r), 0), "row r of the system that was given")
        elif case == "first":
            if rt.decide(lt(S.of(0), m)):
                rt.fact(eqc(g("d", r) * P.U(rt, r) + g("ud", r) * P.U(rt, r + 1) + lc(r) * P.U(rt, n - 1) - g("vec", r), 0))
            rt.goal(eqc(P.orow0(rt), 0), "first row of the system that was given")
        elif case == "prev":
            e = P.orow(rt, r)
            lincomb(rt, e, [(S.of(1), z2_), (P.o(rt, "ld", r) / g("d", m), z3_)], "row nn - 2, combined")
            rt.fact(eqc(e, 0))
            rt.goal(eqc(P.orow(rt, r), 0), "row nn - 2 of the system that was given")
        else:
            t, d, v, _, _ = rt.l0
            linv = t * P.U(rt, m) + P.o(rt, "ld", n - 1) * P.U(rt, n - 2) + d * P.U(rt, n - 1) - v - P.orowl(rt)
            e = P.orowl(rt)
            lincomb(rt, e, [(S.of(1), z1_), (g("ld", n - 1) / g("d", n - 2), z2_), (S.of(-1), linv), (t / g("d", m), z3_)], "last row, combined")
            rt.fact(eqc(e, 0))
            rt.goal(eqc(P.orowl(rt), 0), "last row of the system that was given")
        rt.goal(rt.lc.freed, "the work space is freed")


for case in ("first", "mid", "prev", "last"):
    per_elim(case)


def per_back():
    P = Per()

    def elim(rt):
        i, n = rt.L("i"), rt.nn
        return [("counter", And(le(0, i), le(i, n - 3))), ("pivot", le(1, at(rt, "d", i)))]

    def state(rt):
        i, n = rt.L("i"), rt.nn
        rt.fact(le(0, i))            # the first part of the invariant, before it is used
        rt.fact(le(i, n - 3))
        keepat(rt, "d", lambda k: And(lt(i, k), lt(k, n - 1)), lambda k: S.of(2))

    def assume(rt):
        i = rt.L("i")
        P.o(rt, "ld", i + 1), P.o(rt, "ud", i), P.o(rt, "ud", i + 1)

    def below(rt):
        i, r, n = rt.L("i"), rt.r, rt.nn
        return elim(rt) + [("rows below are not touched", Imp(And(lt(i, r), lt(r, n - 1)), eqc(at(rt, "d", r), 2)))]

    def back(rt):
        i, n, r = rt.L("i"), rt.nn, rt.r
        s = lambda k: at(rt, "s", k)
        d = lambda k: at(rt, "d", k)
        v = lambda k: at(rt, "vec", k)
        out = [("counter", And(le(0, i), le(i, n - 2)))]
        out.append(("last row", eqc(d(n - 1) * s(n), v(n - 1))))
        out.append(("row before it", eqc(d(n - 2) * s(n - 1) + at(rt, "ud", n - 2) * s(n), v(n - 2))))
        row = d(r) * s(r + 1) + at(rt, "ud", r) * s(r + 2) + at(rt, "last_column", r) * s(n) - v(r)
        out.append(("row", Imp(And(le(i, r), lt(r, n - 2)), eqc(row, 0))))
        return out

    def split(rt):
        i = rt.L("i") + 1
        isat(rt, i, -1, -2)

    @dvob("C18", "Spline::SolvePeriodicSystem: what it returns solves the eliminated system", "other",
          invs={("Spline", "SolvePeriodicSystem", 0): Inv(below, state=state, assume=assume), ("Spline", "SolvePeriodicSystem", 1): Inv(back, ghost=split)}, timeout=200)
    def ob(rt):
        setup(rt)
        n = rt.nn = var("nn", isint=True)
        rt.fact(le(3, n))
        r = rt.r = rngi(rt, "r", 0, n)
        b = {nm: arr(rt, nm + "0", n, lambda k, nm=nm: P.o(rt, nm, k)) for nm in P.names}
        b["s"] = arr(rt, "s0", n + 1)
        rt.checkbounds = True
        keep = rt.newarray

        def newarray(ty, cnt):
            p = keep(ty, cnt)
            rt.lc = p.buf
            return p
        rt.newarray = newarray
        ret = rt.tonum(rt.run(method(rt, "SolvePeriodicSystem"), None, [zp(rt, b[k]) for k in ("d", "ud", "ld", "vec", "s")] + [n]))
        rt.checkbounds = False
        rt.goal(Or(eqc(ret, 0), eqc(ret, 1)), "result code")
        if rt.decide(eqc(ret, 0)):
            return
        g = lambda nm, k: rd(rt, b[nm], k)
        s = lambda k: g("s", k)
        rt.goal(eqc(s(S.of(0)), s(n)), "s(0) = s(nn)")
        rt.goal(eqc(g("d", n - 1) * s(n), g("vec", n - 1)), "last row")
        rt.goal(eqc(g("d", n - 2) * s(n - 1) + g("ud", n - 2) * s(n), g("vec", n - 2)), "row before it")
        row = g("d", r) * s(r + 1) + g("ud", r) * s(r + 2) + rd(rt, rt.lc, r) * s(n) - g("vec", r)
        rt.goal(Imp(lt(r, n - 2), eqc(row, 0)), "row")


per_back()


# ------------------------------------------------------------------ interpolants
KINDS = {"SplineUniformPeriodic": (True, True), "SplinePeriodic": (False, True), "SplineUniformSlopes": (True, False), "SplineSlopes": (False, False)}


class Itp:
    def __init__(self, name):
        self.name = name
        self.uniform, self.periodic = KINDS[name]

    def X(self, rt, i):
        x = ack(rt, "X", S.of(i))
        return x

    def Y(self, rt, i):
        return ack(rt, "Y", S.of(i))

    def h(self, rt, i):
        """length of piece i"""
        if self.uniform:
            return rt.h
        x = self.X(rt, i + 1) - self.X(rt, i)
        rt.fact(lt(0, x))            # knots increase
        return x

    def sl(self, rt, i):
        return (self.Y(rt, i + 1) - self.Y(rt, i)) / self.h(rt, i)

    def spec(self, rt, i):
        """row of the system at the knot between pieces i and i + 1, times the length of both: l s(k) + d s(k+1) + u s(k+2) = v"""
        a, b = self.h(rt, i), self.h(rt, self.next(rt, i))
        return a / (a + b), S.of(2), b / (a + b), 6 / (a + b) * (self.sl(rt, self.next(rt, i)) - self.sl(rt, i))

    def next(self, rt, i):
        return S.of(0) if getattr(rt, "wrap", False) else i + 1


def contract(rt, it, periodic):
    """the solvers, by what is proved of them, at the followed row; the arrays they are given are parts of one array"""
    def call(rt_, a):
        d, ud, ld, vec, s, n = [v.get() if isinstance(v, (Cell, FieldCell)) else v for v in a]
        rt.goal(eqc(n, rt.n - 1 if periodic else rt.n), "size of the system")
        parts = [(d, n), (ud, n if periodic else n - 1), (ld, n if periodic else n - 1), (vec, n), (s, n + 1 if periodic else n)]
        buf = d.buf
        rt.goal(all(p.buf is buf for p, _ in parts), "parts of one array")
        rt.goal(And(*[And(le(0, p.off), le(p.off + k, buf.n)) for p, k in parts]), "the parts are inside the array")
        for i, (p, k) in enumerate(parts):
            for q, m in parts[:i]:
                rt.goal(Or(le(p.off + k, q.off), le(q.off + m, p.off)), "the parts do not overlap")
        at_ = lambda p, i: buf.a.read(rt, p.off + i)
        r = rt.row
        if periodic:
            D, L, U, V = at_(d, r), at_(ld, r), at_(ud, r), at_(vec, r)
            rt.goal(And(eqc(D, 2), lt(0, L), lt(L, 1), lt(0, U), lt(U, 1)), "the system is one the solver is made for")
        else:
            first, last = eqc(r, 0), eqc(r, n - 1)
            D, V = at_(d, r), at_(vec, r)
            L = S.of(0) if rt.where == 0 else at_(ld, r - 1)
            U = S.of(0) if rt.where == 2 else at_(ud, r)
        rt.sys = (L, D, U, V)
        buf.a = buf.a.fresh(rt)
        ok = batom("solved")
        if not rt.decide(ok):
            return S.of(0)
        if periodic:
            rt.fact(eqc(at_(s, S.of(0)), at_(s, n)))
            lo, mid, hi = at_(s, r), at_(s, r + 1), at_(s, S.of(1)) if rt.wrap else at_(s, r + 2)
        else:
            lo = S.of(0) if rt.where == 0 else at_(s, r - 1)
            mid = at_(s, r)
            hi = S.of(0) if rt.where == 2 else at_(s, r + 1)
        rt.sol = (lo, mid, hi)
        rt.res = L * lo + D * mid + U * hi - V
        rt.fact(eqc(rt.res, 0))
        rt.s = s
        rt.sbuf = buf.a
        return S.of(1)
    rt.over["SolvePeriodicSystem" if periodic else "SolveTridiagonalSystem"] = call


def interpolant(name, where):
    """where: 0 first row/knot, 1 inner rows, 2 last row"""
    it = Itp(name)

    def rows(rt):
        i, n = rt.L("i"), rt.n
        nn = n - 1
        if it.periodic:
            r = rt.row
            l, d, u, v = it.spec(rt, r)
            out = [("counter", And(le(0, i), le(i, nn)))]
            out += [("row: " + t, Imp(lt(r, i), eqc(at(rt, nm, r), x))) for t, nm, x in (("lower", "ld", l), ("diagonal", "d", d), ("upper", "ud", u), ("right", "vec", v))]
            return out
        out = [("counter", And(le(1, i), le(i, nn)))]
        if where == 1:
            r = rt.row
            l, d, u, v = it.spec(rt, r - 1)
            out += [("row: " + t, Imp(lt(r, i), eqc(at(rt, nm, q), x))) for t, nm, q, x in (("lower", "ld", r - 1, l), ("diagonal", "d", r, d), ("upper", "ud", r, u), ("right", "vec", r, v))]
        return out

    def split(rt):
        i = rt.L("i") - 1
        if where == 1 and rt.decide(eqc(rt.row, i)):
            rt.row = i

    def entry(rt):
        # the followed row by its own name again
        rt.row = rt.row0

    def fill(rt):
        i, nn = rt.L("i"), rt.n - 1
        out = [("counter", And(le(0, i), le(i, nn)))]
        out.append(("solution", eqc(rt.s.buf.a.read(rt, rt.s.off + rt.p), rt.sbuf.read(rt, rt.s.off + rt.p))))
        for q in rt.pieces:
            out += [("piece", Imp(lt(q, i), eqc(at(rt, "coefs", nn * k + q), x))) for k, x in enumerate(coef(rt, q))]
        return out

    def coef(rt, q):
        s = lambda k: rt.sbuf.read(rt, rt.s.off + k)
        if it.periodic:
            lo = s(q)
        h = it.h(rt, q)
        return [(s(q + 1) - s(q)) / (6 * h), s(q) / 2, S.of(0) - s(q) * h / 2 + it.sl(rt, q) - h * (s(q + 1) - s(q)) / 6, it.Y(rt, q)]

    def split2(rt):
        i = rt.L("i") - 1
        for k, q in enumerate(rt.pieces):
            if rt.decide(eqc(q, i)):
                rt.pieces[k] = i
                return
    txt = ["first", "inner", "last"][where]

    @dvob("C18", "Spline::%s: knots, continuous derivatives, end conditions (%s knot)" % (name, txt), "other",
          invs={("Spline", name, 0): Inv(rows, entry=entry, ghost=split), ("Spline", name, 1): Inv(fill, ghost=split2)}, timeout=200)
    def ob(rt):
        setup(rt)
        n = rt.n = var("n", isint=True)
        rt.fact(le(4 if it.periodic else 2, n))
        nn = n - 1
        rt.h = var("h", pos=True)
        rt.where = where
        rt.wrap = it.periodic and where == 2
        if it.periodic:
            rt.row0 = nn - 1 if where == 2 else rngi(rt, "r", 0, nn - 1)
            rt.pieces = [nn - 1, S.of(0)] if where == 2 else [rt.row0, rt.row0 + 1]
        else:
            rt.row0 = S.of(0) if where == 0 else nn if where == 2 else rngi(rt, "r", 1, nn)
            rt.pieces = [S.of(0)] if where == 0 else [nn - 1] if where == 2 else [rt.row0 - 1, rt.row0]
        rt.row = rt.row0
        pieces = list(rt.pieces)
        for q in pieces:
            it.h(rt, q)
        rt.p = rngi(rt, "p", 0, n)
        if rt.wrap:
            rt.fact(eqc(it.Y(rt, nn), it.Y(rt, S.of(0))))       # periodic data
        contract(rt, it, it.periodic)
        Xb, Yb, cb = arr(rt, "X", n), arr(rt, "Y", n), arr(rt, "coefs", nn * 4)
        rt.checkbounds = True
        a = [zp(rt, Yb), n, rt.h, zp(rt, cb)] if it.uniform else [zp(rt, Xb), zp(rt, Yb), n, zp(rt, cb)]
        ret = rt.tonum(rt.run(method(rt, name), None, a))
        rt.checkbounds = False
        rt.goal(And(Imp(eqc(ret, 0), Not(batom("solved"))), Imp(Not(eqc(ret, 0)), batom("solved"))), "result code")
        if rt.decide(eqc(ret, 0)):
            return
        rt.pieces = pieces
        c = lambda k, q: rd(rt, cb, nn * k + q)
        C_ = [[c(k, q) for k in range(4)] for q in pieces]
        F = [coef(rt, q) for q in pieces]
        H = [it.h(rt, q) for q in pieces]
        for q, cc, f, h in zip(pieces, C_, F, H):
            for k in range(4):
                rt.goal(eqc(cc[k], f[k]), "coefficient %d of a piece" % k)
            rt.goal(eqc(f[3], it.Y(rt, q)), "left knot")
            rt.goal(eqc(((f[0] * h + f[1]) * h + f[2]) * h + f[3], it.Y(rt, q + 1)), "right knot")
        L, D, U, V = rt.sys
        lo, mid, hi = rt.sol
        if len(pieces) == 2:
            a, b = F
            h, g = H
            l, d, u, v = it.spec(rt, pieces[0])
            rt.goal(And(eqc(L, l), eqc(D, d), eqc(U, u), eqc(V, v)), "row of the system")
            q = pieces[0]
            s = lambda k: rt.sbuf.read(rt, rt.s.off + k)
            z = l * s(q) + d * s(q + 1) + u * (s(S.of(1)) if rt.wrap else s(q + 2)) - v
            s1 = s(S.of(0)) if rt.wrap else s(q + 1)
            lincomb(rt, z, [(S.of(1), rt.res), (lo, l - L), (mid, d - D), (hi, u - U), (S.of(-1), v - V)], "the row the solution satisfies")
            rt.fact(eqc(z, 0))
            w = s(q + 1) - s1
            rt.goal(eqc(w, 0), "second derivative at the knot, both sides")
            lincomb(rt, 6 * a[0] * h + 2 * a[1] - 2 * b[1], [(S.of(1), w)], "second derivative is continuous")
            e = (3 * a[0] * h + 2 * a[1]) * h + a[2] - b[2]
            lincomb(rt, e, [((h + g) / 6, z), (S.of(0) - g / 3, w)], "first derivative is continuous")
            return
        # end slopes: the difference quotient of the first or last two knots
        f, h = F[0], H[0]
        q = pieces[0]
        slope = f[2] if where == 0 else (3 * f[0] * h + 2 * f[1]) * h + f[2]
        rt.goal(eqc(rt.res, 0), "row")
        lincomb(rt, slope - it.sl(rt, q), [(S.of(-1) if where == 0 else S.of(1), L * lo + D * mid + U * hi - V)], "slope at the end")


for name in KINDS:
    for where in ((1, 2) if KINDS[name][1] else (0, 1, 2)):
        interpolant(name, where)


# ------------------------------------------------------------------ evaluation
def evaluation(name, degree, uniform):
    def brk(rt, i):
        return S.of(i) * rt.h if uniform else ack(rt, "X", S.of(i))

    def incr(rt, a, b):
        """break points increase"""
        x, y = brk(rt, a), brk(rt, b)
        rt.fact(Imp(lt(a, b), lt(x, y)))
        rt.fact(Imp(lt(b, a), lt(y, x)))
        rt.fact(Imp(eqc(a, b), eqc(x, y)))

    def inv(rt):
        i, t = rt.L("i"), rt.L("t")
        out = [("counter", le(0, i)), ("argument", eqc(t, rt.t))]
        if not uniform:
            out.append(("knots", le(i, rt.N)))
            out.append(("passed", Imp(lt(0, i), le(S.of(0) - rt.eps, t - brk(rt, i - 1)))))
        else:
            incr(rt, i, S.of(0))
            out.append(("passed", Imp(lt(0, i), Or(le(S.of(0) - rt.eps, t - brk(rt, i - 1)), eqc(i, rt.i0)))))
            out.append(("start", le(rt.i0, i)))
        return out

    def entry(rt):
        rt.i0 = rt.L("i")
        if uniform:
            # the start is the integer part of t / h
            rt.fact(And(le(0, rt.i0), le(rt.i0 * rt.h, rt.t), lt(rt.t, rt.i0 * rt.h + rt.h)))
            rt.goal(eqc(rt.i0, rt.toint(rt.t / rt.h)), "the search starts at the integer part of t / h")

    def assume(rt):
        rt.idx = rt.L("i")

    @dvob("C18", "Spline::%s: the value at t of the piece t lies in" % name, "other", invs={("Spline", name, 0): Inv(inv, entry=entry, assume=assume)}, timeout=100)
    def ob(rt):
        setup(rt)
        rt.useite = False
        N = rt.N = var("N", isint=True)
        rt.fact(le(2, N))
        nn = N - 1
        rt.h = var("h", pos=True)
        t = rt.t = var("t")
        if uniform:
            rt.fact(le(0, t))
        q = rngi(rt, "q", 0, nn)
        cb, Xb = arr(rt, "c", nn * (degree + 1)), arr(rt, "X", N)
        rt.fact(Or(eqc(q, 0), le(S.of(0) - rt.eps, t - brk(rt, q))))
        rt.fact(Or(eqc(q, nn - 1), lt(t - brk(rt, q + 1), S.of(0) - rt.eps)))
        rt.checkbounds = True
        a = [zp(rt, cb)] + ([N, rt.h, t] if uniform else [zp(rt, Xb), N, t])
        # which knots the search can stop at
        r = rt.tonum(rt.run(method(rt, name), None, a))
        rt.checkbounds = False
        i = rt.idx
        incr(rt, i, q)
        incr(rt, i - 1, q + 1)
        incr(rt, i, q + 1)
        incr(rt, i - 1, q)
        if rt.decide(eqc(i - 1, q)):
            p = i - 1
        elif rt.decide(lt(i, 1)):
            p = S.of(0)
            rt.goal(eqc(q, 0), "an argument before the first knot belongs to the first piece")
        else:
            p = nn - 1
            rt.goal(eqc(q, nn - 1), "an argument after the last knot belongs to the last piece")
        u = t - (p * rt.h if uniform else rd(rt, Xb, p))
        e = S.of(0)
        for k in range(degree + 1):
            e = e * u + rd(rt, cb, nn * k + p)
        rt.goal(eqc(r, e), "value of the polynomial")


for nm, dg in (("ValSpline", 3), ("ValFirstDeri", 2), ("ValSecondDeri", 1)):
    evaluation(nm, dg, False)
    evaluation(nm + "Uniform", dg, True)


def derivative(name, factors):
    def inv(rt):
        i, nn, q = rt.L("i"), rt.N - 1, rt.q
        out = [("counter", And(le(0, i), le(i, nn)))]
        for k, f in enumerate(factors):
            out.append(("coefficient %d" % k, Imp(lt(q, i), eqc(at(rt, "dericoefs", nn * k + q), at(rt, "coefs", nn * k + q) * f))))
        return out

    @dvob("C18", "Spline::%s: the coefficients of the derivative of every piece" % name, "other", invs={("Spline", name, 0): Inv(inv)}, timeout=60)
    def ob(rt):
        setup(rt)
        N = rt.N = var("N", isint=True)
        rt.fact(le(2, N))
        q = rt.q = rngi(rt, "q", 0, N - 1)
        cb, db = arr(rt, "c", (N - 1) * 4), arr(rt, "e", (N - 1) * len(factors))
        rt.checkbounds = True
        rt.run(method(rt, name), None, [zp(rt, cb), N, zp(rt, db)])
        rt.checkbounds = False
        rt.goal(cb.a.w == () and cb.a.base == "c", "the coefficients given stay")
        # piece c0 u^3 + c1 u^2 + c2 u + c3
        for k, f in enumerate(factors):
            rt.goal(eqc(rd(rt, db, (N - 1) * k + q), rd(rt, cb, (N - 1) * k + q) * f), "coefficient %d" % k)


derivative("FirstDeri", (3, 2, 1))
derivative("SecondDeri", (6, 2))
