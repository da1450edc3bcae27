"""Environment of a solver: manifold and problem by contract.

Points and vectors are elements of an abstract space (letters with real coefficients). The inner product is bilinear and
symmetric with one number per pair of letters and point; retraction, cost and gradient are uninterpreted functions of their
arguments (two calls with the same arguments give the same result); transports and derivatives of the retraction are linear
maps. Nothing else is assumed, so what is proved holds for every manifold and every problem."""
from dv import *
import dv


class LIter:
    """iterator into a std::list<realdp> (only positions and values matter)"""

    def __init__(self, rt, lst, pos):
        self.rt, self.lst, self.pos = rt, lst, pos

    def copyiter(self):
        return self

    def advance(self, k):
        if self.lst is None:
            raise Unsupported("advance of a singular iterator")
        p = self.pos + k
        self.rt.goal(And(le(0, p), le(p, self.lst.n)), "list iterator stays in range")
        return LIter(self.rt, self.lst, p)

    def deref(self):
        if self.lst is None:
            raise Unsupported("dereference of a singular iterator")
        self.rt.goal(And(le(0, self.pos), lt(self.pos, self.lst.n)), "list iterator dereferenced inside the list")
        return Cell(self.lst.at(self.pos))

    def cmp(self, op, b):
        if self.lst is None or b.lst is None:
            r = self.lst is b.lst
            return r if op == "==" else not r
        return Cond(op, self.pos, b.pos)

    def havoc(self, rt, nm):
        if self.lst is None:
            return self
        return LIter(rt, self.lst, var(rt.newname(nm), isint=True))

    def snapkey(self):
        return ("it", self.pos if self.lst is not None else None)


class PList:
    """std::list<realdp>: length and entries (new entries at the front shift the index)"""

    def __init__(self, rt, name, n, front=(), onread=None, base=None):
        self.rt, self.name, self.n, self.front, self.onread = rt, name, n, front, onread
        self.base = base or name

    def at(self, pos):
        for k, v in enumerate(self.front):
            if self.rt.decide(eqc(pos, k)):
                r = v
                break
        else:
            r = fn(self.base, pos - len(self.front))
        if self.onread:
            self.onread(self.rt, self, pos, r)
        return r

    def copyiter(self):
        return self

    def set_(self, o):
        self.n, self.front, self.base = o.n, o.front, o.base

    def method(self, rt, name, a):
        a = [x.get() if isinstance(x, (Cell, FieldCell)) else x for x in a]
        if name == "size":
            return self.n
        if name == "begin":
            return LIter(rt, self, S.of(0))
        if name == "end":
            return LIter(rt, self, self.n)
        if name == "front":
            rt.goal(lt(0, self.n), "front() of a nonempty list")
            return self.at(S.of(0))
        if name == "clear":
            self.n, self.front, self.base = S.of(0), (), rt.newname(self.name)
            return None
        if name == "push_front":
            self.front = (a[0],) + self.front
            self.n = self.n + 1
            return None
        if name == "pop_back":
            rt.goal(lt(0, self.n), "pop_back() of a nonempty list")
            self.n = self.n - 1
            return None
        if name == "empty":
            return eqc(self.n, 0)
        raise Unsupported("list method " + name)

    def havoc(self, rt, nm):
        n = var(rt.newname(nm + ".n"), isint=True, nonneg=True)
        return PList(rt, self.name, n, (), self.onread, rt.newname(self.name))

    def snapkey(self):
        return ("list", self.n, self.front, self.base)


def val(a):
    if isinstance(a, (Cell, FieldCell, ZCell)):
        a = a.get()
    return a


def el(a):
    """element behind an argument (reference, pointer)"""
    a = val(a)
    if isinstance(a, Ptr):
        a = a.to
    a = val(a)
    if not isinstance(a, Elem):
        raise Unsupported("argument is not an element: %r" % (a,))
    return a


def num_(a):
    a = val(a)
    if isinstance(a, bool):
        return S.const(int(a))
    return a


class World:
    def __init__(self, rt, cls, mcls="Manifold", **flags):
        self.rt = rt
        self.flags = flags
        rt.over["fabs"] = rt.over["abs"] = self.fabs
        rt.hooks["printf"] = lambda rt_, n: None
        self.N = rt.N = var("N", isint=True, pos=True)
        self.mani = Obj(mcls, rt)
        self.prob = Obj("Problem", rt)
        self.mani.default = lambda name: getattr(self, "m_" + name, None) and self.wrap("m_" + name)
        self.prob.default = lambda name: getattr(self, "p_" + name, None) and self.wrap("p_" + name)
        rt.elemapi = DElemAPI()
        self.this = rt.this = Obj(cls, rt) if cls else None
        self.gram = {}
        if cls:
            self.fill(self.this)
            rt.objs = [self.this]
        for g, f in (("nF", "nf"), ("nG", "ng"), ("nR", "nR"), ("nH", "nH")):
            rt.ghosts[g] = self.this.f[f] if cls and f in self.this.f else S.of(0)
            rt.ghost_ty[g] = "integer"

    def fabs(self, rt, a):
        x = val(a[0])
        if isinstance(x, Cplx):
            return fn("cabs", x.re, x.im, nonneg=True)
        if x.isconst():
            return S.const(abs(x.cval()))
        c = le(0, x)
        v = rt.fold(c)
        return rt.ite(c if v is None else v, x, -x, nonneg=True)

    def wrap(self, nm):
        f = getattr(self, nm)
        return lambda rt, o, a: f(*a)

    def letter_(self, nm):
        return M.sym(sym(nm, self.N, 1))

    def vec(self, nm):
        e = Elem(self.N, 1, 1)
        e.setval(self.letter_(nm), self.N, 1)
        e.name = nm
        return e

    def fill(self, o):
        rt = self.rt
        for k, ty in rt.prog.fields(o.cls).items():
            t = ty.replace("const ", "").replace("mutable ", "").strip()
            if k == "Mani":
                o.f[k] = Ptr(self.mani)
            elif k == "Prob":
                o.f[k] = Ptr(self.prob)
            elif t in ("Element", "Variable", "Vector", "LinearOPE"):
                o.f[k] = self.vec(k)
            elif t.startswith("std::list<double"):
                o.f[k] = PList(rt, k, var(k + ".n", isint=True, nonneg=True))
            elif "(*)" in t or "::*)" in t:
                o.f[k] = Opaque(k)
            elif t.endswith("*"):
                o.f[k] = Opaque(k)
            elif t in ("std::string", "string"):
                o.f[k] = Opaque(k)
            elif t in ("unsigned long",):
                o.f[k] = var(k, isint=True)
            else:
                o.f[k] = rt.fresh_of_type(ty, k)
        for k in ("timeSeries", "funSeries", "gradSeries", "dirSeries"):
            if k in o.f:
                o.f[k] = Elem()
                o.f[k].name = k

    # ---- values
    def comb(self, e):
        """linear combination of letters"""
        m = normal(e.val())
        out = []
        for w, s in m.t.items():
            if len(w) != 1:
                raise Unsupported("vector value %s" % (m,))
            out.append((w[0], s))
        return out

    def put(self, res, m):
        res = el(res)
        res.setval(m, self.N, 1, False)
        return res

    def metric(self, x, u, v):
        """inner product of two linear combinations at the point x (M)"""
        r = S.of(0)
        for lu, a in u:
            for lv, b in v:
                p, q = (lu, lv) if lu <= lv else (lv, lu)
                r = r + a * b * fn("g", x, lname(p), lname(q), nonneg=(p == q))
        return r

    def linmap(self, name, args, e):
        out = M.zero(self.N, 1)
        for l, s in self.comb(e):
            z = opaque(name, tuple(args) + (M(self.N, 1, {(l,): ONE}),), self.N, 1)
            out = out + M.sym(z).scale(s)
        return out

    # ---- Manifold
    def m_Metric(self, x, u, v):
        return self.metric(el(x).val(), self.comb(el(u)), self.comb(el(v)))

    def m_ScalarTimesVector(self, x, s, e, res):
        return self.put(res, el(e).val().scale(num_(s)))

    def m_ScalarVectorAddVector(self, x, s, u, v, res):
        m = el(u).val().scale(num_(s)) + el(v).val()
        return self.put(res, m)

    def m_VectorLinearCombination(self, x, s, u, t, v, res):
        m = el(u).val().scale(num_(s)) + el(v).val().scale(num_(t))
        return self.put(res, m)

    def m_Projection(self, x, u, res):
        return self.put(res, el(u).val())

    def m_Retraction(self, x, e, res):
        z = opaque("Retr", (el(x).val(), el(e).val()), self.N, 1)
        self.rt.ghosts["nR"] = self.rt.ghosts["nR"] + 1
        return self.put(res, M.sym(z))

    def m_DiffRetraction(self, x, e, y, xi, res, same=False):
        return self.put(res, self.linmap("DR", (el(x).val(), el(e).val(), el(y).val()), el(xi)))

    def m_VectorTransport(self, x, e, y, xi, res):
        return self.put(res, self.linmap("VT", (el(x).val(), el(e).val(), el(y).val()), el(xi)))

    def m_InverseVectorTransport(self, x, e, y, xi, res):
        return self.put(res, self.linmap("IVT", (el(x).val(), el(e).val(), el(y).val()), el(xi)))

    def m_GetEMPTY(self):
        return Elem(self.N, 1, 1)

    m_GetEMPTYEXTR = m_GetEMPTYINTR = m_GetEMPTY

    def m_GetIsIntrinsic(self):
        return batom("IsIntrApproach")

    def m_GetHasHHR(self):
        return batom("HasHHR")

    def m_GetHasLockCon(self):
        return batom("HasLockCon")

    def m_ObtainExtr(self, x, e, res):
        return self.put(res, self.linmap("extr", (el(x).val(),), el(e)))

    def m_ObtainIntr(self, x, e, res):
        return self.put(res, self.linmap("intr", (el(x).val(),), el(e)))

    def m_GetIntrDim(self):
        return var("intrdim", isint=True, pos=True)

    def m_GetExtrDim(self):
        return var("extrdim", isint=True, pos=True)

    def m_GetName(self):
        return Opaque("name")

    def m_Beta(self, x, e):
        return fn("Beta", el(x).val(), el(e).val())

    def m_RandomManifold(self, *a):
        return self.vec(self.rt.newname("rand"))

    # ---- Problem
    def p_f(self, x):
        self.rt.ghosts["nF"] = self.rt.ghosts["nF"] + 1
        return self.F(x)

    def F(self, x):
        return fn("F", el(x).val() if not isinstance(x, M) else x)

    def G(self, x):
        return M.sym(opaque("G", (el(x).val() if not isinstance(x, M) else x,), self.N, 1))

    def p_Grad(self, x, res):
        self.rt.ghosts["nG"] = self.rt.ghosts["nG"] + 1
        return self.put(res, self.G(x))

    def p_HessianEta(self, x, e, res):
        self.rt.ghosts["nH"] = self.rt.ghosts["nH"] + 1
        return self.put(res, self.linmap("H", (el(x).val(),), el(e)))

    def p_PreConditioner(self, x, e, res):
        return self.put(res, self.linmap("P", (el(x).val(),), el(e)))

    def p_GetDomain(self):
        return Ptr(self.mani)

    # ---- goals
    def field(self, k):
        return self.this.f[k]

    def E(self, nm):
        return self.rt.prog.enums[nm]
