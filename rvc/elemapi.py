"""Contracts of ROPTLIB::Element used at call sites (a caller is checked against these, not against the bodies).

Every contract is the documented meaning over the reals (or the complex *-algebra when the element is complex: the
transpose is then the conjugate transpose, and DotProduct is the real part). The bodies of these functions are the
subject of the element-level checks (C01-C03)."""
from alg import *
import alg
import sx
from sx import *


def fresh_rect(name, r, c, symm=0):
    return alg.sym(C().fresh(name), r, c, symm=symm)


def diagsym(tag, *key, n, setup=None):
    """diagonal matrix symbol"""
    s = alg.opaque(tag, key, n, n, symm=1, setup=setup)
    s.tags.add("diag")
    return s


class Vec:
    """payload of a vector that stands for the diagonal of D (n x n diagonal matrix)"""

    def __init__(self, D, cplx=False):
        self.D = D

    def map(self, f, name):
        D = normal(self.D)
        # constant diagonal
        if not D.t:
            return Vec(M.eye(D.r).scale(f(S.of(0))))
        if set(D.t) == {()}:
            return Vec(M.eye(D.r).scale(f(D.t[()])))
        return None


def isscalarid(A):
    """A = s*I ? returns s"""
    A = normal(A)
    if not A.t:
        return S.of(0)
    if set(A.t) == {()}:
        return A.t[()]
    return None


def diag_inverse(D):
    s = isscalarid(D)
    if s is not None:
        return M.eye(D.r).scale(s.inv())
    return inverse(D)


def diag_sqrt(D):
    D = normal(D)
    s = isscalarid(D)
    if s is not None:
        return M.eye(D.r).scale(ssqrt(s))
    if len(D.t) == 1:
        (w, c), = D.t.items()
        if len(w) == 2 and w[0] == w[1] and "nonneg" in C().syms[w[0] >> 1].tags:
            return M(D.r, D.c, {(w[0],): ssqrt(c)})
        if len(w) == 1 and c.isconst():
            s0 = C().syms[w[0] >> 1]
            if s0.defn and s0.defn[0] == "inv":
                inner = diag_sqrt(s0.defn[1])
                return diag_inverse(inner).scale(ssqrt(c))

    def setup(z):
        z.tags.update(("diag", "nonneg"))
        zl = letter(z)
        lw = lead(D)
        c = D.t[lw]
        rest = D - M(D.r, D.c, {lw: c})
        # lw -> (Z Z - rest)/c when lw is a single letter, else Z Z -> D
        if len(lw) == 1 and not normal(rest).t:
            add_rule(lw, M(D.r, D.c, {(zl, zl): ONE}).scale(c.inv()))
        else:
            add_rule((zl, zl), D)
    z = alg.opaque("dsqrt", (D,), D.r, D.c, symm=1, setup=setup)
    z.tags.update(("diag", "nonneg"))
    return M.sym(z)


class ElemAPI:
    def __init__(self):
        self.extra = {}

    # -------- helpers
    def mat(self, e):
        v = e.val()
        if isinstance(v, Vec):
            raise Unsupported("vector of singular values used as a matrix")
        if not isinstance(v, M):
            raise Unsupported("element payload %r" % (v,))
        return v

    def num(self, a):
        if isinstance(a, (Cell, FieldCell)) or (hasattr(a, "get") and not isinstance(a, (Elem, DP, Obj))):
            a = a.get()
        return a

    def sc(self, a):
        a = self.num(a)
        if isinstance(a, S):
            return a
        if isinstance(a, (int, Fraction)):
            return S.of(a)
        if isinstance(a, list) and len(a) == 2:
            a = Cplx(S.of(a[0]), S.of(a[1]))
        if isinstance(a, Cplx):
            if a.im.iszero():
                return a.re
            raise Unsupported("complex coefficient")
        raise Unsupported("scalar %r" % (a,))

    def new(self, m, like=None, cplx=None):
        e = Elem(m.r, m.c, 1, cplx if cplx is not None else (like.cplx if like is not None else False), m)
        return e

    # -------- operators
    def operator(self, rt, op, args):
        a, b = args[0], args[1]
        rt.contracts.add("Element::operator" + op)
        if isinstance(a, Ptr):
            a = a.to
        if isinstance(b, Ptr):
            b = b.to
        # product with a sparse matrix: by contract the product with the dense matrix it stands for (C18)
        if op == "*" and isinstance(a, Obj) and a.cls == "SparseMatrix" and isinstance(b, Elem):
            return self.new(a.f["M"] * self.mat(b), b)
        if op == "*" and isinstance(b, Obj) and b.cls == "SparseMatrix" and isinstance(a, Elem):
            return self.new(self.mat(a) * b.f["M"], a)
        if isinstance(a, Elem) and isinstance(b, Elem):
            if op in ("+", "-", "+=", "-="):
                if a.elements is not None or b.elements is not None:
                    return self.prodbin(rt, op, a, b)
                if a.hasval() and isinstance(a.val(), Vec):
                    x, y = a.val().D, b.val().D
                    return self.vecnew(x + y if op[0] == "+" else x - y, a)
                x, y = self.mat(a), self.mat(b)
                if op[0] == "+":
                    return self.new(x + y, a)
                return self.new(x - y, a)
            if op == "*":
                return self.new(self.mat(a) * self.mat(b), a)
            if op == "/":
                return self.new(self.mat(a) * inverse(self.mat(b)), a)
            if op == "%":
                return self.new(inverse(self.mat(a)) * self.mat(b), a)
        if isinstance(a, Elem):
            if a.elements is not None:
                r = a.copy()
                r.elements = [self.operator(rt, op, [x, b]) for x in a.elements]
                r.fields = {}
                return r
            if a.hasval() and isinstance(a.val(), Vec):
                D = a.val().D
                s = self.sc(b)
                if op == "*":
                    return self.vecnew(D.scale(s), a)
                if op == "/":
                    return self.vecnew(D.scale(s.inv()), a)
                if op == "+":
                    return self.vecnew(D + M.eye(D.r).scale(s), a)
                if op == "-":
                    return self.vecnew(D - M.eye(D.r).scale(s), a)
                raise Unsupported("vector op " + op)
            s = self.sc(b)
            if op == "*":
                return self.new(self.mat(a).scale(s), a)
            if op == "/":
                return self.new(self.mat(a).scale(s.inv()), a)
        if isinstance(b, Elem):
            if b.elements is not None:
                r = b.copy()
                r.elements = [self.operator(rt, op, [a, x]) for x in b.elements]
                r.fields = {}
                return r
            if b.hasval() and isinstance(b.val(), Vec):
                D = b.val().D
                s = self.sc(a)
                if op == "*":
                    return self.vecnew(D.scale(s), b)
                if op == "/":
                    return self.vecnew(diag_inverse(D).scale(s), b)
                raise Unsupported("vector op " + op)
            s = self.sc(a)
            if op == "*":
                return self.new(self.mat(b).scale(s), b)
            if op == "/" and is1(self.mat(b).r) and is1(self.mat(b).c):
                return self.new(M.eye(1).scale(s / self.mat(b).scalar()), b)
        raise Unsupported("element operator " + op)

    def prodbin(self, rt, op, a, b):
        r = a.copy()
        if a.elements is None or b.elements is None or len(a.elements) != len(b.elements):
            raise Fail("sum of a product element and something else")
        r.elements = [self.operator(rt, op, [x, y]) for x, y in zip(a.elements, b.elements)]
        r.fields = {}
        return r

    def vecnew(self, D, like=None):
        e = Elem(D.r, 1, 1, like.cplx if like is not None else False)
        e.arr = Arr(Vec(normal(D)))
        return e

    # -------- methods
    def method(self, rt, e, name, args, ref):
        f = getattr(self, "m_" + name, None) or self.extra.get(name)
        if f is None:
            raise Unsupported("Element::" + name)
        rt.contracts.add("Element::" + name)
        args = list(args)
        while args and isinstance(args[-1], sx._Default):
            args.pop()
        return f(rt, e, *args) if not name in self.extra else f(self, rt, e, *args)

    def elem(self, a):
        if isinstance(a, Ptr):
            a = a.to
        if isinstance(a, (Cell, FieldCell)):
            a = a.get()
            if isinstance(a, Ptr):
                a = a.to
        if not isinstance(a, Elem):
            raise Unsupported("expected an element, got %r" % (a,))
        return a

    def tr(self, m, t, cplx):
        t = self.num(t)
        if t == "N":
            return m
        if t in ("T", "C"):
            if t == "T" and cplx:
                raise Unsupported("plain transpose of a complex matrix")
            if t == "C" and not cplx:
                pass
            return m.T
        raise Unsupported("trans flag %r" % (t,))

    def m_AlphaABaddBetaThis(self, rt, e, al, A, tA, B, tB, be):
        A, B = self.elem(A), self.elem(B)
        al, be = self.sc(al), self.sc(be)
        # the kernel rewrites the storage of *this while reading A and B
        if (A is e or B is e):
            raise Fail("an operand of AlphaABaddBetaThis is the output itself")
        P = self.tr(self.mat(A), tA, A.cplx) * self.tr(self.mat(B), tB, B.cplx)
        P = P.scale(al)
        chk(P.r, e.r, "AlphaABaddBetaThis: rows of the product differ from the output")
        chk(P.c, e.c, "AlphaABaddBetaThis: columns of the product differ from the output")
        if be.iszero():
            e.setval(normal(P))
        else:
            e.setval(normal(P + self.mat(e).scale(be)))
        return e

    def m_AlphaXaddThis(self, rt, e, al, X):
        X = self.elem(X)
        al = self.sc(al)
        if e.elements is not None:
            if X.elements is None or len(X.elements) != len(e.elements):
                raise Fail("AlphaXaddThis on different product structures")
            for x, y in zip(e.elements, X.elements):
                self.m_AlphaXaddThis(rt, x, al, y)
            e.dropfields()
            return e
        if e.hasval() and isinstance(e.val(), Vec):
            e.setval(Vec(e.val().D + X.val().D.scale(al)))
            return e
        e.setval(self.mat(e) + self.mat(X).scale(al))
        return e

    def m_ScalarTimesThis(self, rt, e, al):
        al = self.sc(al)
        if e.elements is not None:
            for x in e.elements:
                self.m_ScalarTimesThis(rt, x, al)
            e.dropfields()
            return e
        if e.hasval() and isinstance(e.val(), Vec):
            e.setval(Vec(e.val().D.scale(al)))
            return e
        e.setval(self.mat(e).scale(al))
        return e

    def m_GetTranspose(self, rt, e):
        return self.new(self.mat(e).T, e)

    def m_Transpose(self, rt, e):
        m = self.mat(e).T
        e.setval(m, m.r, m.c)
        return e

    def m_DotProduct(self, rt, e, X):
        X = self.elem(X)
        if e.elements is not None:
            if X.elements is None or len(X.elements) != len(e.elements):
                raise Fail("DotProduct of different product structures")
            r = S.of(0)
            for a, b in zip(e.elements, X.elements):
                r = r + self.m_DotProduct(rt, a, b)
            return r
        if e.hasval() and isinstance(e.val(), Vec):
            return (e.val().D * X.val().D).tr()
        a, b = self.mat(e), self.mat(X)
        if not (a.r.eq(b.r) and a.c.eq(b.c)):
            # entries are paired in storage order
            chk(a.r * a.c, b.r * b.c, "DotProduct of different lengths")
            if is1(a.c):
                b = reshape(b, a.r, a.c)
            else:
                a = reshape(a, b.r, b.c)
        return a.dot(b)

    def m_Fnorm(self, rt, e):
        return ssqrt(self.m_DotProduct(rt, e, e))

    def m_GetDiagTimesM(self, rt, e, X, side="L"):
        X = self.elem(X)
        D = self.diagof(e)
        side = self.num(side)
        m = self.mat(X)
        return self.new(D * m if side == "L" else m * D, X)

    def m_DiagTimesM(self, rt, e, X, side="L"):
        X = self.elem(X)
        r = self.m_GetDiagTimesM(rt, e, X, side)
        X.setval(r.arr.m)
        return X

    def diagof(self, e):
        v = e.val()
        if isinstance(v, Vec):
            return v.D
        if is1(v.r) and is1(v.c):
            return v
        z = alg.opaque("Diag", (v,), v.r, v.r, symm=1)
        z.tags.add("diag")
        return M.sym(z)

    def m_GetSqrt(self, rt, e):
        v = e.val()
        if isinstance(v, Vec):
            return self.vecnew(diag_sqrt(v.D), e)
        if is1(v.r) and is1(v.c):
            return self.new(M.eye(1).scale(ssqrt(v.scalar())), e)
        raise Unsupported("GetSqrt")

    # -------- selections
    def sel(self, n, a, b):
        """n x (b-a+1) columns a..b of the identity"""
        k = b - a + 1
        if a.iszero() and k.eq(n):
            return M.eye(n)
        for s in C().syms:
            if s.defn and s.defn[0] == "sel" and s.defn[1].eq(n) and s.defn[2].eq(a) and s.defn[3].eq(b):
                return M.sym(s)
        s = alg.sym("E[%s:%s]" % (a, b), n, k)
        s.defn = ("sel", n, a, b)
        l = letter(s)
        if not is1(k):
            add_rule((l ^ 1, l), M.eye(k))
        else:
            add_rule((l ^ 1, l), M.eye(1))
        for t in list(C().syms):
            if t is s or not (t.defn and t.defn[0] == "sel" and t.defn[1].eq(n)):
                continue
            a2, b2 = t.defn[2], t.defn[3]
            tl = letter(t)
            if (b + 1).eq(a2) or (b2 + 1).eq(a):
                add_rule((l ^ 1, tl), M.zero(k, t.c))
                lo, hi = (s, t) if (b + 1).eq(a2) else (t, s)
                if lo.defn[2].iszero() and (hi.defn[3] + 1).eq(n):
                    L = letter(lo)
                    H = letter(hi)
                    add_rule((H, H ^ 1), M(n, n, {(): ONE, (L, L ^ 1): -ONE}), both=False)
        return M.sym(s)

    def m_GetSubmatrix(self, rt, e, rs, re, cs, ce):
        rs, re, cs, ce = map(self.sc, (rs, re, cs, ce))
        m = self.mat(e)
        if rs.eq(re) and cs.eq(ce) and not (is1(m.r) and is1(m.c)):
            pass
        r = self.sel(m.r, rs, re).T * m * self.sel(m.c, cs, ce)
        return self.new(r, e)

    def m_SubmatrixAssignment(self, rt, e, rs, re, cs, ce, X):
        X = self.elem(X)
        rs, re, cs, ce = map(self.sc, (rs, re, cs, ce))
        Er, Ec = self.sel(e.r, rs, re), self.sel(e.c, cs, ce)
        B = self.mat(X)
        chk(B.r, re - rs + 1, "SubmatrixAssignment: rows")
        chk(B.c, ce - cs + 1, "SubmatrixAssignment: cols")
        if e.hasval():
            A = self.mat(e)
        else:
            A = M.sym(fresh_rect("garbage", e.r, e.c))
        e.setval(normal(A + Er * (B - Er.T * A * Ec) * Ec.T))
        return e

    # -------- sizes and storage
    def m_Getrow(self, rt, e):
        return e.r

    def m_Getcol(self, rt, e):
        return e.c

    def m_Getnum(self, rt, e):
        return e.num

    def m_Getlength(self, rt, e):
        if e.elements is not None:
            r = S.of(0)
            for x in e.elements:
                r = r + self.m_Getlength(rt, x)
            return r
        return e.r * e.c * e.num * (2 if e.cplx is True else 1)

    def m_Getiscomplex(self, rt, e):
        return e.cplx

    def m_Setiscomplex(self, rt, e, v):
        e.cplx = self.num(v)

    def m_GetSpace(self, rt, e):
        return DP(e.arr) if e.arr is not None else None

    def m_Getsize(self, rt, e):
        return [e.r * (2 if e.cplx is True else 1), e.c, e.num]

    def m_Reshape(self, rt, e, r, c=None, n=None):
        c = None if isinstance(c, sx._Default) else c
        r = self.sc(r)
        c = S.of(1) if c is None else self.sc(c)
        if e.hasval():
            m = e.val()
            if isinstance(m, Vec):
                raise Unsupported("reshape of vector payload")
            e.setval(sx.reshape(m, r, c), r, c)
        e.r, e.c = r, c
        return e

    def m_GetReshape(self, rt, e, r, c=None, n=None):
        q = e.copy()
        return self.m_Reshape(rt, q, r, c, n)

    def m_SetToIdentity(self, rt, e):
        e.setval(M.eye(e.r))

    def m_SetToZeros(self, rt, e):
        if e.elements is not None:
            for x in e.elements:
                self.m_SetToZeros(rt, x)
            return
        e.setval(M.zero(e.r, e.c))

    def m_RandGaussian(self, rt, e, *a):
        if e.elements is not None:
            for x in e.elements:
                self.m_RandGaussian(rt, x)
            return
        e.setval(M.sym(fresh_rect("rand", e.r, e.c)))

    m_RandUnform = m_RandGaussian

    def m_ScaledIdOPE(self, rt, e, s=None):
        s = S.of(1) if s is None else self.sc(s)
        e.setval(M.eye(e.r).scale(s))

    def m_NewMemoryOnWrite(self, rt, e):
        if e.elements is not None:
            e.dropfields()
            for x in e.elements:
                self.m_NewMemoryOnWrite(rt, x)
                x.dropfields()
            return
        e.detach()
        e.arr = Arr(M.sym(fresh_rect("garbage", e.r, e.c)))

    def m_CopyOnWrite(self, rt, e):
        if e.arr is not None:
            m = e.arr.m
            e.detach()
            e.arr = Arr(m)
        if e.elements is not None:
            for x in e.elements:
                self.m_CopyOnWrite(rt, x)

    def m_Print(self, rt, e, *a):
        return None

    def m_PrintSize(self, rt, e, *a):
        return None

    def m_CopyTo(self, rt, e, o):
        self.elem(o).assign(e)

    def m_CopyFieldsTo(self, rt, e, o):
        o = self.elem(o)
        o.fields = {k: v.copy() for k, v in e.fields.items()}
        o.lazyfields = dict(e.lazyfields) if e.lazyfields else e.lazyfields

    def m_Delete(self, rt, e):
        e.detach()
        e.fields = {}

    # -------- attached data
    def fieldget(self, rt, e, name):
        name = self.num(name)
        if isinstance(name, Opaque):
            raise Unsupported("field with a computed name")
        return name

    def m_FieldsExist(self, rt, e, name):
        name = self.fieldget(rt, e, name)
        if name in e.fields:
            return True
        if e.lazyfields and name in e.lazyfields:
            gen = e.lazyfields.pop(name)
            key = "field %s of %s present" % (name, e.name or "input")
            if rt.decide(batom(key)):
                e.fields[name] = gen()
                return True
            return False
        return False

    def m_Field(self, rt, e, name):
        name = self.fieldget(rt, e, name)
        if name in e.fields:
            return e.fields[name]
        if e.lazyfields and name in e.lazyfields:
            if self.m_FieldsExist(rt, e, name):
                return e.fields[name]
            raise Fail("attached data %s may be missing here" % name)
        if getattr(e, "openfields", False):
            raise Unsupported("attached data %s not described by the precondition" % name)
        raise Fail("attached data %s does not exist" % name)

    def m_AddToFields(self, rt, e, name, X):
        name = self.fieldget(rt, e, name)
        X = self.elem(X)
        if e.lazyfields and name in e.lazyfields:
            e.lazyfields.pop(name)
        c = X.copy()
        e.fields[name] = c

    def m_RemoveFromFields(self, rt, e, name):
        name = self.fieldget(rt, e, name)
        e.fields.pop(name, None)
        if e.lazyfields:
            e.lazyfields.pop(name, None)

    def m_RemoveAllFromFields(self, rt, e):
        e.dropfields()

    # -------- product elements
    def m_GetElement(self, rt, e, i):
        i = self.sc(i)
        if e.elements is None:
            raise Fail("GetElement of a plain element")
        if hasattr(e.elements, "index"):
            pass
        if not i.isconst():
            raise Unsupported("symbolic component index")
        k = int(i.cval())
        if not 0 <= k < len(e.elements):
            raise Fail("component index out of range")
        return e.elements[k]

    def m_Getnumofelements(self, rt, e):
        return S.of(len(e.elements)) if e.elements is not None else S.of(1)

    def m_Getelements(self, rt, e):
        return e.elements

    # -------- decompositions (documented relation between the fields and the entries)
    def m_CholDecom(self, rt, e):
        if "_L" in e.fields or self.m_FieldsExist(rt, e, "_L"):
            return
        e.fields["_L"] = self.new(chol(self.mat(e)), e)

    def m_TriangleLinSol(self, rt, e, L, trans="N"):
        L = self.elem(L)
        t = self.num(trans)
        Z = inverse(self.mat(L))
        if t == "N":
            return self.new(Z * self.mat(e), e)
        if t == "T" and e.cplx is True:
            raise Unsupported("plain transpose solve of a complex matrix")
        return self.new(Z.T * self.mat(e), e)

    def m_QRDecom(self, rt, e):
        if self.m_FieldsExist(rt, e, "_Q") and self.m_FieldsExist(rt, e, "_R"):
            return
        A = self.mat(e)
        Q, R = qr(A)
        e.fields["_Q"] = self.new(Q, e)
        e.fields["_R"] = self.new(R, e)
        if "_HHR" not in e.fields:
            e.fields["_HHR"] = hhrelem(self, A, e, R)
            e.fields["_tau"] = tauelem(self, A, e)

    def m_HHRDecom(self, rt, e):
        if self.m_FieldsExist(rt, e, "_HHR") and self.m_FieldsExist(rt, e, "_tau"):
            return
        A = self.mat(e)
        Q, R = qr(A)
        e.fields["_HHR"] = hhrelem(self, A, e, R)
        e.fields["_tau"] = tauelem(self, A, e)

    def m_HHRMtp(self, rt, e, H, tau, trans="N", side="L"):
        H, tau = self.elem(H), self.elem(tau)
        hv = H.arr.m if H.arr else None
        tv = tau.arr.m if tau.arr else None
        if not isinstance(hv, HHR) or not isinstance(tv, TAU) or hv.A is not tv.A and not hv.A.same(tv.A):
            raise Fail("HHRMtp is applied to factors that do not belong together")
        Q = fullq(hv.A)
        t = self.num(trans)
        if t == "T" and e.cplx is True:
            raise Unsupported("plain transpose")
        Qm = Q if t == "N" else Q.T
        m = self.mat(e)
        return self.new(Qm * m if self.num(side) == "L" else m * Qm, e)

    def m_SVDDecom(self, rt, e):
        if self.m_FieldsExist(rt, e, "_S"):
            return
        U, D, Vt = svd(self.mat(e))
        e.fields["_U"] = self.new(U, e)
        e.fields["_S"] = self.vecnew(D, e)
        e.fields["_Vt"] = self.new(Vt, e)

    def m_EigenDecomSym(self, rt, e, *a):
        if self.m_FieldsExist(rt, e, "_EigVal"):
            return
        V, D = eig(self.mat(e))
        e.fields["_EigVal"] = self.vecnew(D)
        e.fields["_EigVec"] = self.new(V, e)

    def m_ExpSym(self, rt, e, *a):
        return self.new(expsym(self.mat(e)), e)

    def m_LogSym(self, rt, e, *a):
        return self.new(logsym(self.mat(e)), e)

    def m_SYL(self, rt, e, A, B):
        # the result X solves A X + X B = this
        A, B = self.elem(A), self.elem(B)
        return self.new(sylvester(self.mat(A), self.mat(B), self.mat(e)), e)

    def m_LUdecom(self, rt, e):
        return None

    def m_GetOrth(self, rt, e):
        A = self.mat(e)
        s = isscalarid(A.T * A)
        if s is not None:
            return self.new(A.scale(ssqrt(s).inv()), e)

        def setup(z):
            l = letter(z)
            add_rule((l ^ 1, l), M.eye(A.c))
        return self.new(M.sym(alg.opaque("orth", (A,), A.r, A.c, setup=setup)), e)

    def m_GetHaddRankone(self, rt, e, s, u, v):
        u, v = self.mat(self.elem(u)), self.mat(self.elem(v))
        return self.new(normal(self.mat(e) + (u * v.T).scale(self.sc(s))), e)

    def m_HaddRankone(self, rt, e, s, u, v):
        u, v = self.mat(self.elem(u)), self.mat(self.elem(v))
        e.setval(normal(self.mat(e) + (u * v.T).scale(self.sc(s))))
        return e

    def m_GetHtimesRankone(self, rt, e, s, v, side="L"):
        v = self.mat(self.elem(v))
        s = self.sc(s)
        H = self.mat(e)
        if self.num(side) == "L":
            return self.new(H - (v * (v.T * H)).scale(s), e)
        return self.new(H - ((H * v) * v.T).scale(s), e)

    # -------- raw data
    def m_ObtainReadData(self, rt, e):
        if not e.hasval():
            raise Fail("read of an element that holds no data (%s)" % e.name)
        return DP(e.arr, elem=e)

    def m_ObtainWriteEntireData(self, rt, e):
        if e.elements is not None:
            raise Unsupported("raw write of product element")
        e.detach()
        e.arr = Arr(M.sym(fresh_rect("garbage", e.r, e.c)))
        e.dropfields()
        return DP(e.arr, w=True, elem=e)

    def m_ObtainWritePartialData(self, rt, e):
        if e.elements is not None:
            raise Unsupported("raw write of product element")
        if not e.hasval():
            e.arr = Arr(M.sym(fresh_rect("garbage", e.r, e.c)))
        else:
            m = e.arr.m
            e.detach()
            e.arr = Arr(m)
        e.dropfields()
        return DP(e.arr, w=True, elem=e)


# ---------------------------------------------------------------- decomposition lemmas
class HHR:
    """payload of the Householder factors of A (R in the upper triangle)"""

    def __init__(self, A, R):
        self.A, self.R = A, R
        self.r, self.c = A.r, A.c


class TAU:
    def __init__(self, A):
        self.A = A


def hhrelem(api, A, e, R):
    q = Elem(A.r, A.c, 1, e.cplx)
    q.arr = Arr(HHR(A, R))
    return q


def tauelem(api, A, e):
    q = Elem(A.c, 1, 1, e.cplx)
    q.arr = Arr(TAU(A))
    return q


def fullq(A):
    """orthogonal n x n product of the reflectors of A = Qfull [R; 0]"""
    def setup(z):
        l = letter(z)
        add_rule((l ^ 1, l), M.eye(A.r))
        add_rule((l, l ^ 1), M.eye(A.r))
    s = alg.opaque("Qfull", (A,), A.r, A.r, setup=setup)
    if "linked" not in s.tags:
        s.tags.add("linked")
        Q, R = qr(A)
        if A.r.eq(A.c):
            E = None
        else:
            E = ElemAPI().sel(A.r, S.of(0), A.c - 1)
            (ew, _), = E.t.items()
            add_rule((letter(s),) + ew, Q)
            # Q' Qfull = E'
            Qn = normal(Q)
            if len(Qn.t) == 1:
                (w, c), = Qn.t.items()
                rest = M(A.c, A.c, {w[1:]: ONE}) if len(w) > 1 else M.eye(A.c)
                lft = inverse(rest.T).scale(c.inv())
                add_rule((w[0] ^ 1, letter(s)), normal(lft * E.T))
    return M.sym(s)


def signof(A, tag="sgnR"):
    if is1(A.c) and getattr(C(), "rt", None) is not None:
        # a single column: both signs of R are explored
        cache = C().__dict__.setdefault("signs", [])
        for B, g in cache:
            if B.same(A):
                return M.eye(1).scale(g)
        g = 1 if C().rt.decide(batom("R>0 for " + str(A)[:80])) else -1
        cache.append((A, g))
        return M.eye(1).scale(g)
    def setup(z):
        z.tags.add("diag")
        l = letter(z)
        add_rule((l, l), M.eye(A.c))
    s = alg.opaque(tag, (A,), A.c, A.c, symm=1, setup=setup)
    return M.sym(s)


def qr(A):
    """A = Q R, Q'Q = I, R upper triangular. If A'A = s I then R = sqrt(s)*diag(+-1)."""
    s = isscalarid(A.T * A)
    if s is not None:
        g = signof(A)
        rs = ssqrt(s)
        return A * g.scale(rs.inv()), g.scale(rs)
    A = normal(A)
    if len(A.t) == 1:
        # already the product of a matrix with orthonormal columns and an upper triangular letter
        (w, cf), = A.t.items()
        if len(w) == 2 and cf.eq(1) and not (w[1] & 1) and "upper" in C().syms[w[1] >> 1].tags:
            q, r = M(A.r, A.c, {w[:1]: ONE}), M(A.c, A.c, {w[1:]: ONE})
            if (q.T * q).same(M.eye(A.c)):
                return q, r

    def setQ(z):
        l = letter(z)
        add_rule((l ^ 1, l), M.eye(A.c))
    R = alg.opaque("R", (A,), A.c, A.c)
    R.tags.add("upper")
    had = any(x.defn and x.defn[0] == "Q" and x.defn[1].same(A) for x in C().syms if x.defn)
    Q = alg.opaque("Q", (A,), A.r, A.c, setup=setQ)
    if not had:
        lw = leadfresh(A)
        if lw is not None:
            c = A.t[lw]
            rest = A - M(A.r, A.c, {lw: c})
            QR = M(A.r, A.c, {(letter(Q), letter(R)): ONE})
            add_rule(lw, (QR - rest).scale(c.inv()))
    return M.sym(Q), M.sym(R)


def leadfresh(A):
    """a single letter word of A which no rule and no other letter interferes with"""
    cx = C()
    A = normal(A)
    best = None
    for w in A.t:
        if len(w) == 1:
            s = cx.syms[w[0] >> 1]
            used = any((w[0] >> 1) in [l >> 1 for l in pat] for lst in cx.rules.values() for pat, _ in lst)
            elsewhere = any((w[0] >> 1) in [l >> 1 for l in v] for v in A.t if v != w)
            if not used and not s.defn and not elsewhere:
                best = w
    return best


def svd(A):
    """A = U D V', square orthogonal V when rows >= cols; D >= 0"""
    s = isscalarid(A.T * A)
    if s is not None:
        rs = ssqrt(s)
        return A.scale(rs.inv()), M.eye(A.c).scale(rs), M.eye(A.c)

    def setU(z):
        l = letter(z)
        add_rule((l ^ 1, l), M.eye(A.c))

    def setV(z):
        l = letter(z)
        add_rule((l ^ 1, l), M.eye(A.c))
        add_rule((l, l ^ 1), M.eye(A.c))

    def setD(z):
        z.tags.update(("diag", "nonneg"))
    had = any(x.defn and x.defn[0] == "svdU" and x.defn[1].same(A) for x in C().syms if x.defn)
    U = alg.opaque("svdU", (A,), A.r, A.c, setup=setU)
    D = alg.opaque("svdS", (A,), A.c, A.c, symm=1, setup=setD)
    V = alg.opaque("svdVt", (A,), A.c, A.c, setup=setV)
    if not had:
        lw = leadfresh(A)
        if lw is not None:
            c = A.t[lw]
            rest = A - M(A.r, A.c, {lw: c})
            UDV = M(A.r, A.c, {(letter(U), letter(D), letter(V)): ONE})
            add_rule(lw, (UDV - rest).scale(c.inv()))
    return M.sym(U), M.sym(D), M.sym(V)


def eig(A):
    """A = V D V' (A symmetric)"""
    s = isscalarid(A)
    if s is not None:
        return M.eye(A.r), M.eye(A.r).scale(s)
    if not A.same(A.T):
        raise Fail("symmetric eigenvalue decomposition of a matrix that is not symmetric: %s" % A)

    def setV(z):
        l = letter(z)
        add_rule((l ^ 1, l), M.eye(A.c))
        add_rule((l, l ^ 1), M.eye(A.c))
    had = any(x.defn and x.defn[0] == "eigV" and x.defn[1].same(A) for x in C().syms if x.defn)
    V = alg.opaque("eigV", (A,), A.r, A.r, setup=setV)

    def setD(z):
        z.tags.add("diag")
    D = alg.opaque("eigD", (A,), A.r, A.r, symm=1, setup=setD)
    if not had:
        lw = leadfresh(A)
        if lw is not None:
            c = A.t[lw]
            rest = A - M(A.r, A.c, {lw: c})
            VDV = M(A.r, A.c, {(letter(V), letter(D), letter(V) ^ 1): ONE})
            add_rule(lw, (VDV - rest).scale(c.inv()), both=False)
    return M.sym(V), M.sym(D)


def chol(A):
    """lower triangular L, A = L L', positive diagonal"""
    A = normal(A)
    s = isscalarid(A)
    if s is not None:
        return M.eye(A.r).scale(ssqrt(s))
    if not A.same(A.T):
        raise Fail("Cholesky factor of a matrix that is not symmetric: %s" % A)

    # A already is L L' for a lower triangular letter?
    if len(A.t) == 1:
        (w, c), = A.t.items()
        if len(w) == 2 and w[1] == (w[0] ^ 1) and not (w[0] & 1) and "lowerpos" in C().syms[w[0] >> 1].tags:
            return M(A.r, A.c, {(w[0],): ssqrt(c)})
    had = any(x.defn and x.defn[0] == "chol" and x.defn[1].same(A) for x in C().syms if x.defn)

    def setL(z):
        z.tags.add("lowerpos")
    L = alg.opaque("chol", (A,), A.r, A.r, setup=setL)
    if not had:
        l = letter(L)
        lw = leadfresh(A)
        if lw is not None:
            c = A.t[lw]
            rest = A - M(A.r, A.c, {lw: c})
            add_rule(lw, (M(A.r, A.c, {(l, l ^ 1): ONE}) - rest).scale(c.inv()), both=False)
        else:
            add_rule((l, l ^ 1), A, both=False)
    return M.sym(L)


def nilpotent(A):
    """A*A = 0 because of the formal infinitesimal"""
    A = normal(A)
    return not normal(A * A).t and bool(A.t)


def expsym(A):
    A = normal(A)
    if not A.same(A.T):
        raise Fail("ExpSym of a matrix that is not symmetric: %s" % A)
    if not A.t:
        return M.eye(A.r)
    if nilpotent(A):
        return M.eye(A.r) + A
    if len(A.t) == 1:
        (w, c), = A.t.items()
        if len(w) == 1 and c.isconst() and c.cval() == 1:
            s = C().syms[w[0] >> 1]
            if s.defn and s.defn[0] == "logm":
                return s.defn[1]
    # exp(-A) = inverse of exp(A)
    for s in C().syms:
        if s.defn and s.defn[0] == "expm" and s.defn[1].same(-A):
            return inverse(M.sym(s))
    z = alg.opaque("expm", (A,), A.r, A.r, symm=1)
    z.tags.add("spd")
    return M.sym(z)


def logsym(A):
    A = normal(A)
    if not A.same(A.T):
        raise Fail("LogSym of a matrix that is not symmetric: %s" % A)
    if len(A.t) == 1:
        (w, c), = A.t.items()
        if w == () and c.isconst() and c.cval() == 1:
            return M.zero(A.r, A.r)
        if len(w) == 1 and c.isconst() and c.cval() == 1:
            s = C().syms[w[0] >> 1]
            if s.defn and s.defn[0] == "expm":
                return s.defn[1]
    d = A - M.eye(A.r)
    if nilpotent(d):
        return d
    return M.sym(alg.opaque("logm", (A,), A.r, A.r, symm=1))
