"""C18: sparse products (Others/SparseBLAS, template instances for double and std::complex<double>).

The numbers are elements of a commutative ring with an involution `conj` (the identity for double): every obligation is an identity of
such rings, so one specification serves both instances."""
from dv import *
from world import *
from spec_util import setup as setup0, rd, setinit
from spec_spline import at, arr, zp, rngi

DBL, CPX = "TSp_mat<double>", "TSp_mat<std::complex<double>>"


def setup(rt, cls):
    setup0(rt)
    rt.biglimit = 0
    rt.cong = True
    rt.cls = cls
    rt.over["conj"] = lambda rt_, a: cj(rt, a[0])
    rt.over["make_pair"] = lambda rt_, a: Obj("pair", rt, first=val_(a[0]), second=val_(a[1]))


def cj(rt, v):
    v = rt.tonum(v.get() if hasattr(v, "get") else v)
    return v if rt.cls == DBL else ack(rt, "conj", v)


def method(rt, cls, name):
    l = [f for f in rt.prog.fns.get((cls, name), [])]
    if len(l) != 1:
        raise Unsupported("%s::%s: %d candidates" % (cls, name, len(l)))
    return l[0]


class Row:
    """one row: pairs (value, column) number 0 .. len - 1"""

    def __init__(self, rt, i):
        self.rt, self.i = rt, S.of(i)

    @property
    def n(self):
        x = ack(self.rt, "len", self.i, isint=True)
        self.rt.fact(le(0, x))
        return x

    def col(self, k):
        x = ack(self.rt, "col", self.i, k, isint=True)
        self.rt.fact(And(le(0, x), lt(x, self.rt.N)))
        return x

    def v(self, k):
        return ack(self.rt, "val", self.i, k)

    def method(self, rt, name, a):
        if name == "begin":
            return VIter(rt, self, S.of(0))
        if name == "end":
            return VIter(rt, self, self.n)
        if name == "push_back":
            p = a[0].get() if isinstance(a[0], (Cell, FieldCell)) else a[0]
            p = p.to if isinstance(p, Ptr) else p
            rt.pushed.append((self.i, p.f["first"], p.f["second"]))
            return None
        raise Unsupported("vector::" + name)

    def snapkey(self):
        return ("row", self.i)

    def copyiter(self):
        return self

    # sums over the first k entries
    def dot(self, x, off, inc, k, conj):
        """sum of val * x[col]"""
        rt = self.rt
        nm = "dot%s:%s" % ("*" if conj else "", x.a.base)
        r, q = ack(rt, nm, self.i, off, k), ack(rt, nm, self.i, off, k + 1)
        v = cj(rt, self.v(k)) if conj else self.v(k)
        rt.fact(Imp(eqc(k, 0), eqc(r, 0)))
        rt.fact(eqc(q, r + v * x.a.read(rt, off + self.col(k) * inc)))
        return r

    def entry(self, j, k, conj):
        """sum of the values in column j"""
        rt = self.rt
        nm = "ent*" if conj else "ent"
        r, q = ack(rt, nm, self.i, j, k), ack(rt, nm, self.i, j, k + 1)
        v = cj(rt, self.v(k)) if conj else self.v(k)
        rt.fact(Imp(eqc(k, 0), eqc(r, 0)))
        c = eqc(self.col(k), j)
        rt.fact(Imp(c, eqc(q, r + v)))
        rt.fact(Imp(Not(c), eqc(q, r)))
        return r


class VIter:
    def __init__(self, rt, row, pos):
        self.rt, self.row, self.pos = rt, row, pos

    def copyiter(self):
        return self

    def advance(self, k):
        p = self.pos + k
        self.rt.goal(And(le(0, p), le(p, self.row.n)), "iterator stays in range")
        return VIter(self.rt, self.row, p)

    def deref(self):
        self.rt.goal(And(le(0, self.pos), lt(self.pos, self.row.n)), "iterator dereferenced inside the row")
        return Obj("pair", self.rt, first=self.row.v(self.pos), second=self.row.col(self.pos))

    def cmp(self, op, b):
        return Cond(op, self.pos, b.pos)

    def havoc(self, rt, nm):
        return VIter(rt, self.row, var(rt.newname(nm), isint=True))

    def snapkey(self):
        return ("it", self.pos)


class Rows:
    def __init__(self, rt):
        self.rt = rt

    def index(self, i):
        self.rt.goal(And(le(0, i), lt(i, self.rt.M)), "row number in range")
        return Row(self.rt, i)

    def snapkey(self):
        return ("rows",)


def sparse(rt, cls, **flags):
    rt.M, rt.N = var("M", isint=True), var("N", isint=True)
    rt.fact(lt(0, rt.M))
    rt.fact(lt(0, rt.N))
    f = {k: S.of(0) for k in ("num_nonzeros_", "void_", "nnew_", "open_", "unit_diag_", "complex_", "real_", "single_precision_", "double_precision_", "upper_triangular_",
                              "lower_triangular_", "upper_symmetric_", "lower_symmetric_", "upper_hermitian_", "lower_hermitian_", "general_", "one_base_")}
    f.update(valid_=S.of(1), num_rows_=rt.M, num_cols_=rt.N, S=Rows(rt), **flags)
    return Obj(cls, rt, **f)


def itpos(rt):
    p = rt.L("p")
    p = p.get() if isinstance(p, (Cell, FieldCell)) else p
    return p.pos


# ------------------------------------------------------------------ one row
def dotprod(cls, conj):
    name = "sp_conj_dot_product" if conj else "sp_dot_product"

    def inv(rt):
        k = itpos(rt)
        return [("position", And(le(0, k), le(k, rt.row.n))), ("sum", eqc(rt.tonum(rt.L("sum")), rt.row.dot(rt.x, S.of(0), rt.inc, k, conj)))]

    for one in (True, False):
        @dvob("C18", "%s::%s: the sum of value times entry over the row (%s)" % (cls, name, "contiguous" if one else "stride"), "sparse", invs={(cls, name, 0): Inv(inv), (cls, name, 1): Inv(inv)}, timeout=60)
        def ob(rt, one=one):
            setup(rt, cls)
            o = sparse(rt, cls)
            rt.row = Row(rt, rngi(rt, "i", 0, rt.M))
            rt.x = arr(rt, "x", None)
            rt.inc = S.of(1) if one else var("incx", isint=True)
            if not one:
                rt.fact(lt(1, rt.inc))
            r = rt.run(method(rt, cls, name), o, [rt.row, zp(rt, rt.x), rt.inc])
            rt.goal(eqc(rt.tonum(r), rt.row.dot(rt.x, S.of(0), rt.inc, rt.row.n, conj)), "sum over the row")
            rt.goal(rt.x.a.w == (), "the vector stays")


def axpy(cls, conj):
    name = "sp_conj_axpy" if conj else "sp_axpy"

    def inv(rt):
        k = itpos(rt)
        return [("position", And(le(0, k), le(k, rt.row.n))), ("entry", eqc(rd(rt, rt.y, rt.j), ack(rt, "y", rt.j) + rt.al * rt.row.entry(rt.j, k, conj)))]

    @dvob("C18", "%s::%s: every entry of y gets alpha times the values in its column" % (cls, name), "sparse", invs={(cls, name, 0): Inv(inv), (cls, name, 1): Inv(inv)}, timeout=60)
    def ob(rt):
        setup(rt, cls)
        o = sparse(rt, cls)
        rt.row = Row(rt, rngi(rt, "i", 0, rt.M))
        rt.y = arr(rt, "y", rt.N)
        rt.j = rngi(rt, "j", 0, rt.N)
        rt.al = var("alpha")
        rt.checkbounds = True
        rt.run(method(rt, cls, name), o, [rt.al, rt.row, zp(rt, rt.y), S.of(1)])
        rt.checkbounds = False
        rt.goal(eqc(rd(rt, rt.y, rt.j), ack(rt, "y", rt.j) + rt.al * rt.row.entry(rt.j, rt.row.n, conj)), "entry of the result")


# ------------------------------------------------------------------ all rows
def prodrow(rt, i, conj):
    """(the dot product of row i with x)"""
    return ack(rt, "D*" if conj else "D", i)


def colsum(rt, i, conj):
    """sum over the rows below i of alpha x[row] times the entry in column j"""
    nm = "T*" if conj else "T"
    r, q = ack(rt, nm, i), ack(rt, nm, i + 1)
    rt.fact(Imp(eqc(i, 0), eqc(r, 0)))
    rt.fact(eqc(q, r + rt.al * ack(rt, "x", i) * ack(rt, "E*" if conj else "E", i)))
    return r


def contracts(rt, o):
    """what is proved of one row"""
    def dot(conj):
        def c(rt_, o_, a):
            row, x, inc = [v.get() if hasattr(v, "get") else v for v in a]
            rt.goal(isinstance(row, Row), "a row")
            rt.goal(x.buf is rt.x and x.off.iszero() and S.of(inc).eq(S.of(1)), "the vector")
            return prodrow(rt, row.i, conj)
        return c

    def ax(conj):
        def c(rt_, o_, a):
            al, row, y, inc = [v.get() if hasattr(v, "get") else v for v in a]
            al = rt.tonum(al.get() if hasattr(al, "get") else al)
            rt.goal(y.buf is rt.y and y.off.iszero() and S.of(inc).eq(S.of(1)), "the result")
            old = rt.y.a
            nm = rt.newname("arr")
            e = ack(rt, "E*" if conj else "E", row.i)
            v = old.read(rt, rt.j) + al * e
            rt.y.a = ZArr(nm, (), lambda k: v if k.eq(rt.j) else ack(rt, nm, k))
            return None
        return c
    o.contracts.update(sp_dot_product=dot(False), sp_conj_dot_product=dot(True), sp_axpy=ax(False), sp_conj_axpy=ax(True))


def rows(cls, name, kind, conj):
    """kind: "dot" (y over the rows) or "axpy" (y over the columns)"""
    def inv(rt):
        i = rt.L("i")
        y = rd(rt, rt.y, rt.j)
        out = [("counter", And(le(0, i), le(i, rt.M)))]
        if kind == "dot":
            out.append(("entry", Imp(lt(rt.j, i), eqc(y, ack(rt, "y", rt.j) + rt.al * prodrow(rt, rt.j, conj)))))
            out.append(("to come", Imp(le(i, rt.j), eqc(y, ack(rt, "y", rt.j)))))
        else:
            out.append(("entry", eqc(y, ack(rt, "y", rt.j) + colsum(rt, i, conj))))
            X = rt.L("X")
            X = X.get() if isinstance(X, (Cell, FieldCell)) else X
            out.append(("position in x", And(eqc(X.off, i), X.buf is rt.x)))
        return out
    nl = 2 if kind == "dot" else 1

    @dvob("C18", "%s::%s: every entry of the result" % (cls, name), "sparse", invs={(cls, name, k): Inv(inv) for k in range(nl)}, timeout=60)
    def ob(rt):
        setup(rt, cls)
        o = sparse(rt, cls)
        contracts(rt, o)
        m, n = (rt.M, rt.N) if kind == "dot" else (rt.N, rt.M)
        rt.x, rt.y = arr(rt, "x", n), arr(rt, "y", m)
        rt.j = rngi(rt, "j", 0, m)
        rt.al = var("alpha")
        rt.checkbounds = True
        rt.run(method(rt, cls, name), o, [rt.al, zp(rt, rt.x), S.of(1), zp(rt, rt.y), S.of(1)])
        rt.checkbounds = False
        rt.goal(rt.x.a.w == (), "the vector stays")
        y = rd(rt, rt.y, rt.j)
        rt.goal(eqc(y, ack(rt, "y", rt.j) + (rt.al * prodrow(rt, rt.j, conj) if kind == "dot" else colsum(rt, rt.M, conj))), "entry of the result")


# ------------------------------------------------------------------ dispatch, several columns
TR = {"N": "blas_no_trans", "T": "blas_trans", "C": "blas_conj_trans"}


def enum(rt, nm):
    import cxx
    v = rt.prog.enums.get(nm)
    if v is None:
        import re
        t = open(cxx.REPO + "/Others/SparseBLAS/blas_enum.h").read()
        m = re.search(r"\b%s\s*=\s*(\d+)" % nm, t)
        v = int(m.group(1))
    return S.of(v)


def dispatch(cls, t):
    @dvob("C18", "%s::usmv: one product of the right kind (%s)" % (cls, t), "sparse", timeout=60)
    def ob(rt):
        setup(rt, cls)
        o = sparse(rt, cls)
        calls = []
        for nm in ("nondiag_mult_vec", "nondiag_mult_vec_conj", "nondiag_mult_vec_transpose", "nondiag_mult_vec_conj_transpose", "mult_diag", "mult_conj_diag"):
            o.contracts[nm] = lambda rt_, o_, a, nm=nm: calls.append((nm, a))
        x, y = arr(rt, "x", None), arr(rt, "y", None)
        al = var("alpha")
        r = rt.run(method(rt, cls, "usmv"), o, [enum(rt, TR[t]), al, zp(rt, x), S.of(1), zp(rt, y), S.of(1)])
        want = {"N": "nondiag_mult_vec", "T": "nondiag_mult_vec_transpose", "C": "nondiag_mult_vec_conj_transpose"}[t]
        rt.goal([c for c, _ in calls] == [want], "one product")
        if calls:
            a = calls[0][1]
            g = lambda v: v.get() if isinstance(v, (Cell, FieldCell)) else v
            rt.goal(eqc(rt.tonum(g(a[0])), al), "alpha")
            rt.goal(g(a[1]).buf is x and g(a[3]).buf is y and g(a[1]).off.iszero() and g(a[3]).off.iszero() and S.of(g(a[2])).eq(S.of(1)) and S.of(g(a[4])).eq(S.of(1)), "vectors")
        rt.goal(eqc(rt.tonum(r), 0), "result code")


def columns(cls, t):
    def inv(rt):
        i = rt.L("i")
        y = rd(rt, rt.C, rt.K)
        rt.fact(eqc(ack(rt, "C", rt.K), ack(rt, "C", rt.j * rt.ld + rt.r)))
        lemma(rt, i)
        return [("counter", And(le(0, i), le(i, rt.nrhs))), ("done", Imp(lt(rt.j, i), eqc(y, ack(rt, "C", rt.K) + rt.al * ack(rt, "P", rt.j)))),
                ("to come", Imp(le(i, rt.j), eqc(y, ack(rt, "C", rt.K))))]

    def lemma(rt, i):
        """columns do not overlap"""
        ld, j = rt.ld, rt.j
        rt.fact(Imp(lt(i, j), le((i + 1) * ld, j * ld)))
        rt.fact(Imp(lt(j, i), le((j + 1) * ld, i * ld)))
        rt.fact(Imp(eqc(i, j), eqc(i * ld, j * ld)))

    @dvob("C18", "%s::usmm: every column by one product (%s)" % (cls, t), "sparse", invs={(cls, "usmm", 0): Inv(inv), (cls, "usmm", 1): Inv(inv)}, timeout=60)
    def ob(rt):
        setup(rt, cls)
        o = sparse(rt, cls)
        m, n = (rt.M, rt.N) if t == "N" else (rt.N, rt.M)
        rt.nrhs, rt.ldb, rt.ld = var("nrhs", isint=True), var("ldb", isint=True), var("ldC", isint=True)
        for x in (le(0, rt.nrhs), le(n, rt.ldb), le(m, rt.ld)):
            rt.fact(x)
        rt.al = var("alpha")
        rt.j, rt.r = rngi(rt, "j", 0, rt.nrhs), rngi(rt, "r", 0, m)
        rt.K = rt.j * rt.ld + rt.r
        B, rt.C = arr(rt, "B", None), arr(rt, "C", None)

        def usmv(rt_, o_, a):
            g = lambda v: v.get() if isinstance(v, (Cell, FieldCell, ZCell)) else v
            tr, al, x, incx, y, incy = [g(v) for v in a]
            rt.goal(eqc(rt.tonum(tr), enum(rt, TR[t])), "kind of product")
            rt.goal(eqc(rt.tonum(al), rt.al), "alpha")
            rt.goal(x.buf is B and y.buf is rt.C and S.of(incx).eq(S.of(1)) and S.of(incy).eq(S.of(1)), "columns")
            i = rt.L("i")
            lemma(rt, i)
            rt.goal(eqc(x.off, i * rt.ldb), "column of the operand")
            rt.goal(eqc(y.off, i * rt.ld), "column of the result")
            old = rt.C.a
            hit = And(le(y.off, rt.K), lt(rt.K, y.off + m))
            nm = rt.newname("arr")
            if rt.decide(hit):
                v = old.read(rt, rt.K) + rt.al * ack(rt, "P", i)
            else:
                v = old.read(rt, rt.K)
            rt.C.a = ZArr(nm, (), lambda k: v if k.eq(rt.K) else ack(rt, nm, k))
            return S.of(0)
        o.contracts["usmv"] = usmv
        r = rt.run(method(rt, cls, "usmm"), o, [enum(rt, "blas_colmajor"), enum(rt, TR[t]), rt.nrhs, rt.al, zp(rt, B), rt.ldb, zp(rt, rt.C), rt.ld])
        rt.goal(eqc(rt.tonum(r), 0), "result code")
        rt.goal(eqc(rd(rt, rt.C, rt.K), ack(rt, "C", rt.K) + rt.al * ack(rt, "P", rt.j)), "entry of the result")


# ------------------------------------------------------------------ construction
def insertion(cls):
    @dvob("C18", "%s::insert_entry: one more entry in its row" % cls, "sparse", timeout=60)
    def one(rt):
        setup(rt, cls)
        rt.pushed = []
        o = sparse(rt, cls)
        new = rt.decide(batom("new"))
        o.f.update(valid_=S.of(0), nnew_=S.of(1 if new else 0), open_=S.of(0 if new else 1))
        v, i, j = var("v"), var("i", isint=True), var("j", isint=True)
        r = rt.tonum(rt.run(method(rt, cls, "insert_entry"), o, [v, i, j]))
        inside = And(le(0, i), lt(i, rt.M), le(0, j), lt(j, rt.N))
        if rt.decide(inside):
            rt.goal(len(rt.pushed) == 1, "one entry")
            if rt.pushed:
                p = rt.pushed[0]
                rt.goal(And(eqc(p[0], i), eqc(rt.tonum(p[1]), v), eqc(p[2], j)), "in its row, with its column and value")
            rt.goal(eqc(r, 0), "result code")
            rt.goal(And(eqc(o.f["open_"], 1), eqc(o.f["nnew_"], 0)), "the matrix is under construction")
        else:
            rt.goal(rt.pushed == [], "nothing outside the matrix")
            rt.goal(eqc(r, 1), "result code")
        rt.goal(And(eqc(o.f["num_rows_"], rt.M), eqc(o.f["num_cols_"], rt.N)), "size")

    def inv(rt):
        k = rt.L("i")
        return [("counter", And(le(0, k), le(k, rt.nz))), ("total", eqc(rt.ghosts["tot"], total(rt, k)))]

    def total(rt, k):
        """sum of the values given for the followed entry, among the first k"""
        r, q = ack(rt, "tot", k), ack(rt, "tot", k + 1)
        c = And(eqc(ack(rt, "I", k, isint=True), rt.i), eqc(ack(rt, "J", k, isint=True), rt.j))
        rt.fact(Imp(eqc(k, 0), eqc(r, 0)))
        rt.fact(Imp(c, eqc(q, r + ack(rt, "Val", k))))
        rt.fact(Imp(Not(c), eqc(q, r)))
        return r

    def ghost(rt):
        rt.ghosts["tot"] = rt.tot

    def entry(rt):
        rt.ghosts["tot"] = S.of(0)
        rt.ghost_ty = dict(rt.ghost_ty, tot="real")

    def assume(rt):
        rt.tot = rt.ghosts["tot"]

    @dvob("C18", "%s::insert_entries: every entry is the sum of the values given for it" % cls, "sparse",
          invs={(cls, "insert_entries", 0): Inv(inv, entry=entry, ghost=ghost, assume=assume)}, timeout=60)
    def many(rt):
        setup(rt, cls)
        o = sparse(rt, cls)
        rt.nz = var("nz", isint=True)
        rt.fact(le(0, rt.nz))
        rt.i, rt.j = rngi(rt, "i", 0, rt.M), rngi(rt, "j", 0, rt.N)

        def ins(rt_, o_, a):
            g = lambda v: v.get() if hasattr(v, "get") else v
            v, i, j = [g(x) for x in a]
            rt.tot = rt.ite(And(eqc(i, rt.i), eqc(j, rt.j)), rt.tot + rt.tonum(v), rt.tot)
            return S.of(0)
        o.contracts["insert_entry"] = ins
        V = arr(rt, "Val", rt.nz)
        I, J = Buf(ZArr("I", (), None, "int"), "I", rt.nz), Buf(ZArr("J", (), None, "int"), "J", rt.nz)
        rt.checkbounds = True
        rt.run(method(rt, cls, "insert_entries"), o, [rt.nz, zp(rt, V), zp(rt, I), zp(rt, J)])
        rt.checkbounds = False
        rt.goal(eqc(rt.ghosts["tot"], total(rt, rt.nz)), "sum of the values given")

    @dvob("C18", "%s::end_construction: the matrix can be used" % cls, "sparse", timeout=60)
    def end(rt):
        setup(rt, cls)
        o = sparse(rt, cls)
        new = rt.decide(batom("new"))
        o.f.update(valid_=S.of(0), nnew_=S.of(1 if new else 0), open_=S.of(0 if new else 1))
        r = rt.tonum(rt.run(method(rt, cls, "end_construction"), o, []))
        rt.goal(And(eqc(r, 0), eqc(o.f["valid_"], 1), eqc(o.f["open_"], 0), eqc(o.f["nnew_"], 0)), "valid")


for cls in (DBL, CPX):
    for conj in (False, True):
        dotprod(cls, conj)
        axpy(cls, conj)
    rows(cls, "nondiag_mult_vec", "dot", False)
    rows(cls, "nondiag_mult_vec_conj", "dot", True)
    rows(cls, "nondiag_mult_vec_transpose", "axpy", False)
    rows(cls, "nondiag_mult_vec_conj_transpose", "axpy", True)
    for t in "NTC":
        dispatch(cls, t)
        columns(cls, t)
    insertion(cls)


# ------------------------------------------------------------------ matrices of the library against the kernel
import spec_elem as se


def usmmc(rt, a):
    """contract of BLAS_usmm (proved of the kernel above): C += alpha op(S) B"""
    order, tr, nrhs, al, A, B, ldb, C, ldc = [se.num(t) for t in a]
    rt.goal(eqc(rt.tonum(order), enum(rt, "blas_colmajor")), "column by column")
    kinds = [t for t in TR if rt.tonum(tr).eq(enum(rt, TR[t]))]
    rt.goal(len(kinds) == 1, "a kind of product")
    rt.goal(rt.tonum(al).eq(S.of(1)), "alpha = 1")
    rt.goal(eqc(A, rt.handle), "handle")
    m, n = (rt.M, rt.N) if kinds[0] == "N" else (rt.N, rt.M)
    se.fits(rt, B, n, nrhs, ldb, "usmm: operand")
    se.fits(rt, C, m, nrhs, ldc, "usmm: result")
    rt.goal(se.isc(B) is rt.cplx and se.isc(C) is rt.cplx, "kind of entries")
    b, c = se.base(rt, B, "usmm"), C.buf.a
    rt.goal(c.w == () and c.base == "zeros(%s,%s)" % (m, nrhs), "the result starts at zero")
    C.buf.a = ZArr("usmm(%s,S,%s)" % (kinds[0], b))


def spmat(rt, cx):
    rt.cplx = cx
    rt.M, rt.N = se.dims(rt, "M", "N")
    rt.handle = var("handle", isint=True)
    rt.over["BLAS_usmm"] = usmmc
    sm = Obj("Sp_mat", rt)
    for k, v in (("num_rows", rt.M), ("num_cols", rt.N), ("is_complex", S.of(1 if cx else 0))):
        sm.contracts[k] = lambda rt_, o_, a, v=v: v

    def get(rt_, a):
        rt.goal(eqc(rt.tonum(se.num(a[0])), rt.handle), "handle")
        return Ptr(sm)
    rt.over["GetSpMFromTable"] = get
    return Obj("SparseMatrix", rt, SparseM=rt.handle, m=rt.M, n=rt.N, iscomplex=cx)


for cx in (False, True):
    t = " (complex)" if cx else ""

    @dvob("C18", "sparse * dense is the product with the stored matrix" + t, "elem", timeout=60)
    def left(rt, cx=cx):
        se.setup(rt)
        s = spmat(rt, cx)
        k = se.dims(rt, "k")
        R = se.el(rt, "R", rt.N, k, cx)
        rt.econ = {"GetTranspose": se.transc, "SetToZeros": se.zeroc}
        r = se.unref(rt.run(se.freeop(rt, "operator*", "SparseMatrix&,Element"), None, [s, R]))
        se.shape(rt, r, rt.M, k, cx)
        se.isnamed(rt, r, "usmm(N,S,R)", "S R")
        se.untouched(rt)

    @dvob("C18", "dense * sparse is the product with the stored matrix" + t, "elem", timeout=60)
    def right(rt, cx=cx):
        se.setup(rt)
        s = spmat(rt, cx)
        k = se.dims(rt, "k")
        L = se.el(rt, "L", k, rt.M, cx)
        rt.econ = {"GetTranspose": se.transc, "SetToZeros": se.zeroc}
        r = se.unref(rt.run(se.freeop(rt, "operator*", "Element,SparseMatrix&"), None, [L, s]))
        se.shape(rt, r, k, rt.N, cx)
        se.isnamed(rt, r, "trans(usmm(%s,S,trans(L)))" % ("C" if cx else "T"), "(S* L*)* = L S")
        se.untouched(rt)


class Tok:
    """an argument that is only passed on"""

    def __init__(self, nm):
        self.nm = nm

    def snapkey(self):
        return ("tok", self.nm)


def tokens(f):
    return [Tok(p[0]) for p in f.params]


def passed(rt, got, want, what):
    got = [g.get() if isinstance(g, (Cell, FieldCell)) else g for g in got]
    rt.goal(len(got) == len(want) and all(g is w for g, w in zip(got, want)), what)


KINDS = (("doublecomplex", "z"), ("complex", "c"), ("doublereal", "d"), ("double", "d"), ("real", "s"), ("float", "s"))


def kindof(f):
    import re
    for ty, p in KINDS:
        if any(re.search(r"\b%s\b" % ty, q[1]) for q in f.params):
            return p
    raise Unsupported("element type of a wrapper")


def wrappers(name):
    @dvob("C03", "wrapper %s: the routine of its type, with the same arguments" % name, "other", timeout=60)
    def ob(rt):
        l = [f for f in rt.prog.fns.get(("", name), [])]
        rt.goal(len(l) >= 1, "the wrapper exists")
        for f in l:
            p = kindof(f)
            target = p + ("geru_" if name == "ger_" and p in "cz" else name)
            got = []
            rets = Tok("value")
            rt.over[target] = lambda rt_, a: (got.append(a), rets)[1]
            args = tokens(f)
            r = rt.run(f, None, list(args))
            rt.goal(len(got) == 1, "one call of " + target)
            passed(rt, got[0], args, target + ": the arguments in order")
            if name in ("dot_", "nrm2_"):
                rt.goal(r is rets, "its value is returned")


for nm in ("axpy_ copy_ dot_ dotc_ dotu_ gees_ gemm_ gemv_ geqp3_ ger_ gerc_ gesdd_ gesv_ gesvd_ getrf_ getri_ getrs_ heev_ lapmt_ larfx_ nrm2_ orgqr_ ormqr_ potrf_ "
           "potri_ potrs_ scal_ syev_ syevd_ syevr_ syevx_ symv_ tgsyl_ trsm_ trtrs_ ungqr_ unmqr_").split():
    wrappers(nm)


@dvob("C18", "BLAS_usmm passes its arguments to the kernel of its type", "other", timeout=60)
def usmmw(rt):
    for f in rt.prog.fns.get(("", "BLAS_usmm"), []):
        target = "BLAS_%susmm" % kindof(f)
        got = []
        rt.over[target] = lambda rt_, a: (got.append(a), S.of(0))[1]
        args = tokens(f)
        rt.run(f, None, list(args))
        rt.goal(len(got) == 1, "one call of " + target)
        passed(rt, got[0], args, target + ": the arguments in order")


def insw(ty, p, k):
    def inv(rt):
        i = rt.L("i")
        I, J = rt.L("indxptr"), rt.L("jndxptr")
        return [("counter", And(le(0, i), le(i, rt.nz))),
                ("row indices", Imp(lt(rt.k, i), eqc(rd(rt, I.buf, I.off + rt.k), ack(rt, "I", rt.k, isint=True)))),
                ("column indices", Imp(lt(rt.k, i), eqc(rd(rt, J.buf, J.off + rt.k), ack(rt, "J", rt.k, isint=True))))]

    @dvob("C18", "BLAS_uscr_insert_entries(%s) passes every entry with its indices" % ty, "other", invs={("", "BLAS_uscr_insert_entries", k): Inv(inv)}, timeout=60)
    def ob(rt):
        setup0(rt)
        f = [f for f in rt.prog.fns.get(("", "BLAS_uscr_insert_entries"), []) if kindof(f) == p]
        rt.goal(len(f) == 1, "one version")
        rt.nz = var("nz", isint=True)
        rt.fact(le(0, rt.nz))
        rt.k = rngi(rt, "k", 0, rt.nz)
        I, J = Buf(ZArr("I", (), None, "int"), "I", rt.nz), Buf(ZArr("J", (), None, "int"), "J", rt.nz)
        A, V = Tok("A"), Tok("val")
        got = []

        def target(rt_, a):
            got.append(1)
            g = lambda v: v.get() if isinstance(v, (Cell, FieldCell)) else v
            a = [g(v) for v in a]
            rt.goal(a[0] is A and a[2] is V and eqc(rt.tonum(a[1]), rt.nz), "matrix, number of entries, values")
            rt.goal(eqc(rd(rt, a[3].buf, a[3].off + rt.k), ack(rt, "I", rt.k, isint=True)), "row index of every entry")
            rt.goal(eqc(rd(rt, a[4].buf, a[4].off + rt.k), ack(rt, "J", rt.k, isint=True)), "column index of every entry")
            return S.of(0)
        rt.over["BLAS_%suscr_insert_entries" % p] = target
        rt.checkbounds = True
        rt.run(f[0], None, [A, rt.nz, V, zp(rt, I), zp(rt, J)])
        rt.checkbounds = False
        rt.goal(got == [1], "one call")


insw("double", "d", 0)
insw("doublecomplex", "z", 0)


class PV:
    """a pointer, as a number (0: null)"""

    def __init__(self, v):
        self.v = v

    def cmp(self, op, b):
        return Cond(op, self.v, b.v if isinstance(b, PV) else S.of(0))

    def rcmp(self, op, a):
        return Cond(op, S.of(0), self.v)

    def snapkey(self):
        return ("pv", self.v)

    def havoc(self, rt, nm):
        return PV(var(rt.newname(nm), isint=True))


class PVCell:
    def __init__(self, tab, i):
        self.tab, self.i = tab, i

    def get(self):
        return PV(self.tab.a.read(self.tab.rt, self.i))

    def set(self, v):
        self.tab.a = self.tab.a.store(self.i, v.v if isinstance(v, PV) else S.of(0))


class Tabl:
    """std::vector of pointers"""

    def __init__(self, rt):
        self.rt = rt
        self.a = ZArr("Table", (), None, "int")
        self.n = var("size", isint=True)
        rt.fact(le(0, self.n))

    def method(self, rt, name, a):
        if name == "size":
            return self.n
        if name == "push_back":
            v = a[0].get() if hasattr(a[0], "get") else a[0]
            self.a = self.a.store(self.n, v.v)
            self.n = self.n + 1
            return None
        raise Unsupported("vector::" + name)

    def index(self, i):
        self.rt.goal(And(le(0, i), lt(i, self.n)), "position in the table")
        return PVCell(self, i)

    def snapkey(self):
        return ("table", self.n, self.a)


def table(rt):
    setup0(rt)
    t = Tabl(rt)
    act = Cell(var("active", isint=True))
    rt.free = dict(rt.free, Table=t, Table_active_matrices=act)
    rt.k = rngi(rt, "k", 0, t.n)
    rt.t = t
    return t, act


def was(rt, k):
    return ack(rt, "Table", k, isint=True)


def tableobs():
    def fnof(rt, nm):
        l = rt.prog.fns.get(("", nm), [])
        if len(l) != 1:
            raise Unsupported(nm)
        return l[0]

    def same(rt):
        """no slot used so far is free"""
        i = rt.L("i")
        return [("counter", le(0, i)), ("nothing stored yet", And(eqc(rt.t.n, var("size", isint=True)), eqc(rt.t.a.read(rt, rt.k), was(rt, rt.k))))]

    @dvob("C18", "Table_insert: the handle leads to the new matrix, the others stay", "sparse", invs={("", "Table_insert", 0): Inv(same)}, timeout=60)
    def ins(rt):
        t, act = table(rt)
        new = PV(var("S", isint=True))
        rt.fact(lt(0, new.v))
        n0 = t.n
        r = rt.tonum(rt.run(fnof(rt, "Table_insert"), None, [new]))
        if rt.decide(le(0, r)):
            rt.goal(And(le(0, r), lt(r, t.n)), "handle in range")
            rt.goal(eqc(t.a.read(rt, r), new.v), "the handle leads to the new matrix")
            rt.goal(Imp(lt(r, n0), eqc(was(rt, r), 0)), "only a free position is taken")
            if not rt.decide(eqc(rt.k, r)):
                rt.goal(eqc(t.a.read(rt, rt.k), was(rt, rt.k)), "the other handles stay")
        else:
            rt.goal(eqc(t.a.read(rt, rt.k), was(rt, rt.k)), "the handles stay")

    @dvob("C18", "Table_remove: one handle is given up, the others stay", "sparse", timeout=60)
    def rem(rt):
        t, act = table(rt)
        i = var("i", isint=True)
        rt.fact(le(0, i))
        r = rt.tonum(rt.run(fnof(rt, "Table_remove"), None, [i]))
        live = And(lt(i, t.n), ne_(was(rt, i), 0))
        rt.goal(Imp(live, eqc(r, 0)), "result code")
        rt.goal(Imp(lt(i, t.n), eqc(t.a.read(rt, i), 0)), "the handle is free")
        if not rt.decide(eqc(rt.k, i)):
            rt.goal(eqc(t.a.read(rt, rt.k), was(rt, rt.k)), "the other handles stay")

    @dvob("C18", "GetSpMFromTable: the matrix stored under the handle", "sparse", timeout=60)
    def get(rt):
        t, act = table(rt)
        r = rt.run(fnof(rt, "GetSpMFromTable"), None, [rt.k])
        r = r.get() if hasattr(r, "get") else r
        if rt.decide(eqc(was(rt, rt.k), 0)):
            rt.goal(r is None or not isinstance(r, PV) or eqc(r.v, 0), "no matrix")
        else:
            rt.goal(eqc(r.v, was(rt, rt.k)) if isinstance(r, PV) else False, "the matrix")
        rt.goal(t.a.w == () and t.n.eq(var("size", isint=True)), "the table stays")


def ne_(a, b):
    return Not(eqc(a, S.of(b)))


tableobs()

for cx in (False, True):
    @dvob("C18", "SparseMatrix holds the matrix of the given entries" + (" (complex)" if cx else ""), "other", timeout=60)
    def ctor(rt, cx=cx):
        p = "z" if cx else "d"
        f = [f for f in rt.prog.fns.get(("SparseMatrix", "SparseMatrix"), []) if (kindof(f) == "z") is cx and len(f.params) == 6]
        rt.goal(len(f) == 1, "one constructor")
        ev = []
        H = var("handle", isint=True)
        M, N, nz = (var(x, isint=True) for x in ("M", "N", "nz"))
        I, J, V = Tok("ir"), Tok("jc"), Tok("vals")
        g = lambda v: v.get() if isinstance(v, (Cell, FieldCell)) else v

        def begin(rt_, a):
            rt.goal(And(eqc(g(a[0]), M), eqc(g(a[1]), N)), "size")
            ev.append("begin")
            return H

        def insert(rt_, a):
            a = [g(x) for x in a]
            rt.goal(And(eqc(a[0], H), eqc(a[1], nz)), "matrix, number of entries")
            rt.goal(a[2] is V and a[3] is I and a[4] is J, "values, rows, columns")
            ev.append("insert")

        def end(rt_, a):
            rt.goal(eqc(g(a[0]), H), "matrix")
            ev.append("end")
        rt.over.update({"BLAS_%suscr_begin" % p: begin, "BLAS_uscr_insert_entries": insert, "BLAS_%suscr_end" % p: end})
        o = Obj("SparseMatrix", rt, m=S.of(0), n=S.of(0), SparseM=S.of(0), iscomplex=False)
        rt.run(f[0], o, [M, N, I, J, V, nz])
        rt.goal(ev == ["begin", "insert", "end"], "begun, filled, ended")
        rt.goal(And(eqc(o.f["m"], M), eqc(o.f["n"], N), eqc(o.f["SparseM"], H)), "size and handle")
        rt.goal(eqc(rt.tonum(o.f["iscomplex"]), 1 if cx else 0) if isinstance(o.f["iscomplex"], S) else o.f["iscomplex"] is cx, "kind")
