"""C16: matrix completion. The vector kept at a point is v = P(G, H) - A over the given entries (P takes the entries of G H' at
the positions given); cost |v|^2/2, gradient (S(v) H, S(v)' G), Hessian (S(v) dH + S(p) H, S(v)' dG + S(p)' G) with
p = P(dG, H) + P(G, dH), where S(v) is the sparse matrix with the entries v. Since <P(A, B), v> = <S(v), A B'> these are the
derivatives of the cost."""
from dv import *
from world import *
import dv
from elemapi import ElemAPI


# ------------------------------------------------------------------ the entries of a product
def PS(k, j):
    return fn("PS", k, j)


def facts(rt, i, j=None):
    g = rt.g
    m, n, r = g["m"], g["n"], g["r"]
    for k in (i, g["K"]):
        rt.fact(Imp(And(le(0, k), lt(k, g["nz"])), And(And(le(0, fn("ir", k, isint=True)), lt(fn("ir", k, isint=True), m)), And(le(0, fn("jc", k, isint=True)), lt(fn("jc", k, isint=True), n)))))
        rt.fact(eqc(PS(k, S.of(0)), 0))
    rt.fact(Imp(eqc(i, g["K"]), eqc(PS(i, r), PS(g["K"], r))))
    if j is not None:
        rt.fact(Imp(eqc(j, r), eqc(PS(i, j), PS(i, r))))
        rt.fact(Imp(lt(j, r), And(le(j * m + m, r * m), le(j * n + n, r * n))))
        rt.fact(Imp(le(0, j), And(le(0, j * m), le(0, j * n))))
        rt.fact(eqc(PS(i, j + 1), PS(i, j) + fn("G", fn("ir", i, isint=True) + j * m) * fn("H", fn("jc", i, isint=True) + j * n)))


def res(rt, k):
    return rt.g["res"].a.read(rt, k)


def outer(rt):
    g = rt.g
    i = rt.L("i")
    return [("i", And(le(0, i), le(i, g["nz"]))), ("done", Imp(lt(g["K"], i), eqc(res(rt, g["K"]), PS(g["K"], g["r"]))))]


def inner(rt):
    g = rt.g
    i, j = rt.L("i"), rt.L("j")
    return [("i", And(le(0, i), lt(i, g["nz"]))), ("j", And(le(0, j), le(j, g["r"]))), ("sum", eqc(res(rt, i), PS(i, j))),
            ("done", Imp(lt(g["K"], i), eqc(res(rt, g["K"]), PS(g["K"], g["r"]))))]


@dvob("C16", "FRankQ2FMatCompletion::ProjecOmegaGHT: entry k is the inner product of row ir[k] of G and row jc[k] of H", "prob",
      invs={("FRankQ2FMatCompletion", "ProjecOmegaGHT", 0): Inv(outer, state=lambda rt: facts(rt, rt.L("i"))),
            ("FRankQ2FMatCompletion", "ProjecOmegaGHT", 1): Inv(inner, state=lambda rt: facts(rt, rt.L("i"), rt.L("j")))})
def project(rt):
    rt.rawbuf = rt.checkbounds = rt.cong = True
    m, n, r, nz, K = (var(x, isint=True) for x in ("m", "n", "r", "nz", "K"))
    for c in (lt(0, m), lt(0, n), lt(0, r), le(0, K), lt(K, nz)):
        rt.fact(c)
    o = Obj("FRankQ2FMatCompletion", rt)
    rt.objs.append(o)
    out = Buf(ZArr("garbage"), "result", nz)
    rt.g = dict(m=m, n=n, r=r, nz=nz, K=K, res=out)
    p = lambda nm, cnt, ty="real": ZPtr(rt, Buf(ZArr(nm, (), None, ty), nm, cnt))
    facts(rt, K)
    reach(rt, o, "ProjecOmegaGHT", p("G", m * r), p("H", n * r), m, n, r, p("ir", nz, "int"), p("jc", nz, "int"), nz, ZPtr(rt, out))
    rt.goaleq(res(rt, K), PS(K, r), "entry K")


# ------------------------------------------------------------------ cost, gradient, Hessian
class Seg:
    """pointer to nz reals inside a block: the contents are a combination of letters (vectors over the given entries)"""

    def __init__(self, blk, off):
        self.blk, self.off = blk, off

    def arith(self, op, b):
        return Seg(self.blk, self.off + b if op == "+" else self.off - b)

    def advance(self, k):
        return Seg(self.blk, self.off + k)

    def find(self, rt):
        for s in self.blk["seg"]:
            if s[0].eq(self.off):
                return s
        s = [self.off, None]
        self.blk["seg"].append(s)
        return s

    def rd(self, rt):
        rt.goal(not self.blk["freed"], "read of memory in use")
        v = self.find(rt)[1]
        if v is None:
            raise Unsupported("read of memory that was not written")
        return v

    def wr(self, rt, v):
        rt.goal(not self.blk["freed"], "write to memory in use")
        rt.goal(And(le(0, self.off), le(self.off + rt.g["nz"], self.blk["n"])), "the entries fit into the memory")
        self.find(rt)[1] = v


class Mat:
    """pointer to the entries of a matrix, read only"""

    def __init__(self, e):
        self.e = e


class API(dv.DElemAPI):
    def m_ObtainWriteEntireData(self, rt, e):
        if e.r.eq(rt.g["nz"]):
            e.dropfields()
            e.detach()
            e.arr = Arr(None)
            e.arr.extra = dict(seg=[], n=rt.g["nz"], freed=False)
            return Seg(e.arr.extra, S.of(0))
        return super().m_ObtainWriteEntireData(rt, e)

    def m_ObtainReadData(self, rt, e):
        if e.arr is not None and isinstance(e.arr.extra, dict):
            return Seg(e.arr.extra, S.of(0))
        return Mat(e)


def PP(rt, a, b):
    """bilinear in the factors"""
    z = M.zero(rt.g["nz"], S.of(1))
    for u, c in a.t.items():
        for v, d in b.t.items():
            z = z + M.sym(opaque("P", (M(a.r, a.c, {u: ONE}), M(b.r, b.c, {v: ONE})), rt.g["nz"], S.of(1))).scale(c * d)
    return z


def SM(rt, v):
    """the sparse matrix with these entries"""
    g = rt.g
    r = M.zero(g["m"], g["n"])
    for w, c in v.t.items():
        r = r + M.sym(opaque("S", (M(v.r, v.c, {w: ONE}),), g["m"], g["n"])).scale(c)
    return r


from alg import ONE


def mk(rt):
    m, n, r, nz = (var(x, isint=True, pos=True) for x in ("m", "n", "r", "nz"))
    V = M.sym(sym("vals", nz, S.of(1)))
    ir, jc = Opaque("ir"), Opaque("jc")
    vals = Seg(dict(seg=[[S.of(0), V]], n=nz, freed=False), S.of(0))
    rt.g = g = dict(m=m, n=n, r=r, nz=nz, V=V)
    rt.elemapi = API()
    o = Obj("FRankQ2FMatCompletion", rt, m=m, n=n, r=r, nz=nz, ir=ir, jc=jc, vals=vals)
    rt.objs.append(o)

    def proj(rt_, o_, a):
        a = [val(z) for z in a]
        if not isinstance(a[0], Mat) or not isinstance(a[1], Mat):
            raise Unsupported("factors of the product")
        for t, w, d in (("rows of G", a[2], m), ("rows of H", a[3], n), ("columns", a[4], r), ("number of entries", a[7], nz)):
            rt.goaleq(w, d, t)
        rt.goal(a[5] is ir and a[6] is jc, "positions of the entries")
        A, B = a[0].e.val(), a[1].e.val()
        rt.goal(And(eqc(A.r, m), eqc(A.c, r)), "size of the left factor")
        rt.goal(And(eqc(B.r, n), eqc(B.c, r)), "size of the right factor")
        a[8].wr(rt, PP(rt, A, B))
    o.contracts["ProjecOmegaGHT"] = proj
    one = lambda p: num_(val(p.to) if isinstance(p, Ptr) else p.deref().get() if hasattr(p, "deref") else val(p))

    def axpy(rt_, a):
        a = [val(z) for z in a]
        rt.goaleq(one(a[0]), nz, "number of entries")
        rt.goal(And(eqc(one(a[3]), 1), eqc(one(a[5]), 1)), "every entry is used")
        a[4].wr(rt, a[4].rd(rt) + a[2].rd(rt).scale(one(a[1])))

    def dot(rt_, a):
        a = [val(z) for z in a]
        rt.goaleq(one(a[0]), nz, "number of entries")
        rt.goal(And(eqc(one(a[2]), 1), eqc(one(a[4]), 1)), "every entry is used")
        return a[1].rd(rt).dot(a[3].rd(rt))
    rt.over.update({"axpy_": axpy, "dot_": dot})

    def sparse(rt_, nd):
        a = [val(z) for z in rt_.args(nd.ch)]
        rt.goal(And(eqc(num_(a[0]), m), eqc(num_(a[1]), n)), "size of the sparse matrix")
        rt.goal(a[2] is ir and a[3] is jc, "positions of the entries")
        rt.goaleq(num_(a[5]), nz, "number of entries")
        return Obj("SparseMatrix", rt, M=SM(rt, a[4].rd(rt)))
    rt.hooks["construct"] = {"SparseMatrix": sparse}
    blocks = rt.blocks = []

    def newarr(ty, cnt):
        b = dict(seg=[], n=cnt, freed=False)
        blocks.append(b)
        return Seg(b, S.of(0))

    def dele(rt_, v):
        v = val(v)
        if isinstance(v, Seg):
            rt.goal(not v.blk["freed"], "memory is freed once")
            rt.goaleq(v.off, 0, "memory is freed at its start")
            v.blk["freed"] = True
    rt.newarray, rt.hooks["delete"] = newarr, dele
    return o


def pt(names, rt, rows):
    p = Elem()
    p.elements = []
    for nm, k in zip(names, rows):
        e = elem_(rt, nm, k, rt.g["r"])
        e.parent = p
        p.elements.append(e)
    return p


def elem_(rt, nm, r, c):
    e = Elem(r, c, S.of(1))
    e.name = nm
    e.setval(M.sym(sym(nm, r, c)), r, c)
    return e


@dvob("C16", "FRankQ2FMatCompletion: cost, gradient and Hessian", "prob")
def matcomp(rt):
    o = mk(rt)
    g = rt.g
    m, n = g["m"], g["n"]
    x = pt(("G", "H"), rt, (m, n))
    G, H = (e.val() for e in x.elements)
    f = S.of(rt.tonum(reach(rt, o, "f", x)))
    v = PP(rt, G, H) - g["V"]
    rt.goaleq(f, v.dot(v) / 2, "cost |P(G H') - A|^2 / 2")
    for i, t in enumerate((G, H)):
        rt.goaleq(x.elements[i].val(), t, "the point is kept")
    r = pt(("old0", "old1"), rt, (m, n))
    reach(rt, o, "EucGrad", x, Ptr(r))
    rt.goaleq(r.elements[0].val(), SM(rt, v) * H, "gradient with respect to G")
    rt.goaleq(r.elements[1].val(), SM(rt, v).T * G, "gradient with respect to H")
    d = pt(("dG", "dH"), rt, (m, n))
    A, B = (e.val() for e in d.elements)
    h = pt(("old2", "old3"), rt, (m, n))
    reach(rt, o, "EucHessianEta", x, d, Ptr(h))
    p = PP(rt, A, H) + PP(rt, G, B)
    rt.goaleq(h.elements[0].val(), SM(rt, p) * H + SM(rt, v) * B, "Hessian with respect to G")
    rt.goaleq(h.elements[1].val(), SM(rt, p).T * G + SM(rt, v).T * A, "Hessian with respect to H")
    for i, t in enumerate((A, B)):
        rt.goaleq(d.elements[i].val(), t, "the direction is kept")
    rt.goal(all(b["freed"] for b in rt.blocks), "the memory is freed")
