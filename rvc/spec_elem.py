"""C03: the bodies of the operations on elements, entry by entry, for every shape, real and complex. The data of an element is an
array of reals (a complex entry takes two consecutive ones); one arbitrary entry of the result is followed through the loops.
BLAS and LAPACK are used by their documented meaning (an entry of a product is a sum named by its operands, offsets and strides;
factorisations are named by their inputs), so the obligations say that every call gets the operands, shapes, leading dimensions,
flags and scalars that make the result the documented one, and that the operands keep their entries."""
from dv import *
from world import *
import sx


# ------------------------------------------------------------------ complex views of the data
class CPtr:
    """realdpcomplex* into an array of reals; off counts reals"""
    isbuf = True

    def __init__(self, rt, buf, off):
        self.rt, self.buf, self.off = rt, buf, off

    def index(self, i):
        return CCell(self.rt, self.buf, self.off + i * 2)

    def deref(self):
        return CCell(self.rt, self.buf, self.off)

    def arith(self, op, b):
        return CPtr(self.rt, self.buf, self.off + b * 2 if op == "+" else self.off - b * 2)

    def rarith(self, op, a):
        return self.arith("+", a)

    def cmp(self, op, b):
        raise Unsupported("comparison of complex pointers")

    def snapkey(self):
        return ("cp", self.buf, self.off)


class CCell:
    parts = True

    def __init__(self, rt, buf, off):
        self.rt, self.buf, self.off = rt, buf, off

    def member(self, n):
        return ZCell(self.rt, self.buf, self.off if n == "r" else self.off + 1)

    def get(self):
        return Cplx(self.member("r").get(), self.member("i").get())

    def set(self, v):
        self.member("r").set(v.re)
        self.member("i").set(v.im)

    def addr(self):
        return CPtr(self.rt, self.buf, self.off)


class SizeCell(Cell):
    """size[i] of an element"""

    def __init__(self, e, i):
        self.e, self.i = e, i

    def get(self):
        e = self.e
        return [e.r * (2 if e.cplx is True else 1), e.c, e.num][self.i]

    def set(self, v):
        e = self.e
        if self.i == 0:
            e.r = v / S.of(2) if e.cplx is True else v
        elif self.i == 1:
            e.c = v
        else:
            e.num = v


class Sizes:
    def __init__(self, e):
        self.e = e

    def index(self, i):
        if not i.isconst() or not 0 <= int(i.cval()) <= 2:
            raise Unsupported("index into size")
        return SizeCell(self.e, int(i.cval()))


def realb(rt, e, write=False):
    return rt.elemapi.buf(rt, e, write)


class EAPI(DElemAPI):
    """element operations on arrays of reals; operations without a contract here are executed from their source"""

    def buf(self, rt, e, write):
        if e.arr is None:
            e.arr = Arr(None)
            e.arr.extra = Buf(ZArr(rt.newname("elem")), e.name or "element", self.m_Getlength(rt, e))
        return super().buf(rt, e, write)

    def operator(self, rt, op, args):
        h = getattr(rt, "opers", {}).get(op)
        if h:
            return h(rt, *args)
        raise Unsupported("operator%s without a contract" % op)

    def method(self, rt, e, name, args, ref):
        if name in getattr(rt, "econ", {}):
            rt.contracts.add("Element::" + name)
            f = rt.resolve("Element", name, ref[2] if ref else None, len(args))
            args = [a for a in args if not isinstance(a, sx._Default)]
            if f is not None:
                args += [rt.defaultarg(p[2][1]) for p in f.params[len(args):]]
            return rt.econ[name](rt, e, *args)
        if name in ("Getrow", "Getcol", "Getnum", "Getlength", "Getiscomplex", "Setiscomplex", "ObtainReadData", "ObtainWriteEntireData",
                    "ObtainWritePartialData", "FieldsExist", "Field", "AddToFields", "RemoveAllFromFields", "RemoveFromFields", "CopyTo"):
            return super().method(rt, e, name, args, ref)
        if name == "Getsize":
            return Sizes(e)
        if name == "GetSpace":
            return emember(rt, e, "Space")
        if name == "SetToZeros":
            e.dropfields()
            b = self.buf(rt, e, True)
            b.a = ZArr(rt.newname("zeros"), (), lambda i: S.of(0))
            return None
        if name == "NewMemoryOnWrite":
            self.entire(rt, e)
            return None
        f = rt.resolve("Element", name, ref[2] if ref else None, len(args))
        if f is None:
            raise Unsupported("no body for Element::" + name)
        rt.inlined.add(f.key())
        return rt.run(f, e, [a for a in args if not isinstance(a, sx._Default)])

    def entire(self, rt, e):
        """shared storage is replaced by storage with arbitrary contents"""
        e.dropfields()
        if e.arr is not None and e.arr.owners > 1:
            e.detach()
            e.arr = None
        return self.buf(rt, e, True)

    def m_ObtainWriteEntireData(self, rt, e):
        return ZPtr(rt, self.entire(rt, e))

    def m_ObtainWritePartialData(self, rt, e):
        e.dropfields()
        return ZPtr(rt, self.buf(rt, e, True))

    def m_ObtainReadData(self, rt, e):
        return ZPtr(rt, self.buf(rt, e, False))


def emember(rt, e, nm):
    if nm == "Space":
        return ZPtr(rt, e.arr.extra) if e.arr is not None else None
    if nm == "length":
        return Cell(rt.elemapi.m_Getlength(rt, e))
    if nm == "iscomplex":
        return e.cplx
    if nm == "size":
        return Sizes(e)
    if nm == "ls":
        return S.of(3)
    raise Unsupported("member %s of an element" % nm)


def recast(rt, ty, v):
    if "complex *" in ty and isinstance(v, ZPtr):
        return CPtr(rt, v.buf, v.off)
    if ("double *" in ty or "realdp *" in ty) and isinstance(v, CPtr):
        return ZPtr(rt, v.buf, v.off)
    return v


def setup(rt):
    rt.elemapi = EAPI()
    rt.rawbuf = rt.checkbounds = rt.cong = True
    rt.rawelem = emember

    def newarr(rt_, ty, cnt):
        if ty != "doublecomplex":
            raise Unsupported("new %s[]" % ty)
        return CPtr(rt_, Buf(ZArr(rt_.newname("new")), "new[]", cnt * 2), S.of(0))
    rt.hooks["newarray"] = newarr
    rt.hooks["delete"] = lambda rt_, v: None
    rt.recast = lambda ty, v: recast(rt, ty, v)
    rt.biglimit = 0
    rt.ops = []
    rt.over.update(BLAS)
    return rt


def el(rt, name, r, c=None, cplx=False, num=None, fields=True):
    e = Elem(S.of(r), S.of(1) if c is None else S.of(c), S.of(1) if num is None else S.of(num), cplx)
    e.name = name
    e.arr = Arr(None)
    e.arr.extra = Buf(ZArr(name), name, rt.elemapi.m_Getlength(rt, e))
    if fields:
        e.fields = {"_old": Elem(1, 1, 1)}
    rt.objs.append(Obj("operand", rt, **{name: e}))
    rt.ops.append((name, e, e.arr.extra, (e.r, e.c, e.num, e.cplx)))
    return e


def untouched(rt, but=()):
    for nm, e, b, sh in rt.ops:
        if nm in but:
            continue
        a = b.a
        rt.goal(e.arr is not None and e.arr.extra is b and a.w == () and a.base == nm and a.init is None, nm + " keeps its entries")
        rt.goal(And(eqc(e.r, sh[0]), eqc(e.c, sh[1]), eqc(e.num, sh[2])), nm + " keeps its shape")
        rt.goal(e.cplx is sh[3], nm + " keeps its kind")
        rt.goal("_old" in e.fields, nm + " keeps its attached data")


def raw(rt, e, k):
    """entry of the data as it is now, without bounds obligations"""
    return e.arr.extra.a.read(rt, S.of(k))


def orig(rt, nm, k):
    return ZArr(nm).read(rt, S.of(k))


def shape(rt, e, r, c, cplx, num=1):
    rt.goal(And(eqc(e.r, S.of(r)), eqc(e.c, S.of(c)), eqc(e.num, S.of(num))), "the result has the right shape")
    rt.goal(e.cplx is cplx, "the result is %s" % ("complex" if cplx else "real"))
    rt.goal(e.fields == {} and e.lazyfields is None, "no data attached to other entries comes along")


def freeop(rt, name, sig):
    l = [f for f in rt.prog.fns.get(("", name), []) if ",".join(t.replace("const ", "").replace("ROPTLIB::", "").replace(" ", "") for _, t, _ in f.params) == sig]
    if len(l) != 1:
        raise Unsupported("%s(%s): %d candidates" % (name, sig, len(l)))
    return l[0]


def meth(rt, name, sig):
    l = [f for f in rt.prog.fns.get(("Element", name), []) if ",".join(t.replace("const ", "").replace("ROPTLIB::", "").replace(" ", "") for _, t, _ in f.params) == sig]
    if len(l) != 1:
        raise Unsupported("Element::%s(%s): %d candidates" % (name, sig, len(l)))
    return l[0]


def ne(a, b):
    return Not(eqc(a, b))


def lem(rt, j, b, m, n):
    """j-th and b-th columns of an array with n columns of m entries do not overlap"""
    rt.fact(Imp(lt(j, b), le(j * m + m, b * m)))
    rt.fact(Imp(lt(b, j), le(b * m + m, j * m)))
    rt.fact(Imp(eqc(j, b), eqc(j * m, b * m)))
    rt.fact(Imp(lt(j, n), le(j * m + m, n * m)))
    rt.fact(Imp(le(0, j), le(0, j * m)))


# ------------------------------------------------------------------ BLAS and LAPACK
def num(a):
    a = val_(a)
    if isinstance(a, Ptr):
        a = val_(a.to)
    return a


def scl(a):
    """scalar passed by its address"""
    return a.deref().get() if isinstance(a, (ZPtr, CPtr)) else a


def vec(rt, p, what):
    """identity of an operand of a sum: the array must hold its original entries"""
    if isinstance(p, Cell):
        p = p.get()
    if not isinstance(p, (ZPtr, CPtr)):
        raise Unsupported("%s: operand %r" % (what, p))
    a = p.buf.a
    if a.w != () or a.init is not None:
        raise Unsupported("%s: operand with written entries" % what)
    return a.base, p.off


def span(rt, p, n, inc, what, unit=1):
    """entries off .. off+(n-1)*inc (in units) lie in the buffer"""
    if p.buf.n is not None:
        rt.goal(Imp(lt(0, n), And(le(0, p.off), le(p.off + (n - 1) * inc * unit + unit, p.buf.n))), "%s stays within %s" % (what, p.buf.name))


def isc(p):
    return isinstance(p, CPtr)


def sumof(rt, n, xb, xo, xi, yb, yo, yi, kind):
    """sum over l of x[xo+l*xi] y[yo+l*yi]; kind: "" real, "r"/"i" parts of complex sums, with c/n flags for conjugated operands"""
    return ack(rt, "sum%s:%s:%s" % (kind, xb, yb), n, xo, xi, yo, yi)


def patch(buf, rt, f):
    old = buf.a
    buf.a = ZArr(rt.newname("blas"), (), lambda i: f(i, old))


def axpy(rt, a):
    n, al, x, ix, y, iy = [num(t) for t in a]
    al = scl(al)
    if not (ix.isconst() and ix.cval() == 1 and iy.isconst() and iy.cval() == 1):
        raise Unsupported("axpy with strides")
    if isc(x) != isc(y) or isc(x) != isinstance(al, (Cplx, list)):
        raise Unsupported("axpy of mixed kinds")
    u = 2 if isc(x) else 1
    span(rt, x, n, S.of(1), "axpy", u)
    span(rt, y, n, S.of(1), "axpy", u)
    xa, xo, yo = x.buf.a, x.off, y.off

    def f(i, old):
        o = old.read(rt, i)
        j = i - yo
        inside = And(le(0, j), lt(j, n * u))
        if u == 1:
            v = o + al * xa.read(rt, xo + j)
            return rt.ite(inside, v, o)
        re, im = parts(al)
        p = par(rt, i)
        k = xo + j
        if p == 0:
            v = o + re * xa.read(rt, k) - im * xa.read(rt, k + 1)
        else:
            v = o + re * xa.read(rt, k) + im * xa.read(rt, k - 1)
        return rt.ite(inside, v, o)
    patch(y.buf, rt, f)


def parts(z):
    if isinstance(z, list):
        return S.of(z[0]), S.of(z[1])
    if isinstance(z, S):
        return z, S.of(0)
    return z.re, z.im


def par(rt, i):
    """is the index of a real even or odd? known only for the entries that are followed"""
    for k, p in rt.parity:
        if i.eq(k):
            return p
    raise Unsupported("parity of the index %r" % (i,))


def scal(rt, a):
    n, al, x, ix = [num(t) for t in a]
    al = scl(al)
    xo = x.off
    if isc(x):
        if not (ix.isconst() and ix.cval() == 1):
            raise Unsupported("complex scal with strides")
        span(rt, x, n, S.of(1), "scal", 2)
        re, im = parts(al)

        def f(i, old):
            o = old.read(rt, i)
            inside = And(le(0, i - xo), lt(i - xo, n * 2))
            v = re * o - im * old.read(rt, i + 1) if par(rt, i) == 0 else re * o + im * old.read(rt, i - 1)
            return rt.ite(inside, v, o)
        return patch(x.buf, rt, f)
    span(rt, x, n, ix, "scal")
    if ix.isconst() and ix.cval() == 1:
        def f(i, old):
            o = old.read(rt, i)
            return rt.ite(And(le(0, i - xo), lt(i - xo, n)), al * o, o)
        return patch(x.buf, rt, f)
    if ix.isconst() and ix.cval() == 2:
        rt.goal(Or(eqc(xo, 0), eqc(xo, 1)), "scal: first entry")

        def f(i, old):
            o = old.read(rt, i)
            return rt.ite(And(eqc(xo, par(rt, i)), lt(i, n * 2)), al * o, o)
        return patch(x.buf, rt, f)

    def f(i, old):
        o = old.read(rt, i)
        for k, r, c, m, nn in rt.coord:
            if i.eq(k) and m.eq(ix):
                return rt.ite(And(eqc(xo, r), lt(c, n)), al * o, o)
        raise Unsupported("scal: place of the entry %r" % (i,))
    rt.goal(And(le(0, xo), lt(xo, ix)), "scal: the row exists")
    patch(x.buf, rt, f)


def at(rt, i, m, yo):
    for k, r, c, mm, nn in rt.coord:
        if (i - yo).eq(k) and mm.eq(m):
            return r, c, nn
    raise Unsupported("place of the entry %r in a matrix with %r rows" % (i, m))


def catr(rt, i, m, yo):
    """(row, column, part) of the entry of a complex matrix"""
    for k, r, c, mm, nn in rt.coord:
        for p in (0, 1):
            if (i - yo).eq(k + p) and mm.eq(m):
                return r, c, p
    raise Unsupported("place of the entry %r in a complex matrix with %r rows" % (i, m))


def gemm(rt, a):
    ta, tb, m, n, k, al, A, lda, B, ldb, be, Cc, ldc = [num(t) for t in a]
    ta, tb, al, be = str(ta), str(tb), scl(al), scl(be)
    if ta not in ("N", "T", "C") or tb not in ("N", "T", "C"):
        raise Unsupported("gemm flags")
    cx = isc(A)
    if cx != isc(B) or cx != isc(Cc):
        raise Unsupported("gemm of mixed kinds")
    u = 2 if cx else 1
    ab, ao = vec(rt, A, "gemm")
    bb, bo = vec(rt, B, "gemm")
    rt.goal(eqc(ldc, m), "gemm: the columns of the result are contiguous")
    rt.goal(le(m if ta == "N" else k, lda), "gemm: leading dimension of the first operand")
    rt.goal(le(k if tb == "N" else n, ldb), "gemm: leading dimension of the second operand")
    for p, rows, cols, ld in ((A, m if ta == "N" else k, k if ta == "N" else m, lda), (B, k if tb == "N" else n, n if tb == "N" else k, ldb), (Cc, m, n, ldc)):
        rt.goal(And(eqc(p.off, 0), Imp(le(rows, ld), le(ld * cols * u, p.buf.n))), "gemm stays within %s" % p.buf.name)
    co = Cc.off
    kind = ("c" if cx else "") + ("*" if ta == "C" else "-") + ("*" if tb == "C" else "-")
    if not cx:
        kind = ""

    def f(i, old):
        if cx:
            r, c, p = catr(rt, i, m, co)
        else:
            r, c, nn = at(rt, i, m, co)
        o = old.read(rt, i)
        w = dict(xo=ao + (r if ta == "N" else r * lda) * u, xi=lda if ta == "N" else S.of(1),
                 yo=bo + (c * ldb if tb == "N" else c) * u, yi=S.of(1) if tb == "N" else ldb)
        if not cx:
            v = al * sumof(rt, k, ab, w["xo"], w["xi"], bb, w["yo"], w["yi"], "")
            return rt.ite(lt(c, n), v + (be * o if not be.iszero() else 0), o)
        re, im = [sumof(rt, k, ab, w["xo"], w["xi"], bb, w["yo"], w["yi"], kind + q) for q in "ri"]
        ar, ai = parts(al)
        br, bi = parts(be)
        zero = br.iszero() and bi.iszero()
        if p == 0:
            v = ar * re - ai * im + (0 if zero else br * o - bi * old.read(rt, i + 1))
        else:
            v = ar * im + ai * re + (0 if zero else br * o + bi * old.read(rt, i - 1))
        return rt.ite(lt(c, n), v, o)
    patch(Cc.buf, rt, f)


def dot(rt, a):
    n, x, ix, y, iy = [num(t) for t in a]
    if isc(x) or isc(y):
        raise Unsupported("complex dot")
    xb, xo = vec(rt, x, "dot")
    yb, yo = vec(rt, y, "dot")
    span(rt, x, n, ix, "dot")
    span(rt, y, n, iy, "dot")
    return sumof(rt, n, xb, xo, ix, yb, yo, iy, "")


def ger(rt, a):
    m, n, al, x, ix, y, iy, A, lda = [num(t) for t in a]
    al = scl(al)
    cx = isc(A)
    if cx != isc(x) or cx != isc(y):
        raise Unsupported("ger of mixed kinds")
    u = 2 if cx else 1
    span(rt, x, m, ix, "ger", u)
    span(rt, y, n, iy, "ger", u)
    rt.goal(And(le(m, lda), eqc(A.off, 0), le(lda * n * u, A.buf.n)), "ger stays within %s" % A.buf.name)
    xa, xo, ya, yo, co = x.buf.a, x.off, y.buf.a, y.off, A.off

    def f(i, old):
        o = old.read(rt, i)
        if not cx:
            r, c, _ = at(rt, i, lda, co)
            return rt.ite(And(lt(r, m), lt(c, n)), o + al * xa.read(rt, xo + r * ix) * ya.read(rt, yo + c * iy), o)
        r, c, p = catr(rt, i, lda, co)
        xr, xi, yr, yi = [t.read(rt, k) for t, k in ((xa, xo + r * ix * 2), (xa, xo + r * ix * 2 + 1), (ya, yo + c * iy * 2), (ya, yo + c * iy * 2 + 1))]
        pr, pi = xr * yr - xi * yi, xr * yi + xi * yr
        ar, ai = parts(al)
        v = o + (ar * pr - ai * pi if p == 0 else ar * pi + ai * pr)
        return rt.ite(And(lt(r, m), lt(c, n)), v, o)
    patch(A.buf, rt, f)


def strcmp(rt, a):
    x, y = num(a[0]), num(a[1])
    if not isinstance(x, str) or not isinstance(y, str):
        raise Unsupported("strcmp of unknown strings")
    return S.of(0 if x == y else 1)


BLAS = {"strcmp": strcmp, "axpy_": axpy, "scal_": scal, "gemm_": gemm, "dot_": dot, "ger_": ger}


# ------------------------------------------------------------------ entrywise operations
def follow(rt, L, cplx):
    """the entries that are followed: K (real) or 2h, 2h+1 (complex); L entries in all"""
    h = var("h", isint=True)
    rt.fact(le(0, h))
    rt.fact(lt(h, L))
    rt.h, rt.Ln = h, L
    rt.K = [h * 2, h * 2 + 1] if cplx else [h]
    rt.parity = [(h * 2, 0), (h * 2 + 1, 1)]
    return rt.K


def ewinv(key, tgt, val, cplx, inplace=None, ctr="i", step=True, split=False):
    """key: loop; every entry left of the counter has its value, those to the right the old one"""
    def pos(rt):
        return rt.ghosts["g"] * 2 if cplx and step else rt.L(ctr)

    def conds(rt):
        i = rt.L(ctr)
        t = tgt(rt)
        out = [("counter", And(le(0, i), le(i, rt.Ln * (2 if cplx and step else 1))))]
        if cplx and step:
            out.append(("the counter is even", eqc(i, rt.ghosts["g"] * 2)))
        for q, k in enumerate(rt.K):
            p = i if not (cplx and not step) else i * 2
            out.append(("entry %d" % q, Imp(lt(k, p), eqc(raw(rt, t, k), val(rt, q)))))
            if inplace is not None:
                out.append(("entry %d to come" % q, Imp(le(p, k), eqc(raw(rt, t, k), inplace(rt, q)))))
        return out

    def entry(rt):
        if cplx and step:
            rt.ghosts["g"] = S.of(0)
            rt.ghost_ty = dict(rt.ghost_ty, g="int")

    def ghost(rt):
        if cplx and step:
            rt.ghosts["g"] = rt.ghosts["g"] + 1
    def assume(rt):
        if split:
            rt.decide(eqc(pos(rt), rt.K[0]))
    return {key: Inv(conds, entry=entry, ghost=ghost, assume=assume)}


def res(rt):
    return rt.local("result")


def sgn(op, a, b):
    return {"+": a + b, "-": a - b}[op] if op in "+-" else a * b


def V(rt, nm, q):
    """the q-th part of the followed entry of operand nm"""
    return orig(rt, nm, rt.K[q])


def scalar(cplx, nm="value"):
    return Cplx(var(nm + ".re"), var(nm + ".im")) if cplx else var(nm)


def entrywise(title, name, sig, order, cplx, val, loops=True, pre=None):
    """order: 'es', 'se', 'ee' - element and scalar arguments"""
    key = ("", name, 0)
    sig = sig.replace("realdp", "double")
    cs = "complex" in sig
    value = val
    invs = ewinv(key, res, value, cs, ctr="i", step=cs) if loops else None

    @dvob("C03", title, "elem", invs=invs, timeout=120)
    def ob(rt):
        setup(rt)
        m, n = var("m", isint=True), var("n", isint=True)
        for c in (lt(0, m), lt(0, n)):
            rt.fact(c)
        rt.fact(lt(0, m * n))
        L = m * n
        follow(rt, L * (2 if cplx and not cs else 1), cs)
        s = scalar(cs)
        rt.s = s
        args, k = [], 0
        if pre:
            pre(rt)
        for o in order:
            if o == "e":
                args.append(el(rt, "AB"[k], m, n, cplx))
                k += 1
            else:
                args.append(s)
        f = freeop(rt, name, sig)
        r = rt.run(f, None, args)
        if isinstance(r, Ptr):
            r = r.to
        inpl = "&" in sig
        shape(rt, r, m, n, cplx)
        for q in range(len(rt.K)):
            rt.goal(eqc(raw(rt, r, rt.K[q]), value(rt, q)), "every entry of the result")
        if inpl:
            rt.goal(r is args[0], "the left operand is the result")
            untouched(rt, ("A",))
        else:
            untouched(rt)



def cases():
    c = "doublecomplex"
    ee, es, se = "Element,Element", "Element,realdp", "realdp,Element"
    ces, cse = "Element," + c, c + ",Element"
    for cx in (False, True):
        t = " (complex)" if cx else ""
        for op in "+-":
            def f(rt, q, op=op):
                return sgn(op, V(rt, "A", q), V(rt, "B", q))
            entrywise("A %s B, entry by entry%s" % (op, t), "operator" + op, ee, "ee", cx, f, loops=False)
            entrywise("A %s= B, entry by entry%s" % (op, t), "operator" + op + "=", "Element&,Element", "ee", cx, f, loops=False)
        entrywise("s * A for a real number s" + t, "operator*", se, "se", cx, lambda rt, q: rt.s * V(rt, "A", q))
        entrywise("A * s for a real number s" + t, "operator*", es, "es", cx, lambda rt, q: rt.s * V(rt, "A", q))
        entrywise("A / s for a real number s" + t, "operator/", es, "es", cx, lambda rt, q: V(rt, "A", q) / rt.s)
    for op in "+-":
        entrywise("A %s s for a real number s" % op, "operator" + op, es, "es", False, lambda rt, q, op=op: sgn(op, V(rt, "A", q), rt.s))
        entrywise("s %s A for a real number s" % op, "operator" + op, se, "se", False, lambda rt, q, op=op: sgn(op, rt.s, V(rt, "A", q)))
        entrywise("A %s z for a complex number z" % op, "operator" + op, ces, "es", True,
                  lambda rt, q, op=op: sgn(op, V(rt, "A", q), (rt.s.re, rt.s.im)[q]))
        entrywise("z %s A for a complex number z" % op, "operator" + op, cse, "se", True,
                  lambda rt, q, op=op: sgn(op, (rt.s.re, rt.s.im)[q], V(rt, "A", q)))

    def cmul(rt, q):
        a, b, z = V(rt, "A", 0), V(rt, "A", 1), rt.s
        return z.re * a - z.im * b if q == 0 else z.re * b + z.im * a
    entrywise("z * A for a complex number z", "operator*", cse, "se", True, cmul)
    entrywise("A * z for a complex number z", "operator*", ces, "es", True, cmul)

    def cdiv(rt, q):
        a, b, z = V(rt, "A", 0), V(rt, "A", 1), rt.s
        return (z.re * a + z.im * b if q == 0 else z.re * b - z.im * a) / (z.re * z.re + z.im * z.im)
    entrywise("A / z for a complex number z", "operator/", ces, "es", True, cdiv)
    entrywise("s / A for a real number s", "operator/", se, "se", False, lambda rt, q: rt.s / V(rt, "A", q))

    def icdiv(rt, q):
        a, b, z = V(rt, "A", 0), V(rt, "A", 1), rt.s
        return (z.re * a + z.im * b if q == 0 else z.im * a - z.re * b) / (a * a + b * b)
    entrywise("z / A for a complex number z", "operator/", cse, "se", True, icdiv)
    for op, fo in (("==", eqc), ("<", lt), ("<=", le), (">", lambda a, b: lt(b, a)), (">=", lambda a, b: le(b, a))):
        def g(a, b, fo=fo):
            return lambda rt, q: rt.ite(fo(rt.s if a == "s" else V(rt, a, q), rt.s if b == "s" else V(rt, b, q)), S.of(1), S.of(0))
        entrywise("A %s B is 1 where it holds and 0 elsewhere" % op, "operator" + op, ee, "ee", False, g("A", "B"))
        entrywise("A %s s is 1 where it holds and 0 elsewhere" % op, "operator" + op, es, "es", False, g("A", "s"))
        entrywise("s %s A is 1 where it holds and 0 elsewhere" % op, "operator" + op, se, "se", False, g("s", "A"))


cases()


# ------------------------------------------------------------------ methods that work entry by entry
def larfx(rt, a):
    side, m, n, v, tau, Cc, ldc, work = [num(t) for t in a]
    side = str(side)
    if side not in ("L", "R"):
        raise Unsupported("larfx side")
    cx = isc(Cc)
    u = 2 if cx else 1
    span(rt, v, m if side == "L" else n, S.of(1), "larfx", u)
    rt.goal(And(le(m, ldc), eqc(Cc.off, 0), le(ldc * n * u, Cc.buf.n)), "larfx stays within %s" % Cc.buf.name)
    rt.goal(le((n if side == "L" else m) * u, work.buf.n), "larfx has enough work space")
    vb, vo = vec(rt, v, "larfx")
    cb, co = vec(rt, Cc, "larfx")
    va = v.buf.a

    def f(i, old):
        o = old.read(rt, i)
        if cx:
            r, c, p = catr(rt, i, ldc, co)
        else:
            r, c, _ = at(rt, i, ldc, co)
        if side == "L":
            w = (m, vb, vo, S.of(1), cb, co + c * ldc * u, S.of(1))
        else:
            w = (n, vb, vo, S.of(1), cb, co + r * u, ldc)
        k = r if side == "L" else c
        if not cx:
            return o - tau * va.read(rt, vo + k) * sumof(rt, *w, kind="")
        sr, si = [sumof(rt, *w, kind="c" + ("*-" if side == "L" else "--") + q) for q in "ri"]
        xr, xi = va.read(rt, vo + k * 2), va.read(rt, vo + k * 2 + 1)
        if side == "R":
            xi = -xi
        pr, pi = xr * sr - xi * si, xr * si + xi * sr
        tr, ti = parts(tau)
        return o - (tr * pr - ti * pi if p == 0 else tr * pi + ti * pr)
    patch(Cc.buf, rt, f)


BLAS["larfx_"] = larfx


def dims(rt, *nms):
    out = []
    for nm in nms:
        v = var(nm, isint=True)
        rt.fact(lt(0, v))
        out.append(v)
    for i, a in enumerate(out):
        for b in out[i:]:
            rt.fact(lt(0, a * b))
    return out if len(out) > 1 else out[0]


def unref(r):
    while isinstance(r, (Ptr, Cell, FieldCell)):
        r = r.to if isinstance(r, Ptr) else r.get()
    return r


def method1(title, name, sig, build, val, cplx=False, kind=None, loops=0, invs=None, inpl=None, step=True, rshape=None, pre=None):
    """entrywise method: build(rt, m, n) -> arguments after the element H; val(rt, q): expected entry of the result"""
    iv = dict(invs or {})
    for j in range(loops):
        iv.update(ewinv(("Element", name, j), res, val, cplx, inplace=inpl, step=step))

    @dvob("C03", title, "elem", invs=iv or None, timeout=120)
    def ob(rt):
        setup(rt)
        m, n = dims(rt, "m", "n")
        follow(rt, m * n, cplx)
        h = el(rt, "H", m, n, cplx)
        a = build(rt, m, n)
        if pre:
            pre(rt)
        r = unref(rt.run(meth(rt, name, sig), h, a))
        if kind == "this":
            rt.goal(r is h or name == "Conj", "the element itself is changed")
            r = h
        if rshape:
            rshape(rt, r, m, n)
        else:
            shape(rt, r, m, n, cplx)
        for q, k in enumerate(rt.K):
            rt.goal(eqc(raw(rt, r, k), val(rt, q)), "every entry of the result")
        untouched(rt, ("H",) if kind == "this" else ())


def H(q=None, nm="H"):
    return lambda rt, k: V(rt, nm, k)


def other(rt, m, n, cplx=False):
    return [el(rt, "B", m, n, cplx)]


def others(cplx):
    return lambda rt, m, n: [el(rt, "B", m, n, cplx)]


def sval(cplx, nm="alpha"):
    def f(rt, m, n):
        rt.s = scalar(cplx, nm)
        return [rt.s]
    return f


def svalB(cplx):
    def f(rt, m, n):
        rt.s = scalar(cplx, "alpha")
        return [rt.s, el(rt, "B", m, n, cplx or rt.cxb)]
    return f


def cprod(a, b, q):
    return a[0] * b[0] - a[1] * b[1] if q == 0 else a[0] * b[1] + a[1] * b[0]


def Z(rt, nm):
    return V(rt, nm, 0), V(rt, nm, 1)


def methods1():
    mx = lambda rt, a, b: rt.ite(lt(a, b), b, a)
    mn = lambda rt, a, b: rt.ite(lt(b, a), b, a)
    method1("GetMax(B) takes the larger entry", "GetMax", "Element", others(False), lambda rt, q: mx(rt, V(rt, "B", q), V(rt, "H", q)), loops=1)
    method1("GetMin(B) takes the smaller entry", "GetMin", "Element", others(False), lambda rt, q: mn(rt, V(rt, "B", q), V(rt, "H", q)), loops=1)
    method1("GetMax(s) bounds every entry from below", "GetMax", "double", sval(False), lambda rt, q: mx(rt, rt.s, V(rt, "H", q)), loops=1)
    method1("GetMin(s) bounds every entry from above", "GetMin", "double", sval(False), lambda rt, q: mn(rt, rt.s, V(rt, "H", q)), loops=1)
    method1("GetAbs takes absolute values", "GetAbs", "", lambda rt, m, n: [],
            lambda rt, q: rt.ite(le(0, V(rt, "H", q)), V(rt, "H", q), -V(rt, "H", q)), loops=1)
    method1("GetSqrt takes square roots", "GetSqrt", "", lambda rt, m, n: [], lambda rt, q: ssqrt(V(rt, "H", q)), loops=1,
            pre=lambda rt: rt.fact(le(0, V(rt, "H", 0))))

    def nz(rt):
        rt.fact(ne(V(rt, "B", 0), 0) if len(rt.K) == 1 else lt(0, V(rt, "B", 0) * V(rt, "B", 0) + V(rt, "B", 1) * V(rt, "B", 1)))

    def two(name, val, cval, title):
        iv = {}
        r0 = ewinv(("Element", name, 0), res, val, False, inplace=lambda rt, q: V(rt, rt.src, q))
        r1 = ewinv(("Element", name, 1), res, cval, True, inplace=lambda rt, q: V(rt, rt.src, q), split=True)
        iv.update(r0)
        iv.update(r1)

        def mk(cx):
            def build(rt, m, n):
                rt.src = "B" if name.endswith("Product") else "H"
                return [el(rt, "B", m, n, cx)]
            method1(title + (" (complex)" if cx else ""), name, "Element", build, cval if cx else val, cplx=cx, invs=iv,
                    pre=nz if name.endswith("Division") else None)
        mk(False)
        mk(True)

    def quo(rt, q):
        a, b = Z(rt, "H"), Z(rt, "B")
        return (a[0] * b[0] + a[1] * b[1] if q == 0 else a[1] * b[0] - a[0] * b[1]) / (b[0] * b[0] + b[1] * b[1])
    two("GetHadamardProduct", lambda rt, q: V(rt, "H", q) * V(rt, "B", q), lambda rt, q: cprod(Z(rt, "H"), Z(rt, "B"), q), "GetHadamardProduct multiplies entries")
    two("GetHadamardDivision", lambda rt, q: V(rt, "H", q) / V(rt, "B", q), quo, "GetHadamardDivision divides entries")

    for cx in (False, True):
        t = " (complex)" if cx else ""

        def ax(rt, m, n, cx=cx):
            rt.s = scalar(False, "alpha")
            return [rt.s, el(rt, "B", m, n, cx)]
        method1("AlphaXaddThis adds alpha X for a real alpha" + t, "AlphaXaddThis", "double,Element&", ax,
                lambda rt, q: V(rt, "H", q) + rt.s * V(rt, "B", q), cplx=cx, kind="this")
        method1("ScalarTimesThis scales by a real number" + t, "ScalarTimesThis", "double", sval(False), lambda rt, q: rt.s * V(rt, "H", q), cplx=cx, kind="this")

    def cax(rt, m, n):
        rt.s = scalar(True, "alpha")
        return [rt.s, el(rt, "B", m, n, True)]

    def cs(rt, q, nm):
        return cprod((rt.s.re, rt.s.im), Z(rt, nm), q)
    method1("AlphaXaddThis adds alpha X for a complex alpha", "AlphaXaddThis", "doublecomplex,Element&", cax,
            lambda rt, q: V(rt, "H", q) + cs(rt, q, "B"), cplx=True, kind="this")
    method1("ScalarTimesThis scales by a complex number", "ScalarTimesThis", "doublecomplex", sval(True), lambda rt, q: cs(rt, q, "H"), cplx=True, kind="this")
    for nm in ("GetConj", "Conj"):
        method1(nm + " conjugates every entry", nm, "", lambda rt, m, n: [], lambda rt, q: V(rt, "H", q) if q == 0 else -V(rt, "H", q), cplx=True,
                kind="this" if nm == "Conj" else None)

    @dvob("C03", "an element plus a multiple of its own copy", "elem", timeout=120)
    def selfcopy(rt):
        setup(rt)
        m, n = dims(rt, "m", "n")
        follow(rt, m * n, False)
        h = el(rt, "H", m, n)
        b = h.copy()
        s = var("alpha")
        rt.run(meth(rt, "AlphaXaddThis", "double,Element&"), h, [s, b])
        rt.goal(eqc(raw(rt, h, rt.h), orig(rt, "H", rt.h) * (s + 1)), "every entry of the result")
        rt.goal(eqc(raw(rt, b, rt.h), orig(rt, "H", rt.h)), "the copy keeps its entries")

    # real <-> complex
    def zinv(name, val, n0, tgtcplx):
        def conds(rt):
            i = rt.L("i")
            t = res(rt)
            out = [("counter", And(le(0, i), le(i, rt.Ln)))]
            ks = [rt.h * 2, rt.h * 2 + 1] if tgtcplx else [rt.h]
            for q, k in enumerate(ks):
                out.append(("entry", Imp(lt(rt.h, i), eqc(raw(rt, t, k), val(rt, q)))))
                if tgtcplx:
                    out.append(("entry to come", Imp(le(i, rt.h), eqc(raw(rt, t, k), 0))))
            return out
        return {("Element", name, 0): Inv(conds)}

    def conv(name, title, tocx, part):
        def val(rt, q):
            if tocx:
                return orig(rt, "H", rt.h) if q == 0 else S.of(0)
            return orig(rt, "H", rt.h * 2 + part)

        @dvob("C03", title, "elem", invs=zinv(name, val, 0, tocx), timeout=120)
        def ob(rt):
            setup(rt)
            m, n = dims(rt, "m", "n")
            follow(rt, m * n, False)
            h = el(rt, "H", m, n, not tocx)
            r = unref(rt.run(meth(rt, name, ""), h, []))
            shape(rt, r, m, n, tocx)
            for q, k in enumerate([rt.h * 2, rt.h * 2 + 1] if tocx else [rt.h]):
                rt.goal(eqc(raw(rt, r, k), val(rt, q)), "every entry of the result")
            untouched(rt)
    conv("GetRealToComplex", "GetRealToComplex has real parts H and imaginary parts zero", True, 0)
    conv("GetRealInComplex", "GetRealInComplex takes the real parts", False, 0)
    conv("GetImagInComplex", "GetImagInComplex takes the imaginary parts", False, 1)

    for cx in (False, True):
        t = " (complex)" if cx else ""

        @dvob("C03", "DotProduct is the sum of products of the data" + t, "elem", timeout=60)
        def dp(rt, cx=cx):
            setup(rt)
            m, n = dims(rt, "m", "n")
            h, b = el(rt, "H", m, n, cx), el(rt, "B", m, n, cx)
            r = rt.run(meth(rt, "DotProduct", "Element&"), h, [b])
            rt.goal(eqc(r, sumof(rt, m * n * (2 if cx else 1), "H", S.of(0), S.of(1), "B", S.of(0), S.of(1), "")), "the sum over all entries")
            untouched(rt)

        @dvob("C03", "Fnorm is the root of the sum of squares of the data" + t, "elem", timeout=60)
        def fnorm(rt, cx=cx):
            setup(rt)
            m, n = dims(rt, "m", "n")
            h = el(rt, "H", m, n, cx)
            r = rt.run(meth(rt, "Fnorm", ""), h, [])
            rt.goal(eqc(r, ssqrt(sumof(rt, m * n * (2 if cx else 1), "H", S.of(0), S.of(1), "H", S.of(0), S.of(1), ""))), "root of the sum over all entries")
            untouched(rt)

        for name, sig in (("GetColNormsSquare", ""), ("GetColDotProducts", "Element")):
            def val(rt, name=name, cx=cx):
                o = rt.mm * rt.h * (2 if cx else 1)
                return sumof(rt, rt.mm * (2 if cx else 1), "H", o, S.of(1), "H" if name == "GetColNormsSquare" else "B", o, S.of(1), "")

            def conds(rt, val=val):
                i = rt.L("i")
                lem(rt, i, rt.h, rt.mm, rt.Ln)
                return [("counter", And(le(0, i), le(i, rt.Ln))), ("column", Imp(lt(rt.h, i), eqc(raw(rt, res(rt), rt.h), val(rt))))]

            @dvob("C03", name + ": one number per column" + t, "elem", invs={("Element", name, 0): Inv(conds)}, timeout=60)
            def col(rt, name=name, cx=cx, sig=sig, val=val):
                setup(rt)
                m, n = dims(rt, "m", "n")
                rt.mm = m
                follow(rt, n, False)
                h = el(rt, "H", m, n, cx)
                r = unref(rt.run(meth(rt, name, sig), h, [el(rt, "B", m, n, cx)] if sig else []))
                shape(rt, r, 1, n, False)
                rt.goal(eqc(raw(rt, r, rt.h), val(rt)), "the sum over the column")
                untouched(rt)


methods1()


# ------------------------------------------------------------------ matrices: rows and columns
def inv2(name, base, outer, inner, tgt, val, ob, ia, orng, irng, old=None, hit=None, more=None):
    """two nested loops (ordinals base, base+1) with counters outer, inner: the followed entry is written in iteration (ob, ia)"""
    def keys(rt):
        return list(enumerate(rt.K))

    def conds(rt, done):
        t = tgt(rt)
        h = hit(rt) if hit else True
        out = []
        for q, k in keys(rt):
            out.append(("entry %d" % q, Imp(And(h, done), eqc(raw(rt, t, k), val(rt, q)))))
            if old is not None:
                out.append(("entry %d to come" % q, Imp(Not(And(h, done)), eqc(raw(rt, t, k), old(rt, q)))))
        return out

    def c0(rt):
        i = rt.L(outer)
        lo, hi = orng(rt)
        more(rt, i, None)
        return [("outer", And(le(lo, i), le(i, hi)))] + conds(rt, lt(ob(rt), i))

    def c1(rt):
        i, j = rt.L(outer), rt.L(inner)
        lo, hi = irng(rt)
        l0, h0 = orng(rt)
        more(rt, i, j)
        return [("inner", And(le(lo, j), le(j, hi))), ("outer", And(le(l0, i), lt(i, h0)))] + \
            conds(rt, Or(lt(ob(rt), i), And(eqc(ob(rt), i), lt(ia(rt), j))))
    return {("Element", name, base): Inv(c0), ("Element", name, base + 1): Inv(c1)}


def place(rt, r, c, cplx=False, unit=None):
    """the followed entry (a,b) of a matrix with r rows and c columns"""
    a, b = var("a", isint=True), var("b", isint=True)
    for x in (le(0, a), lt(a, r), le(0, b), lt(b, c)):
        rt.fact(x)
    rt.a, rt.b = a, b
    lem(rt, b, b, r, c)
    k = a + b * r
    rt.K = [k * 2, k * 2 + 1] if cplx else [k]
    rt.parity = [(k * 2, 0), (k * 2 + 1, 1)]
    rt.coord = [(k * 2 if cplx else k, a, b, S.of(r), S.of(c))]
    return rt.K


def E(rt, nm, r, c, rows, q=0, cplx=False):
    """original entry (r,c) of operand nm"""
    k = r + c * rows
    return orig(rt, nm, k * 2 + q if cplx else k)


def mats():
    # ---- transpose
    def tval(rt, q):
        if rt.cx:
            v = E(rt, "H", rt.b, rt.a, rt.m, q, True)
            return v if q == 0 else -v
        return E(rt, "H", rt.b, rt.a, rt.m)

    def tmore(rt, i, j):
        n, m = rt.n, rt.m
        lem(rt, i, rt.b, n, m) if not rt.cx else lem(rt, i, rt.a, m, n)
        if j is not None:
            lem(rt, j, rt.a, m, n) if not rt.cx else lem(rt, j, rt.b, n, m)

    iv = {}
    iv.update(inv2("GetTranspose", 0, "i", "j", res, tval, lambda rt: rt.b, lambda rt: rt.a, lambda rt: (S.of(0), rt.m), lambda rt: (S.of(0), rt.n), more=tmore))
    iv.update(inv2("GetTranspose", 2, "i", "j", res, tval, lambda rt: rt.a, lambda rt: rt.b, lambda rt: (S.of(0), rt.n), lambda rt: (S.of(0), rt.m), more=tmore))
    for cx in (False, True):
        @dvob("C03", "GetTranspose: entry (i,j) is entry (j,i)" + (", conjugated" if cx else ""), "elem", invs=iv, timeout=120)
        def tr(rt, cx=cx):
            setup(rt)
            m, n = rt.m, rt.n = dims(rt, "m", "n")
            rt.cx = cx
            place(rt, n, m, cx)
            h = el(rt, "H", m, n, cx)
            r = unref(rt.run(meth(rt, "GetTranspose", ""), h, []))
            shape(rt, r, n, m, cx)
            for q, k in enumerate(rt.K):
                rt.goal(eqc(raw(rt, r, k), tval(rt, q)), "every entry of the transpose")
            untouched(rt)

    # ---- blocks
    def blockdims(rt):
        m, n = rt.m, rt.n = dims(rt, "m", "n")
        rs, re, cs, ce = [var(v, isint=True) for v in ("rs", "re", "cs", "ce")]
        rt.blk = rs, re, cs, ce
        for x in (le(0, rs), le(rs, re), lt(re, m), le(0, cs), le(cs, ce), lt(ce, n)):
            rt.fact(x)
        rt.p, rt.q = re - rs + 1, ce - cs + 1
        rt.fact(lt(0, rt.p * rt.q))

    def sval(rt, q):
        rs, re, cs, ce = rt.blk
        return E(rt, "H", rs + rt.a, cs + rt.b, rt.m, q, rt.cx)

    def smore(rt, i, j):
        rs, re, cs, ce = rt.blk
        lem(rt, i, cs + rt.b, rt.m, rt.n)
        lem(rt, i - cs, rt.b, rt.p, rt.q)

    def jr(rt):
        return rt.blk[2], rt.blk[3] + 1

    def ir(rt):
        return rt.blk[0], rt.blk[1] + 1
    iv = {}
    for base in (0, 2):
        iv.update(inv2("GetSubmatrix", base, "j", "i", res, sval, lambda rt: rt.blk[2] + rt.b, lambda rt: rt.blk[0] + rt.a, jr, ir, more=smore))
    for cx in (False, True):
        @dvob("C03", "GetSubmatrix: entry (i,j) is entry (rstart+i, cstart+j)" + (" (complex)" if cx else ""), "elem", invs=iv, timeout=120)
        def sub(rt, cx=cx):
            setup(rt)
            blockdims(rt)
            rt.cx = cx
            place(rt, rt.p, rt.q, cx)
            h = el(rt, "H", rt.m, rt.n, cx)
            r = unref(rt.run(meth(rt, "GetSubmatrix", "integer,integer,integer,integer"), h, list(rt.blk)))
            shape(rt, r, rt.p, rt.q, cx)
            for q, k in enumerate(rt.K):
                rt.goal(eqc(raw(rt, r, k), sval(rt, q)), "every entry of the block")
            untouched(rt)

    def aval(rt, q):
        rs, re, cs, ce = rt.blk
        return E(rt, "B", rt.a - rs, rt.b - cs, rt.p, q, rt.cx)

    def ahit(rt):
        rs, re, cs, ce = rt.blk
        return And(le(rs, rt.a), le(rt.a, re), le(cs, rt.b), le(rt.b, ce))

    def amore(rt, i, j):
        rs, re, cs, ce = rt.blk
        lem(rt, i, rt.b, rt.m, rt.n)
        lem(rt, i - cs, rt.b - cs, rt.p, rt.q)
    iv = {}
    for base in (0, 2):
        iv.update(inv2("SubmatrixAssignment", base, "j", "i", lambda rt: rt.self_, aval, lambda rt: rt.b, lambda rt: rt.a, jr, ir,
                       old=lambda rt, q: V(rt, "H", q), hit=ahit, more=amore))
    for cx in (False, True):
        @dvob("C03", "SubmatrixAssignment sets the block and nothing else" + (" (complex)" if cx else ""), "elem", invs=iv, timeout=120)
        def asg(rt, cx=cx):
            setup(rt)
            blockdims(rt)
            rt.cx = cx
            place(rt, rt.m, rt.n, cx)
            h = rt.self_ = el(rt, "H", rt.m, rt.n, cx)
            b = el(rt, "B", rt.p, rt.q, cx)
            rt.run(meth(rt, "SubmatrixAssignment", "integer,integer,integer,integer,Element&"), h, list(rt.blk) + [b])
            shape(rt, h, rt.m, rt.n, cx)
            for q, k in enumerate(rt.K):
                rt.goal(Imp(ahit(rt), eqc(raw(rt, h, k), aval(rt, q))), "entries of the block")
                rt.goal(Imp(Not(ahit(rt)), eqc(raw(rt, h, k), V(rt, "H", q))), "entries outside of the block")
            untouched(rt, ("H",))

    # ---- identity
    def idinv(name, base, cx):
        def conds(rt):
            i = rt.L("i")
            lem(rt, i, rt.b, rt.m, rt.n)
            d = And(eqc(rt.a, rt.b), lt(rt.a, i))
            out = [("counter", And(le(0, i), le(i, rt.mn)))]
            for q, k in enumerate(rt.K):
                out.append(("entry", eqc(raw(rt, rt.self_, k), rt.ite(d, S.of(1) if q == 0 else S.of(0), S.of(0)))))
            return out
        return {("Element", name, base): Inv(conds)}
    iv = idinv("SetToIdentity", 0, False)
    iv.update(idinv("SetToIdentity", 1, True))
    for cx in (False, True):
        @dvob("C03", "SetToIdentity" + (" (complex)" if cx else ""), "elem", invs=iv, timeout=120)
        def ident(rt, cx=cx):
            setup(rt)
            m, n = rt.m, rt.n = dims(rt, "m", "n")
            rt.mn = rt.ite(lt(m, n), m, n, True)
            place(rt, m, n, cx)
            h = rt.self_ = el(rt, "H", m, n, cx)
            rt.run(meth(rt, "SetToIdentity", ""), h, [])
            shape(rt, h, m, n, cx)
            for q, k in enumerate(rt.K):
                rt.goal(eqc(raw(rt, h, k), rt.ite(eqc(rt.a, rt.b), S.of(1) if q == 0 else S.of(0), S.of(0))), "every entry of the identity")

    def sidinv():
        def conds0(rt):
            i = rt.L("i")
            lem(rt, i, rt.b, rt.m, rt.m)
            out = [("counter", And(le(0, i), le(i, rt.m)))]
            for q, k in enumerate(rt.K):
                out.append(("entry", Imp(And(eqc(rt.a, rt.b), lt(rt.a, i)), eqc(raw(rt, rt.self_, k), rt.sc if q == 0 else S.of(0)))))
                out.append(("others", Imp(Not(And(eqc(rt.a, rt.b), lt(rt.a, i))), eqc(raw(rt, rt.self_, k), 0))))
            return out

        def done(rt, i, j=None):
            k = raw(rt, rt.self_, rt.K[0])
            a, b = rt.a, rt.b
            lem(rt, i, b, rt.m, rt.m)
            lo = rt.ite(lt(a, b), a, b, True)
            hi = rt.ite(lt(a, b), b, a, True)
            out = [("entries of finished rows", Imp(lt(lo, i), eqc(k, rt.ite(eqc(a, b), rt.sc, S.of(0)))))]
            if j is not None:
                lem(rt, j, b, rt.m, rt.m)
                out.append(("diagonal entry", Imp(And(eqc(a, b), eqc(a, i)), eqc(k, rt.sc))))
                out.append(("row so far", Imp(And(eqc(lo, i), lt(i, hi), lt(hi, j)), eqc(k, 0))))
            return out

        def conds1(rt):
            i = rt.L("i")
            return [("counter", And(le(0, i), le(i, rt.m)))] + done(rt, i)

        def conds2(rt):
            i, j = rt.L("i"), rt.L("j")
            return [("counter", And(le(0, i), lt(i, rt.m))), ("inner", And(lt(i, j), le(j, rt.m)))] + done(rt, i, j)
        return {("Element", "ScaledIdOPE", 0): Inv(conds0), ("Element", "ScaledIdOPE", 1): Inv(conds1), ("Element", "ScaledIdOPE", 2): Inv(conds2)}
    iv = sidinv()
    for cx in (False, True):
        @dvob("C03", "ScaledIdOPE is a multiple of the identity" + (" (complex)" if cx else ""), "elem", invs=iv, timeout=120)
        def sid(rt, cx=cx):
            setup(rt)
            m = rt.m = rt.n = dims(rt, "m")
            rt.sc = var("s")
            place(rt, m, m, cx)
            h = rt.self_ = el(rt, "H", m, m, cx)
            rt.run(meth(rt, "ScaledIdOPE", "double"), h, [rt.sc])
            shape(rt, h, m, m, cx)
            for q, k in enumerate(rt.K):
                rt.goal(eqc(raw(rt, h, k), rt.ite(eqc(rt.a, rt.b), rt.sc if q == 0 else S.of(0), S.of(0))), "every entry")

    # ---- diagonal scalings
    def dval(rt, q):
        k = rt.a if rt.side == "L" else rt.b
        if not rt.cx:
            return orig(rt, "H", k) * V(rt, "B", q)
        return cprod((orig(rt, "H", k * 2), orig(rt, "H", k * 2 + 1)), Z(rt, "B"), q)

    def d1(tgt):
        def mk(side):
            def conds(rt):
                i = rt.L("i")
                hi, k = (rt.m, rt.a) if side == "L" else (rt.n, rt.b)
                lem(rt, i, rt.b, rt.m, rt.n)
                t = tgt(rt)
                return [("counter", And(le(0, i), le(i, hi))), ("entry", Imp(lt(k, i), eqc(raw(rt, t, rt.K[0]), dval(rt, 0)))),
                        ("entry to come", Imp(le(i, k), eqc(raw(rt, t, rt.K[0]), V(rt, "B", 0))))]
            return Inv(conds)
        return mk

    def dmore(rt, i, j):
        # loops over rows and columns: the column is j
        lem(rt, rt.colctr(rt), rt.b, rt.m, rt.n)

    for name, tgt in (("GetDiagTimesM", res), ("DiagTimesM", lambda rt: rt.tgt)):
        iv = {("Element", name, 0): d1(tgt)("L"), ("Element", name, 3): d1(tgt)("R")}
        old = lambda rt, q: V(rt, "B", q)

        def more(rt, i, j):
            if rt.side == "R":
                lem(rt, i, rt.b, rt.m, rt.n)
            elif j is not None:
                lem(rt, j, rt.b, rt.m, rt.n)
        iv.update(inv2(name, 1, "i", "j", tgt, dval, lambda rt: rt.a, lambda rt: rt.b, lambda rt: (S.of(0), rt.m), lambda rt: (S.of(0), rt.n), old=old, more=more))
        iv.update(inv2(name, 4, "j", "i", tgt, dval, lambda rt: rt.b, lambda rt: rt.a, lambda rt: (S.of(0), rt.n), lambda rt: (S.of(0), rt.m), old=old, more=more))
        for cx in (False, True):
            for side in "LR":
                @dvob("C03", "%s from the %s%s" % (name, {"L": "left", "R": "right"}[side], " (complex)" if cx else ""), "elem", invs=iv, timeout=120)
                def dia(rt, cx=cx, side=side, name=name):
                    setup(rt)
                    m, n = rt.m, rt.n = dims(rt, "m", "n")
                    rt.side, rt.cx = side, cx
                    place(rt, m, n, cx)
                    h = el(rt, "H", m if side == "L" else n, 1, cx)
                    b = rt.tgt = el(rt, "B", m, n, cx)
                    r = unref(rt.run(meth(rt, name, "Element,char*" if name[0] == "G" else "Element&,char*"), h, [b, side]))
                    shape(rt, r, m, n, cx)
                    if name[0] == "D":
                        rt.goal(r is b, "the matrix itself is changed")
                    for q, k in enumerate(rt.K):
                        rt.goal(eqc(raw(rt, r, k), dval(rt, q)), "every entry of the product")
                    untouched(rt, () if name[0] == "G" else ("B",))


mats()


# ------------------------------------------------------------------ products
def products():
    def entry_of_product(rt, cx, ta, tb, k, row, col, q=None):
        """sum over l of op(A)(a,l) op(B)(l,b)"""
        u = 2 if cx else 1
        rowA = row if ta == "N" else k
        rowB = k if tb == "N" else col
        w = (k, "A", (rt.a if ta == "N" else rt.a * rowA) * u, rowA if ta == "N" else S.of(1),
             "B", (rt.b * rowB if tb == "N" else rt.b) * u, S.of(1) if tb == "N" else rowB)
        if not cx:
            return sumof(rt, *w, kind="")
        kind = "c" + ("*" if ta == "C" else "-") + ("*" if tb == "C" else "-")
        return sumof(rt, *w, kind=kind + "ri"[q])

    for cx in (False, True):
        @dvob("C03", "A * B is the matrix product" + (" (complex)" if cx else ""), "elem", timeout=60)
        def mul(rt, cx=cx):
            setup(rt)
            m, k, n = dims(rt, "m", "k", "n")
            rt.m, rt.n = m, n
            place(rt, m, n, cx)
            A, B = el(rt, "A", m, k, cx), el(rt, "B", k, n, cx)
            r = unref(rt.run(freeop(rt, "operator*", "Element,Element"), None, [A, B]))
            shape(rt, r, m, n, cx)
            for q, kk in enumerate(rt.K):
                rt.goal(eqc(raw(rt, r, kk), entry_of_product(rt, cx, "N", "N", k, m, n, q)), "every entry of the product")
            untouched(rt)

    for kind in ("real", "real scalars, complex matrices", "complex"):
        cx = kind != "real"
        for ta in ("NTC" if cx else "NT"):
            for tb in ("NTC" if cx else "NT"):
                @dvob("C03", "AlphaABaddBetaThis (%s, %s%s)" % (kind, ta, tb), "elem", timeout=60)
                def abb(rt, kind=kind, cx=cx, ta=ta, tb=tb):
                    setup(rt)
                    m, k, n = dims(rt, "m", "k", "n")
                    place(rt, m, n, cx)
                    A = el(rt, "A", *((m, k) if ta == "N" else (k, m)), cplx=cx)
                    B = el(rt, "B", *((k, n) if tb == "N" else (n, k)), cplx=cx)
                    h = el(rt, "H", m, n, cx)
                    sc = kind == "complex"
                    al, be = scalar(sc, "alpha"), scalar(sc, "beta")
                    t = "doublecomplex" if sc else "double"
                    rt.run(meth(rt, "AlphaABaddBetaThis", "%s,Element&,char*,Element&,char*,%s" % (t, t)), h, [al, A, ta, B, tb, be])
                    shape(rt, h, m, n, cx)
                    a2, b2 = parts(al), parts(be)
                    if not cx:
                        rt.goal(eqc(raw(rt, h, rt.K[0]), al * entry_of_product(rt, cx, ta, tb, k, m, n) + be * V(rt, "H", 0)), "every entry of alpha A B + beta H")
                    else:
                        s = [entry_of_product(rt, cx, ta, tb, k, m, n, q) for q in (0, 1)]
                        for q, kk in enumerate(rt.K):
                            rt.goal(eqc(raw(rt, h, kk), cprod(a2, s, q) + cprod(b2, Z(rt, "H"), q)), "every entry of alpha A B + beta H")
                    untouched(rt, ("H",))

    @dvob("C03", "AlphaABaddBetaThis with operands that are copies of the result", "elem", timeout=60)
    def abcopy(rt):
        setup(rt)
        m = dims(rt, "m")
        place(rt, m, m)
        h = el(rt, "H", m, m)
        A, B = h.copy(), h.copy()
        al, be = var("alpha"), var("beta")
        rt.run(meth(rt, "AlphaABaddBetaThis", "double,Element&,char*,Element&,char*,double"), h, [al, A, "N", B, "T", be])
        rt.goal(eqc(raw(rt, h, rt.K[0]), al * sumof(rt, m, "H", rt.a, m, "H", rt.b, m, "") + be * V(rt, "H", 0)), "alpha H H' + beta H")
        rt.goal(And(*[eqc(raw(rt, e, rt.K[0]), V(rt, "H", 0)) for e in (A, B)]), "the copies keep their entries")

    # ---- rank-one updates
    for cs in (False, True):
        for name in ("HaddRankone", "GetHaddRankone"):
            t = "doublecomplex" if cs else "double"

            @dvob("C03", "%s: H + s u v%s" % (name, "^T (complex)" if cs else "'"), "elem", timeout=60)
            def r1(rt, cs=cs, name=name, t=t):
                setup(rt)
                m, n = dims(rt, "m", "n")
                place(rt, m, n, cs)
                h = el(rt, "H", m, n, cs)
                u, v = el(rt, "u", m, 1, cs), el(rt, "v", n, 1, cs)
                s = scalar(cs, "s")
                r = unref(rt.run(meth(rt, name, t + (",Element&,Element&" if name[0] == "H" else ",Element,Element")), h, [s, u, v]))
                if name[0] == "H":
                    rt.goal(r is h, "the element itself is changed")
                shape(rt, r, m, n, cs)
                if not cs:
                    rt.goal(eqc(raw(rt, r, rt.K[0]), V(rt, "H", 0) + s * orig(rt, "u", rt.a) * orig(rt, "v", rt.b)), "every entry")
                else:
                    x, y = [(orig(rt, nm, k * 2), orig(rt, nm, k * 2 + 1)) for nm, k in (("u", rt.a), ("v", rt.b))]
                    xy = [cprod(x, y, q) for q in (0, 1)]
                    for q, k in enumerate(rt.K):
                        rt.goal(eqc(raw(rt, r, k), V(rt, "H", q) + cprod(parts(s), xy, q)), "every entry")
                untouched(rt, ("H",) if name[0] == "H" else ())

        for side in "LR":
            @dvob("C03", "GetHtimesRankone: reflection from the %s%s" % ({"L": "left", "R": "right"}[side], " (complex)" if cs else ""), "elem", timeout=60)
            def hr(rt, cs=cs, side=side):
                setup(rt)
                m, n = dims(rt, "m", "n")
                place(rt, m, n, cs)
                u = 2 if cs else 1
                h = el(rt, "H", m, n, cs)
                v = el(rt, "v", m if side == "L" else n, 1, cs)
                s = scalar(cs, "s")
                r = unref(rt.run(meth(rt, "GetHtimesRankone", ("doublecomplex" if cs else "double") + ",Element,char*"), h, [s, v, side]))
                shape(rt, r, m, n, cs)
                w = (m if side == "L" else n, "v", S.of(0), S.of(1), "H", (rt.b * m if side == "L" else rt.a) * u, S.of(1) if side == "L" else m)
                k = rt.a if side == "L" else rt.b
                if not cs:
                    rt.goal(eqc(raw(rt, r, rt.K[0]), V(rt, "H", 0) - s * orig(rt, "v", k) * sumof(rt, *w, kind="")), "every entry of (I - s v v') H" if side == "L" else "every entry of H (I - s v v')")
                else:
                    sm = [sumof(rt, *w, kind="c" + ("*-" if side == "L" else "--") + q) for q in "ri"]
                    x = orig(rt, "v", k * 2), orig(rt, "v", k * 2 + 1)
                    if side == "R":
                        x = x[0], -x[1]
                    p = [cprod(x, sm, q) for q in (0, 1)]
                    for q, kk in enumerate(rt.K):
                        rt.goal(eqc(raw(rt, r, kk), V(rt, "H", q) - cprod(parts(s), p, q)), "every entry of (I - s v v^H) H" if side == "L" else "every entry of H (I - s v v^H)")
                untouched(rt)

    # ---- shapes
    for cx in (False, True):
        t = " (complex)" if cx else ""

        @dvob("C03", "Reshape keeps the entries and changes the shape" + t, "elem", timeout=60)
        def rs(rt, cx=cx):
            setup(rt)
            r, c, n = dims(rt, "r", "c", "n")
            follow(rt, r * c * n, cx)
            h = el(rt, "H", c * n, r, cx)
            # Reshape is only defined when the number of entries agrees: c n r = r c n
            same = rt.decide(And(eqc(c * n, r), eqc(r, c), eqc(n, 1)))
            q = unref(rt.run(meth(rt, "Reshape", "integer,integer,integer"), h, [r, c, n]))
            rt.goal(q is h, "the element itself")
            rt.goal(And(eqc(h.r, r), eqc(h.c, c), eqc(h.num, n)), "the shape asked for")
            for k in rt.K:
                rt.goal(eqc(raw(rt, h, k), orig(rt, "H", k)), "the entries stay")
            if not same:
                rt.goal(h.fields == {}, "data attached to the previous shape is gone")

        @dvob("C03", "GetReshape is a reshaped copy" + t, "elem", timeout=60)
        def grs(rt, cx=cx):
            setup(rt)
            r, c, n = dims(rt, "r", "c", "n")
            follow(rt, r * c * n, cx)
            h = el(rt, "H", c * n, r, cx)
            q = unref(rt.run(meth(rt, "GetReshape", "integer,integer,integer"), h, [r, c, n]))
            rt.goal(q is not h and And(eqc(q.r, r), eqc(q.c, c), eqc(q.num, n)), "the shape asked for")
            for k in rt.K:
                rt.goal(eqc(raw(rt, q, k), orig(rt, "H", k)), "the entries stay")
            untouched(rt)

        @dvob("C03", "Transpose in place" + t, "elem", timeout=60)
        def tip(rt, cx=cx):
            setup(rt)
            m, n = dims(rt, "m", "n")
            place(rt, n, m, cx)
            h = el(rt, "H", m, n, cx)

            def gt(rt_, e):
                # contract of GetTranspose (proved above)
                x = Elem(e.c, e.r, 1, e.cplx)
                x.arr = Arr(None)
                base, rows = e.arr.extra.a, e.r

                def init(i):
                    for k, a, b, rr, cc in rt.coord:
                        for p in (0, 1):
                            if i.eq(k + p):
                                v = base.read(rt, ((b + a * rows) * 2 if cx else b + a * rows) + p)
                                return v if p == 0 else -v
                    raise Unsupported("entry of the transpose")
                x.arr.extra = Buf(ZArr(rt.newname("transpose"), (), init), "transpose", rt.elemapi.m_Getlength(rt, x))
                return x
            rt.econ = {"GetTranspose": gt}
            r = unref(rt.run(meth(rt, "Transpose", ""), h, []))
            shape(rt, h, n, m, cx)
            for e in (h, r):
                for q, k in enumerate(rt.K):
                    v = E(rt, "H", rt.b, rt.a, m, q, cx)
                    rt.goal(eqc(raw(rt, e, k), v if q == 0 else -v), "every entry of the transpose")


products()


# ------------------------------------------------------------------ LAPACK by name
def setp(rt, p, v):
    """result through a pointer argument"""
    if isinstance(p, Ptr):
        p = p.to
    if isinstance(p, (ZPtr, CPtr)):
        p = p.deref()
    p.set(v)


def anyint(rt, p):
    setp(rt, p, var(rt.newname("info"), isint=True))


def base(rt, p, what):
    """what an array holds: its name when nothing was written into it, else the array it is checked to be equal to"""
    a = p.buf.a
    src = getattr(rt, "same", {}).get(what)
    if a.w == () and a.init is None and not (src is not None and "~" in a.base):
        return a.base
    if src is None:
        raise Unsupported("%s: contents of an operand" % what)
    nm, ks, cond = src
    for k in ks:
        rt.goal(Imp(cond, eqc(a.read(rt, k), orig(rt, nm, k))), "%s gets the entries of %s" % (what, nm))
    return nm


def fits(rt, p, rows, cols, ld, what):
    u = 2 if isc(p) else 1
    rt.goal(And(eqc(p.off, 0), eqc(ld, rows), le(ld * cols * u, p.buf.n)), "%s: dimensions and leading dimension of %s" % (what, p.buf.name))


def holds(p, *parts):
    p.buf.a = ZArr("%s(%s)" % (parts[0], ",".join(str(x) for x in parts[1:])))


def query(rt, what, key, work, lwork):
    """workspace query (lwork = -1) or a call with the size asked for; True when it is the query"""
    lw = num(lwork)
    q = rt.__dict__.setdefault("queries", {})
    if lw.isconst() and lw.cval() == -1:
        w = var(rt.newname("lwork"), isint=True)
        rt.fact(lt(0, w))
        setp(rt, work, Cplx(w, S.of(0)) if isinstance(val_(work.to if isinstance(work, Ptr) else work), Cplx) else w)
        q[what] = (key, w)
        return True
    rt.goal(what in q and q[what][0] == key, what + ": workspace size asked for with the same arguments")
    work = val_(work)
    rt.goal(And(le(q[what][1], lw), le(lw * (2 if isc(work) else 1), work.buf.n)), what + ": workspace is as large as asked for")
    return False


def S_(*a):
    return tuple(str(num(x)) for x in a)


def getrf(rt, a):
    m, n, A, lda, P, info = [num(t) for t in a[:5]] + [a[5]]
    fits(rt, A, m, n, lda, "getrf")
    rt.goal(And(eqc(P.off, 0), le(m, P.buf.n)), "getrf: space for the permutation")
    b = base(rt, A, "getrf")
    holds(A, "getrf", b, m, n)
    holds(P, "ipiv", b, m, n)
    anyint(rt, info)


def getrs(rt, a):
    tr, n, nrhs, LU, ldlu, P, B, ldb, info = [num(t) for t in a[:8]] + [a[8]]
    fits(rt, LU, n, n, ldlu, "getrs")
    fits(rt, B, n, nrhs, ldb, "getrs")
    rt.goal(isc(LU) == isc(B) and And(eqc(P.off, 0), le(n, P.buf.n)), "getrs: operands")
    holds(B, "getrs", tr, base(rt, LU, "getrs"), base(rt, P, "getrs"), base(rt, B, "getrs"), n, nrhs)
    anyint(rt, info)


def potrf(rt, a):
    up, n, A, lda, info = [num(t) for t in a[:4]] + [a[4]]
    fits(rt, A, n, n, lda, "potrf")
    b = base(rt, A, "potrf")
    if str(up) != "L":
        raise Unsupported("potrf of the upper triangle")
    old, nm = A.buf.a, "potrf(%s,%s)" % (b, n)
    A.buf.a = ZArr(rt.newname("potrf"), (), lambda i: rt.ite(le(rt.b, rt.a), ack(rt, nm, i), old.read(rt, i)))
    anyint(rt, info)


def trtrs(rt, a):
    up, tr, dg, n, nrhs, A, lda, B, ldb, info = [num(t) for t in a[:9]] + [a[9]]
    fits(rt, A, n, n, lda, "trtrs")
    fits(rt, B, n, nrhs, ldb, "trtrs")
    rt.goal(isc(A) == isc(B), "trtrs: operands of one kind")
    holds(B, "trtrs", up, tr, dg, base(rt, A, "trtrs"), base(rt, B, "trtrs"), n, nrhs)
    anyint(rt, info)


def eig(what, cx):
    def f(rt, a):
        jz, up, n, A, lda, w = [num(t) for t in a[:6]]
        work, lwork, info = (a[6], a[7], a[9]) if cx else (a[6], a[7], a[8])
        fits(rt, A, n, n, lda, what)
        rt.goal(isc(A) == cx and And(eqc(w.off, 0), le(n, w.buf.n)), what + ": operands")
        if cx:
            rw = num(a[8])
            rt.goal(And(le(3 * n - 2, rw.buf.n), le(1, rw.buf.n)), what + ": real workspace")
        anyint(rt, info)
        if query(rt, what, S_(jz, up, n, lda), work, lwork):
            return
        b = base(rt, A, what)
        rt.goal(str(up) in ("L", "U"), what + ": triangle")
        holds(A, "eigvec" if str(jz) == "V" else "destroyed", b, n)
        holds(w, "eigval", b, n)
    return f


def geqp3(rt, a):
    m, n, A, lda, jp, tau = [num(t) for t in a[:6]]
    cx = isc(A)
    work, lwork, info = (a[6], a[7], a[9]) if cx else (a[6], a[7], a[8])
    fits(rt, A, m, n, lda, "geqp3")
    mn = rt.ite(lt(m, n), m, n, True)
    u = 2 if cx else 1
    rt.goal(isc(tau) == cx and And(eqc(jp.off, 0), le(n, jp.buf.n), eqc(tau.off, 0), le(mn * u, tau.buf.n)), "geqp3: operands")
    rt.goal(ne(jp.buf.a.read(rt, rt.J), 0), "geqp3: no column is free to be exchanged")
    if cx:
        rt.goal(le(2 * n, num(a[8]).buf.n), "geqp3: real workspace")
    anyint(rt, info)
    if query(rt, "geqp3", S_(m, n, lda), work, lwork):
        return
    b = base(rt, A, "geqp3")
    holds(A, "geqp3", b, m, n)
    holds(tau, "tau", b, m, n)


def orgqr(rt, a):
    m, n, k, A, lda, tau, work, lwork, info = [num(t) for t in a[:6]] + list(a[6:])
    fits(rt, A, m, n, lda, "orgqr")
    u = 2 if isc(A) else 1
    rt.goal(isc(tau) == isc(A) and And(le(n, m), le(k, n), eqc(tau.off, 0), le(k * u, tau.buf.n)), "orgqr: operands")
    anyint(rt, info)
    if query(rt, "orgqr", S_(m, n, k, lda), work, lwork):
        return
    holds(A, "orgqr", base(rt, A, "orgqr"), base(rt, tau, "orgqr"), m, n, k)


def ormqr(rt, a):
    side, tr, m, n, k, A, lda, tau, Cc, ldc, work, lwork, info = [num(t) for t in a[:10]] + list(a[10:])
    fits(rt, Cc, m, n, ldc, "ormqr")
    u = 2 if isc(A) else 1
    q = m if str(side) == "L" else n
    rt.goal(And(eqc(A.off, 0), le(q, lda), le(lda * k * u, A.buf.n), le(k, q)), "ormqr: dimensions and leading dimension of %s" % A.buf.name)
    rt.goal(isc(tau) == isc(A) == isc(Cc) and And(eqc(tau.off, 0), le(k * u, tau.buf.n)), "ormqr: operands")
    anyint(rt, info)
    if query(rt, "ormqr", S_(side, tr, m, n, k, lda, ldc), work, lwork):
        return
    holds(Cc, "ormqr", side, tr, base(rt, A, "ormqr"), base(rt, tau, "ormqr"), base(rt, Cc, "ormqr"), m, n, k)


def gesvd(rt, a):
    ju, jv, m, n, A, lda, s, U, ldu, Vt, ldvt = [num(t) for t in a[:11]]
    cx = isc(A)
    work, lwork, info = (a[11], a[12], a[14]) if cx else (a[11], a[12], a[13])
    mn = rt.ite(lt(m, n), m, n, True)
    fits(rt, A, m, n, lda, "gesvd")
    if (str(ju), str(jv)) != ("S", "S"):
        raise Unsupported("gesvd flags")
    fits(rt, U, m, mn, ldu, "gesvd")
    fits(rt, Vt, mn, n, ldvt, "gesvd")
    rt.goal(isc(U) == isc(Vt) == cx and And(eqc(s.off, 0), le(mn, s.buf.n)), "gesvd: operands")
    if cx:
        rt.goal(le(5 * mn, num(a[13]).buf.n), "gesvd: real workspace")
    anyint(rt, info)
    if query(rt, "gesvd", S_(ju, jv, m, n, lda, ldu, ldvt), work, lwork):
        return
    b = base(rt, A, "gesvd")
    holds(A, "destroyed", b, m, n)
    holds(s, "sing", b, m, n)
    holds(U, "U", b, m, n)
    holds(Vt, "Vt", b, m, n)


def gees(rt, a):
    jv, srt, sel, n, A, lda, sdim = [num(t) for t in a[:6]] + [a[6]]
    cx = isc(A)
    if cx:
        w, vs, ldvs, work, lwork, rw, bw, info = a[7:]
    else:
        wr, wi, vs, ldvs, work, lwork, bw, info = a[7:]
    fits(rt, A, n, n, lda, "gees")
    if str(srt) != "N":
        raise Unsupported("gees with sorting")
    if cx:
        rt.goal(isc(num(w)) and le(n * 2, num(w).buf.n), "gees: space for eigenvalues")
        rt.goal(le(n, num(rw).buf.n), "gees: real workspace")
    else:
        r, i = num(wr), num(wi)
        rt.goal(And(le(0, r.off), le(r.off + n, r.buf.n), le(i.off + n, i.buf.n), Or(le(r.off + n, i.off), r.buf is not i.buf)), "gees: space for eigenvalues")
    vs = num(vs)
    if str(jv) == "V":
        rt.goal(vs is not None, "gees: space for the vectors")
        fits(rt, vs, n, n, num(ldvs), "gees")
    anyint(rt, info)
    setp(rt, sdim, S.of(0))
    if query(rt, "gees", S_(jv, n, lda), work, lwork):
        return
    b = base(rt, A, "gees")
    holds(A, "schur", b, n)
    if str(jv) == "V":
        holds(vs, "schurvec", b, n)


def tgsyl(rt, a):
    tr, ij, m, n, A, lda, B, ldb, Cc, ldc, D, ldd, E_, lde, F, ldf = [num(t) for t in a[:16]]
    scale, dif, work, lwork, iwork, info = a[16:]
    cx = isc(A)
    for p, r, c, ld in ((A, m, m, lda), (B, n, n, ldb), (Cc, m, n, ldc), (D, m, m, ldd), (E_, n, n, lde), (F, m, n, ldf)):
        fits(rt, p, r, c, ld, "tgsyl")
        rt.goal(isc(p) == cx, "tgsyl: operands of one kind")
    rt.goal(le(m + n + (2 if cx else 6), num(iwork).buf.n), "tgsyl: integer workspace")
    anyint(rt, info)
    if query(rt, "tgsyl", S_(tr, ij, m, n), work, lwork):
        return
    rt.goal(ij.isconst() and ij.cval() == 0 and str(tr) == "N", "tgsyl: job")
    rt.goal(D.buf.a.base == "eye(%s)" % m and E_.buf.a.base == "eye(%s)" % n and F.buf.a.base == "zeros(%s,%s)" % (m, n), "tgsyl: R = L")
    s = var("sylscale")
    rt.fact(lt(0, s))
    setp(rt, scale, s)
    setp(rt, dif, var(rt.newname("dif")))
    holds(Cc, "sylvester", base(rt, A, "tgsyl"), base(rt, B, "tgsyl"), base(rt, Cc, "tgsyl"), m, n)


LAPACK = {"getrf_": getrf, "getrs_": getrs, "potrf_": potrf, "trtrs_": trtrs, "syev_": eig("syev", False), "heev_": eig("heev", True), "geqp3_": geqp3,
          "orgqr_": orgqr, "ungqr_": orgqr, "ormqr_": ormqr, "unmqr_": ormqr, "gesvd_": gesvd, "gees_": gees, "tgsyl_": tgsyl}
BLAS.update(LAPACK)


# ------------------------------------------------------------------ factorisations
def named(rt, nm, r, c, cplx):
    """element that holds a named matrix"""
    e = Elem(S.of(r), S.of(c), S.of(1), cplx)
    e.arr = Arr(None)
    e.arr.extra = Buf(ZArr(nm), nm, rt.elemapi.m_Getlength(rt, e))
    return e


def isfield(rt, h, nm, what, r, c, cplx):
    rt.goal(nm in h.fields, "%s is attached" % nm)
    f = h.fields[nm]
    rt.goal(And(eqc(f.r, S.of(r)), eqc(f.c, S.of(c)), eqc(f.num, 1)) if f.cplx is cplx else False, "%s has the right shape and kind" % nm)
    if what is not None:
        a = f.arr.extra.a
        rt.goal(a.w == () and a.init is None and a.base == what, "%s is %s: it holds %s" % (nm, what, a.base))


def reuse(name, sig, args, fields, cplxs=(False, True)):
    @dvob(["C02", "C03"], "%s: what is attached already is kept" % name, "elem", timeout=60)
    def ob(rt):
        for cx in cplxs:
            setup(rt)
            m = dims(rt, "m")
            h = el(rt, "H", m, m, cx)
            for f in fields:
                h.fields[f] = named(rt, "old" + f, m, m, cx)
            rt.run(meth(rt, name, sig), h, list(args))
            for f in fields:
                rt.goal(h.fields[f].arr.extra.a.base == "old" + f, "%s is the one attached before" % f)
            rt.goal(set(h.fields) == set(fields) | {"_old"}, "nothing else is attached")
            untouched(rt)


def factorisations():
    P = ["C02", "C03"]
    for cx in (False, True):
        t = " (complex)" if cx else ""

        @dvob(P, "LUdecom attaches the LU factors of the current entries" + t, "elem", timeout=60)
        def lu(rt, cx=cx):
            setup(rt)
            m = dims(rt, "m")
            h = el(rt, "H", m, m, cx)
            rt.run(meth(rt, "LUdecom", ""), h, [])
            isfield(rt, h, "_LU", "getrf(H,m,m)", m, m, cx)
            isfield(rt, h, "_P", "ipiv(H,m,m)", m, 1, False)
            rt.goal(set(h.fields) == {"_LU", "_P", "_old"}, "nothing else is attached")
            untouched(rt)

        # ---- Cholesky: the lower triangle of H is factorised, the upper triangle of L is zero
        def lowv(rt, q, cx=cx):
            return rt.ite(le(rt.b, rt.a), V(rt, "H", q), S.of(0))

        def chinv():
            iv = {}
            for b0 in (0, 2):
                iv.update(inv2("CholDecom", b0, "i", "j", lambda rt: rt.local("L"), lowv, lambda rt: rt.b, lambda rt: rt.a, lambda rt: (S.of(0), rt.m),
                               lambda rt: (S.of(0), rt.m), more=lambda rt, i, j: lem(rt, i, rt.b, rt.m, rt.m)))
            return iv

        @dvob(P, "CholDecom attaches the lower triangular factor of the current entries" + t, "elem", invs=chinv(), timeout=60)
        def ch(rt, cx=cx):
            setup(rt)
            m = rt.m = rt.n = dims(rt, "m")
            place(rt, m, m, cx)
            h = el(rt, "H", m, m, cx)
            rt.same = {"potrf": ("H", rt.K, le(rt.b, rt.a))}
            rt.run(meth(rt, "CholDecom", ""), h, [])
            isfield(rt, h, "_L", None, m, m, cx)
            for q, k in enumerate(rt.K):
                rt.goal(eqc(raw(rt, h.fields["_L"], k), rt.ite(le(rt.b, rt.a), ack(rt, "potrf(H,m)", k), S.of(0))), "the factor below and zeros above the diagonal")
            rt.goal(set(h.fields) == {"_L", "_old"}, "nothing else is attached")
            untouched(rt)

        # ---- symmetric eigenvalues
        def spread(name, ordn, arr, src, hi):
            """the loop that moves N reals apart into N complex numbers, from the last to the first"""
            def conds(rt):
                i = rt.L("i")
                e = rt.local(arr)
                s = lambda k: orig(rt, rt.src, k)
                h = rt.h
                return [("counter", And(le(-1, i), lt(i, hi(rt)))),
                        ("entry", Imp(lt(i, h), And(eqc(raw(rt, e, h * 2), s(h)), eqc(raw(rt, e, h * 2 + 1), 0)))),
                        ("entry to come", Imp(le(h, i), eqc(raw(rt, e, h), s(h))))]
            return {("Element", name, ordn): Inv(conds)}

        for job in "VN":
            for up in "LU":
                @dvob(P, "EigenDecomSym(%s,%s) attaches eigenvalues%s of the current entries%s" % (job, up, " and vectors" if job == "V" else "", t), "elem",
                      invs=spread("EigenDecomSym", 0, "EigVal", None, lambda rt: rt.m) if cx else None, timeout=60)
                def ei(rt, cx=cx, job=job, up=up):
                    setup(rt)
                    m = rt.m = dims(rt, "m")
                    follow(rt, m, False)
                    rt.src = "eigval(H,m)"
                    h = el(rt, "H", m, m, cx)
                    rt.run(meth(rt, "EigenDecomSym", "char*,char*"), h, [job, up])
                    if cx:
                        isfield(rt, h, "_EigVal", None, m, 1, True)
                        rt.goal(And(eqc(raw(rt, h.fields["_EigVal"], rt.h * 2), orig(rt, rt.src, rt.h)), eqc(raw(rt, h.fields["_EigVal"], rt.h * 2 + 1), 0)),
                                "the eigenvalues as complex numbers")
                    else:
                        isfield(rt, h, "_EigVal", "eigval(H,m)", m, 1, False)
                    if job == "V":
                        isfield(rt, h, "_EigVec", "eigvec(H,m)", m, m, cx)
                    rt.goal(set(h.fields) == {"_EigVal", "_old"} | ({"_EigVec"} if job == "V" else set()), "nothing else is attached")
                    untouched(rt)

        # ---- Householder, QR
        def jp0(rt):
            i = rt.L("i")
            jp = rt.L("jpvt").buf.a
            return [("counter", And(le(0, i), le(i, rt.n))), ("no free column", Imp(lt(rt.J, i), eqc(jp.read(rt, rt.J), rt.J + 1)))]

        def jp1(rt):
            i = rt.L("i")
            return [("counter", And(le(0, i), le(i, rt.n)))]
        hi = {("Element", "HHRDecom", k): Inv(jp0 if k % 2 == 0 else jp1) for k in range(4)}

        @dvob(P, "HHRDecom attaches the Householder form of the current entries" + t, "elem", invs=hi, timeout=60)
        def hhr(rt, cx=cx):
            setup(rt)
            m, n = rt.m, rt.n = dims(rt, "m", "n")
            rt.J = var("J", isint=True)
            rt.fact(le(0, rt.J))
            rt.fact(lt(rt.J, n))
            h = el(rt, "H", m, n, cx)
            rt.run(meth(rt, "HHRDecom", ""), h, [])
            isfield(rt, h, "_HHR", "geqp3(H,m,n)", m, n, cx)
            isfield(rt, h, "_tau", "tau(H,m,n)", rt.ite(lt(m, n), m, n, True), 1, cx)
            rt.goal(set(h.fields) == {"_HHR", "_tau", "_old"}, "nothing else is attached")
            untouched(rt)

        # Q(:) = first columns of HHR (entry K of the data), R upper triangular part
        def q0(rt):
            i = rt.L("i")
            return [("counter", And(le(0, i), le(i, rt.qlen)))] + \
                [("entry", Imp(lt(k, i), eqc(raw(rt, rt.local("Q"), k), orig(rt, "HHR", k)))) for k in rt.KQ]

        def rval(rt, q):
            v = orig(rt, "HHR", (rt.a + rt.b * rt.m) * (2 if rt.cx else 1) + q)
            return rt.ite(le(rt.a, rt.b), v, S.of(0))

        def qmore(rt, i, j):
            lem(rt, i, rt.b, rt.mn, rt.n)
            lem(rt, i, rt.b, rt.m, rt.n)
        iv = {("Element", "QRDecom", 0): Inv(q0), ("Element", "QRDecom", 3): Inv(q0)}
        for b0 in (1, 4):
            iv.update(inv2("QRDecom", b0, "i", "j", lambda rt: rt.local("R"), rval, lambda rt: rt.b, lambda rt: rt.a, lambda rt: (S.of(0), rt.n),
                           lambda rt: (S.of(0), rt.mn), more=qmore))

        @dvob(P, "QRDecom attaches Q and R of the current entries" + t, "elem", invs=iv, timeout=120)
        def qr(rt, cx=cx):
            setup(rt)
            m, n = rt.m, rt.n = dims(rt, "m", "n")
            rt.cx = cx
            mn = rt.mn = rt.ite(lt(m, n), m, n, True)
            u = 2 if cx else 1
            for x in (lt(0, mn), lt(0, mn * n), lt(0, m * mn), le(m * mn, m * n), Imp(le(m, n), eqc(m * mn, m * m)), Imp(le(n, m), eqc(m * mn, m * n))):
                rt.fact(x)
            place(rt, mn, n, cx)
            lem(rt, rt.b, rt.b, m, n)
            rt.qlen = m * mn * u
            kq = var("kq", isint=True)
            rt.fact(le(0, kq))
            rt.fact(lt(kq, rt.qlen))
            rt.KQ = [kq]
            h = el(rt, "H", m, n, cx)

            def hh(rt_, e):
                rt.goal(e is h, "the element's own Householder form")
                e.fields["_HHR"] = named(rt, "HHR", m, n, cx)
                e.fields["_tau"] = named(rt, "tau", mn, 1, cx)
            rt.econ = {"HHRDecom": hh}
            rt.same = {"orgqr": ("HHR", rt.KQ, True)}
            rt.run(meth(rt, "QRDecom", ""), h, [])
            mns = str(mn)
            isfield(rt, h, "_Q", "orgqr(HHR,tau,m,%s,%s)" % (mns, mns), m, mn, cx)
            isfield(rt, h, "_R", None, mn, n, cx)
            for q, k in enumerate(rt.K):
                rt.goal(eqc(raw(rt, h.fields["_R"], k), rval(rt, q)), "R is the upper triangular part, zero below the diagonal")
            rt.goal(set(h.fields) == {"_HHR", "_tau", "_Q", "_R", "_old"}, "nothing else is attached")
            untouched(rt)

        # ---- singular values
        @dvob(P, "SVDDecom attaches U, S, Vt of the current entries" + t, "elem",
              invs=spread("SVDDecom", 0, "S", None, lambda rt: rt.mn) if cx else None, timeout=60)
        def svd(rt, cx=cx):
            setup(rt)
            m, n = rt.m, rt.n = dims(rt, "m", "n")
            mn = rt.mn = rt.ite(lt(m, n), m, n, True)
            rt.fact(lt(0, mn * n))
            rt.fact(lt(0, m * mn))
            follow(rt, mn, False)
            rt.src = "sing(H,m,n)"
            h = el(rt, "H", m, n, cx)
            rt.run(meth(rt, "SVDDecom", ""), h, [])
            isfield(rt, h, "_U", "U(H,m,n)", m, mn, cx)
            isfield(rt, h, "_Vt", "Vt(H,m,n)", mn, n, cx)
            if cx:
                isfield(rt, h, "_S", None, mn, 1, True)
                rt.goal(And(eqc(raw(rt, h.fields["_S"], rt.h * 2), orig(rt, rt.src, rt.h)), eqc(raw(rt, h.fields["_S"], rt.h * 2 + 1), 0)),
                        "the singular values as complex numbers")
            else:
                isfield(rt, h, "_S", "sing(H,m,n)", mn, 1, False)
            rt.goal(set(h.fields) == {"_U", "_S", "_Vt", "_old"}, "nothing else is attached")
            untouched(rt)

        for job in "VN":
            @dvob(P, "SchurForm(%s) attaches the Schur form%s of the current entries%s" % (job, " and vectors" if job == "V" else "", t), "elem", timeout=60)
            def schur(rt, cx=cx, job=job):
                setup(rt)
                m = dims(rt, "m")
                h = el(rt, "H", m, m, cx)
                rt.run(meth(rt, "SchurForm", "char*"), h, [job])
                isfield(rt, h, "_SchurForm", "schur(H,m)", m, m, cx)
                if job == "V":
                    isfield(rt, h, "_SchurVec", "schurvec(H,m)", m, m, cx)
                rt.goal(set(h.fields) == {"_SchurForm", "_old"} | ({"_SchurVec"} if job == "V" else set()), "nothing else is attached")
                untouched(rt)

    reuse("LUdecom", "", (), ("_LU", "_P"))
    reuse("CholDecom", "", (), ("_L",))
    reuse("EigenDecomSym", "char*,char*", ("V", "L"), ("_EigVal", "_EigVec"))
    reuse("HHRDecom", "", (), ("_HHR", "_tau"))
    reuse("QRDecom", "", (), ("_Q", "_R"))
    reuse("SVDDecom", "", (), ("_U", "_S", "_Vt"))
    reuse("SchurForm", "char*", ("V",), ("_SchurForm", "_SchurVec"))


factorisations()


# ------------------------------------------------------------------ solvers and functions of matrices
def name_of(rt, e, what):
    a = e.arr.extra.a
    if a.w != () or a.init is not None or "~" in a.base:
        raise Unsupported("%s: contents of an operand" % what)
    return a.base


def transc(rt, e):
    """contract of GetTranspose: (conjugate) transpose by name"""
    return named(rt, "trans(%s)" % name_of(rt, e, "transpose"), e.c, e.r, e.cplx)


def mulc(rt, x, y):
    """contract of operator*: product by name"""
    if isinstance(x, Elem) and isinstance(y, Elem):
        rt.goal(And(eqc(x.c, y.r), x.cplx is y.cplx), "the factors of the product fit")
        return named(rt, "mul(%s,%s)" % (name_of(rt, x, "product"), name_of(rt, y, "product")), x.r, y.c, x.cplx)
    return named(rt, "scale(%s,%s)" % (numname(x), name_of(rt, y, "product")), y.r, y.c, y.cplx)


def numname(v):
    if isinstance(v, (Cplx, list)):
        re, im = parts(v)
        return str(re) if im.iszero() else "(%s,%s)" % (re, im)
    return str(v)


def divc(rt, x, v):
    """contract of operator/ by a number"""
    return named(rt, "quot(%s,%s)" % (name_of(rt, x, "quotient"), numname(v)), x.r, x.c, x.cplx)


def isnamed(rt, e, nm, what):
    a = e.arr.extra.a
    rt.goal(a.w == () and a.init is None and a.base == nm, "%s: %s (it is %s)" % (what, nm, a.base))


def eyec(rt, e):
    rt.goal(eqc(e.r, e.c), "the identity is square")
    realb(rt, e, True).a = ZArr("eye(%s)" % e.r)


def zeroc(rt, e):
    realb(rt, e, True).a = ZArr("zeros(%s,%s)" % (e.r, e.c))


def linear():
    for cx in (False, True):
        t = " (complex)" if cx else ""

        @dvob("C03", "left % right solves left X = right with the LU factors of left" + t, "elem", timeout=60)
        def ls(rt, cx=cx):
            setup(rt)
            m, n = dims(rt, "m", "n")
            A, B = el(rt, "A", m, m, cx), el(rt, "B", m, n, cx)
            r = unref(rt.run(freeop(rt, "operator%", "Element,Element"), None, [A, B]))
            shape(rt, r, m, n, cx)
            isnamed(rt, r, "getrs(N,getrf(A,m,m),ipiv(A,m,m),B,m,n)", "the solution")
            untouched(rt, ("A",))
            rt.goal(A.arr.extra.a.base == "A" and A.arr.extra.a.w == () and eqc(A.r, m) and eqc(A.c, m), "A keeps its entries and shape")

        @dvob("C03", "left / right solves X right = left with the LU factors of right" + t, "elem", timeout=60)
        def rs(rt, cx=cx):
            setup(rt)
            m, n = dims(rt, "m", "n")
            A, B = el(rt, "A", m, n, cx), el(rt, "B", n, n, cx)
            rt.econ = {"GetTranspose": transc}
            r = unref(rt.run(freeop(rt, "operator/", "Element,Element"), None, [A, B]))
            shape(rt, r, m, n, cx)
            isnamed(rt, r, "trans(getrs(%s,getrf(B,n,n),ipiv(B,n,n),trans(A),n,m))" % ("C" if cx else "T"), "the solution of right* X* = left*")
            untouched(rt, ("B",))
            rt.goal(B.arr.extra.a.base == "B" and B.arr.extra.a.w == (), "B keeps its entries")

        for tr in "NTC" if cx else "NT":
            @dvob("C03", "TriangleLinSol(L, %s) solves with the lower triangle%s" % (tr, t), "elem", timeout=60)
            def tls(rt, cx=cx, tr=tr):
                setup(rt)
                m, n = dims(rt, "m", "n")
                h, L = el(rt, "H", m, n, cx), el(rt, "L", m, m, cx)
                r = unref(rt.run(meth(rt, "TriangleLinSol", "Element,char*"), h, [L, tr]))
                shape(rt, r, m, n, cx)
                isnamed(rt, r, "trtrs(L,%s,N,L,H,m,n)" % tr, "the solution")
                untouched(rt)

        for tr in ("NC" if cx else "NT"):
            for side in "LR":
                @dvob("C03", "HHRMtp(%s,%s) multiplies by the orthogonal factor%s" % (tr, side, t), "elem", timeout=60)
                def hm(rt, cx=cx, tr=tr, side=side):
                    setup(rt)
                    m, n, k = dims(rt, "m", "n", "k")
                    q = m if side == "L" else n
                    mn = rt.ite(lt(q, k), q, k, True)
                    rt.fact(le(q * mn, q * k))
                    h, F, tau = el(rt, "H", m, n, cx), el(rt, "F", q, k, cx), el(rt, "tau", mn, 1, cx)
                    r = unref(rt.run(meth(rt, "HHRMtp", "Element,Element,char*,char*"), h, [F, tau, tr, side]))
                    shape(rt, r, m, n, cx)
                    isnamed(rt, r, "ormqr(%s,%s,F,tau,H,m,n,%s)" % (side, tr, mn), "the product")
                    untouched(rt)

        @dvob("C03", "GetOrth is U Vt of the singular value decomposition" + t, "elem", timeout=60)
        def orth(rt, cx=cx):
            setup(rt)
            m, n = dims(rt, "m", "n")
            mn = rt.ite(lt(m, n), m, n, True)
            h = el(rt, "H", m, n, cx)

            def sv(rt_, e):
                b = name_of(rt, e, "SVDDecom")
                e.fields["_U"] = named(rt, "U(%s,m,n)" % b, m, mn, cx)
                e.fields["_S"] = named(rt, "sing(%s,m,n)" % b, mn, 1, cx)
                e.fields["_Vt"] = named(rt, "Vt(%s,m,n)" % b, mn, n, cx)
            rt.econ = {"SVDDecom": sv}
            rt.opers = {"*": mulc}
            r = unref(rt.run(meth(rt, "GetOrth", ""), h, []))
            shape(rt, r, m, n, cx)
            isnamed(rt, r, "mul(U(H,m,n),Vt(H,m,n))", "the orthogonal factor")
            untouched(rt)

        @dvob("C03", "SYL solves A X + X B = C" + t, "elem", timeout=60)
        def syl(rt, cx=cx):
            setup(rt)
            n, m = dims(rt, "n", "m")
            A, B, h = el(rt, "A", n, n, cx), el(rt, "B", m, m, cx), el(rt, "C", n, m, cx)

            def sf(rt_, e, job="V"):
                rt.goal(str(num(job)) == "V", "vectors of the Schur form are asked for")
                b = name_of(rt, e, "SchurForm")
                e.fields["_SchurForm"] = named(rt, "schur(%s)" % b, e.r, e.r, cx)
                e.fields["_SchurVec"] = named(rt, "schurvec(%s)" % b, e.r, e.r, cx)
            rt.econ = {"SchurForm": sf, "GetTranspose": transc, "SetToIdentity": eyec, "SetToZeros": zeroc}
            rt.opers = {"*": mulc, "/": divc}
            r = unref(rt.run(meth(rt, "SYL", "Element,Element"), h, [A, B]))
            shape(rt, r, n, m, cx)
            rhs = "mul(mul(trans(schurvec(A)),C),schurvec(B))"
            y = "sylvester(schur(A),scale(-1,schur(B)),%s,n,m)" % rhs
            isnamed(rt, r, "quot(mul(mul(schurvec(A),%s),trans(schurvec(B))),sylscale)" % y, "QA Y QB* / scale where SA Y - Y (-SB) = scale QA* C QB")
            untouched(rt, ("A", "B"))

        for name, f in (("ExpSym", "exp"), ("LogSym", "log")):
            def ev(rt, k, cx=cx):
                return orig(rt, "eigval", k * 2 if cx else k)

            def conds(rt, f=f, ev=ev, cx=cx):
                i = rt.lasti = rt.L("i")
                tm = rt.local("Tmp")
                lem(rt, i, rt.b, rt.n, rt.n)
                if f == "exp":
                    F = lambda x: fn("exp", x, pos=True)
                else:
                    F = lambda x: fn("log", x)
                rt.fact(Imp(eqc(i, rt.b), eqc(F(ev(rt, i)), F(ev(rt, rt.b)))))
                out = [("counter", And(le(0, i), le(i, rt.n)))]
                for q, k in enumerate(rt.K):
                    v = orig(rt, "eigvec", k)
                    out.append(("entry %d" % q, Imp(lt(rt.b, i), eqc(raw(rt, tm, k), F(ev(rt, rt.b)) * v))))
                    out.append(("entry %d to come" % q, Imp(le(i, rt.b), eqc(raw(rt, tm, k), v))))
                if f == "log":
                    out.append(("eigenvalues so far are positive", Imp(lt(rt.b, i), lt(0, ev(rt, rt.b)))))
                return out
            for up in "LU":
                @dvob("C03", "%s(%s): V %s(D) V*%s" % (name, up, f, t), "elem", invs={("Element", name, 1 if cx else 0): Inv(conds), ("Element", name, 0 if cx else 1): Inv(lambda rt: [])}, timeout=60)
                def es(rt, cx=cx, name=name, f=f, up=up, ev=ev):
                    setup(rt)
                    n = rt.n = dims(rt, "n")
                    place(rt, n, n, cx)
                    h = el(rt, "H", n, n, cx)
                    seen = []

                    def ed(rt_, e, job, uplo):
                        rt.goal(e is h and str(num(job)) == "V" and str(num(uplo)) == up, "eigenvalues and vectors of the right triangle")
                        e.fields["_EigVal"] = named(rt, "eigval", n, 1, cx)
                        e.fields["_EigVec"] = named(rt, "eigvec", n, n, cx)

                    def mul(rt_, x, y):
                        seen.append(1)
                        F = fn("exp", ev(rt, rt.b), pos=True) if f == "exp" else fn("log", ev(rt, rt.b))
                        for q, k in enumerate(rt.K):
                            rt.goal(eqc(raw(rt, x, k), F * orig(rt, "eigvec", k)), "columns of V scaled by %s of the eigenvalues" % f)
                        if f == "log":
                            rt.goal(lt(0, ev(rt, rt.b)), "every eigenvalue is positive")
                        isnamed(rt, y, "trans(eigvec)", "right factor")
                        rt.goal(And(eqc(x.r, n), eqc(x.c, n)), "left factor: shape")
                        return named(rt, "answer", n, n, cx)
                    rt.econ = {"EigenDecomSym": ed, "GetTranspose": transc}
                    rt.opers = {"*": mul}
                    r = unref(rt.run(meth(rt, name, "char*"), h, [up]))
                    if f == "log" and not seen:
                        # the refusal: an eigenvalue is not positive
                        i = rt.lasti
                        rt.goal(And(le(0, i), lt(i, n), le(ev(rt, i), 0)), "refused only when an eigenvalue is not positive")
                        isnamed(rt, r, "H", "the element itself")
                        return
                    rt.goal(len(seen) == 1, "one product")
                    shape(rt, r, n, n, cx)
                    isnamed(rt, r, "answer", "the product")
                    untouched(rt, ("H",))
                    rt.goal(h.arr.extra.a.base == "H" and h.arr.extra.a.w == (), "H keeps its entries")


linear()
