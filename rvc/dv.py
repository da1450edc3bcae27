"""Loops with invariants, z3 as the prover of scalar goals: the extension of the symbolic executor used for the solvers,
the numerical utilities and the parameter maps.

A loop under contract is cut: the invariant is proved on entry, every location the body can change is replaced by an
arbitrary value (the set is found by comparing the state before and after every path of the body and grown to a fixed point
before any verdict counts), the invariant is assumed, one arbitrary iteration is executed and the invariant is proved again.
No bound on the number of iterations."""
import time
import z3
from alg import *
import alg
import sx
from sx import *
import ob as obm
from ob import OBS, Obl, reach, eq, need
from elemapi import ElemAPI

FREE["__builtin_inff"] = FREE["__builtin_inf"] = FREE["__builtin_huge_val"] = lambda rt, a: var("INFINITY", pos=True)
FREE["max"] = lambda rt, a: fn("maxreal", pos=True)


class PathDone(Exception):
    """end of a path that closes a loop"""


class Restart(Exception):
    pass


class VCFail(Fail):
    z3 = True


# ------------------------------------------------------------------ S -> z3 reals
class Conv:
    def __init__(self):
        self.seen = {}
        self.ax = []
        self.memo = {}

    def atom(self, k):
        if k in self.seen:
            return self.seen[k]
        a = C().atoms[k]
        v = z3.ToReal(z3.Int("i%d" % k)) if a.isint else z3.Real("r%d" % k)
        self.seen[k] = v
        if a.pos:
            self.ax.append(v > 0)
        elif a.nonneg:
            self.ax.append(v >= 0)
        if a.kind == "fn" and a.name == "sqrt":
            x = self.s(a.args[0])
            self.ax.append(z3.Implies(x >= 0, v * v == x))
        if a.kind == "fn" and a.name == "idiv" and len(a.args) == 2 and a.args[1].isconst() and a.args[1].cval() > 0:
            x, c = self.s(a.args[0]), a.args[1].cval()      # C++ integer division by a positive constant
            self.ax.append(z3.Implies(x >= 0, z3.And(v * z3.RealVal(str(c)) <= x, x < (v + 1) * z3.RealVal(str(c)))))
        if a.kind == "fn" and a.name == "imod" and len(a.args) == 2:
            x, c = self.s(a.args[0]), self.s(a.args[1])
            q = z3.ToReal(z3.Int("q%d" % k))
            self.ax.append(z3.Implies(z3.And(x >= 0, c > 0), z3.And(v == x - c * q, v >= 0, v < c, q >= 0)))
            self.ax.append(z3.Implies(z3.And(x >= 0, x < c), v == x))
            self.ax.append(z3.Implies(z3.And(x >= c, x < 2 * c), v == x - c))
        if a.kind == "fn" and a.name == "toint":
            x = self.s(a.args[0])
            self.ax.append(z3.Implies(x >= 0, z3.And(v <= x, x < v + 1)))
        return v

    def poly(self, p):
        r = None
        for m, c in p.items():
            t = z3.RealVal(str(c))
            for k, e in m:
                v = self.atom(k)
                for _ in range(abs(e)):
                    t = t * v if e > 0 else t / v
            r = t if r is None else r + t
        return z3.RealVal(0) if r is None else r

    def s(self, x):
        x = S.of(x)
        n = self.poly(x.n)
        return n if x.d == alg.P1 else n / self.poly(x.d)

    def ccond(self, c):
        r = self.memo.get(id(c))
        if r is None:
            r = (c, self.cond(c))
            self.memo[id(c)] = r
        return r[1]

    def cond(self, c):
        if isinstance(c, bool):
            return z3.BoolVal(c)
        if c.op == "b":
            return z3.Bool("b:%s" % (c.a,))
        if c.op == "not":
            return z3.Not(self.cond(c.a))
        if c.op == "and":
            return z3.And(self.cond(c.a), self.cond(c.b))
        if c.op == "or":
            return z3.Or(self.cond(c.a), self.cond(c.b))
        if c.op == "imp":
            return z3.Implies(self.cond(c.a), self.cond(c.b))
        if not isinstance(c.a, S) and isinstance(c.b, S) or not isinstance(c.a, S):
            return z3.Bool("?%s" % (c,))
        a, b = c.a, c.b
        # integers stay integers when nothing else occurs
        d = a - b
        ats = d.atoms()
        if d.d == alg.P1 and ats and all(C().atoms[k].isint for k in ats) and all(e > 0 for m in d.n for _, e in m):
            import math
            L = 1
            for v in d.n.values():
                L = L * v.denominator // math.gcd(L, v.denominator)
            t = None
            for m, v in d.n.items():
                w = z3.IntVal(int(v * L))
                for k, e in m:
                    self.atom(k)
                    for _ in range(e):
                        w = w * z3.Int("i%d" % k)
                t = w if t is None else t + w
            x, y = t, z3.IntVal(0)
        else:
            x, y = self.s(a), self.s(b)
        return {"<": x < y, "<=": x <= y, "==": x == y, "!=": x != y}[c.op]


class LinConv(Conv):
    """products and quotients are unknown reals"""

    def poly(self, p):
        r = None
        for m, c in p.items():
            t = z3.RealVal(str(c))
            if len(m) == 1 and m[0][1] == 1:
                t = t * self.atom(m[0][0])
            elif m:
                t = t * self.mono(m)
            r = t if r is None else r + t
        return z3.RealVal(0) if r is None else r

    def mono(self, m):
        v = self.memo.get(("m", m))
        if v is None:
            v = self.memo[("m", m)] = z3.Real("m" + "_".join("%d^%d" % p for p in m))
        return v

    def s(self, x):
        x = S.of(x)
        if x.d == alg.P1:
            return self.poly(x.n)
        k = ("q", repr(x))
        v = self.memo.get(k)
        if v is None:
            v = self.memo[k] = z3.Real("q%d" % len(self.memo))
        return v


def And(*cs):
    r = None
    for c in cs:
        if c is True:
            continue
        if c is False:
            return False
        r = c if r is None else Cond("and", r, c)
    return True if r is None else r


def Or(*cs):
    r = None
    for c in cs:
        if c is False:
            continue
        if c is True:
            return True
        r = c if r is None else Cond("or", r, c)
    return False if r is None else r


def Not(c):
    return (not c) if isinstance(c, bool) else c.neg()


def Imp(a, b):
    return Or(Not(a), b)


def lt(a, b):
    return Cond("<", S.of(a), S.of(b))


def le(a, b):
    return Cond("<=", S.of(a), S.of(b))


def eqc(a, b):
    return Cond("==", S.of(a), S.of(b))


class IntConv:
    """conditions about integers only, products of integers taken as unknown integers; None for any other condition"""

    def __init__(self):
        self.memo, self.ax, self.seen = {}, [], {}

    def var(self, m):
        v = self.seen.get(m)
        if v is None:
            v = self.seen[m] = z3.Int("m" + "_".join("%d^%d" % p for p in m))
            if len(m) == 1 and m[0][1] == 1:
                a = C().atoms[m[0][0]]
                if a.pos or a.nonneg:
                    self.ax.append(v > 0 if a.pos else v >= 0)
                if a.kind == "fn" and a.name == "idiv" and len(a.args) == 2 and a.args[1].isconst() and a.args[1].cval() > 0:
                    x = self.lin(a.args[0])
                    if x is not None:
                        k = int(a.args[1].cval())
                        self.ax.append(z3.Implies(x >= 0, z3.And(v * k <= x, x < (v + 1) * k)))
        return v

    def lin(self, x):
        if x.d != alg.P1:
            return None
        t = z3.IntVal(0)
        for m, c in x.n.items():
            if c.denominator != 1:
                return None
            for k, e in m:
                a = C().atoms[k]
                if e < 0 or not a.isint or a.kind == "fn" and a.name in ("ite", "big", "imod"):
                    return None
            t = t + (self.var(m) * int(c) if m else int(c))
        return t

    def of(self, c):
        r = self.memo.get(id(c))
        if r is None:
            r = (c, self.conv(c))
            self.memo[id(c)] = r
        return r[1]

    def conv(self, c):
        if isinstance(c, bool):
            return z3.BoolVal(c)
        if c.op == "not":
            a = self.conv(c.a)
            return None if a is None else z3.Not(a)
        if c.op in ("and", "or", "imp"):
            a, b = self.conv(c.a), self.conv(c.b)
            if a is None or b is None:
                return None
            return {"and": z3.And, "or": z3.Or, "imp": z3.Implies}[c.op](a, b)
        if c.op == "b" or not isinstance(c.a, S) or not isinstance(c.b, S):
            return None
        import math
        d = c.a - c.b
        L = 1
        for v in d.n.values():
            L = L * v.denominator // math.gcd(L, v.denominator)
        x = self.lin(d * L)
        return None if x is None else {"<": x < 0, "<=": x <= 0, "==": x == 0, "!=": x != 0}[c.op]


class ZS:
    """path-condition queries"""
    tmo = 400

    def __init__(self):
        self.n = 0
        self.t = 0.0

    def check(self, rt, extra, tmo=None):
        if rt.qcache is not None:
            rt.nq += 1
            k = (tuple(rt.taken), rt.nq)
            if k in rt.qcache:
                return rt.qcache[k], None, None
            r = self.check_(rt, extra, tmo)
            rt.qcache[k] = r[0]
            return r
        return self.check_(rt, extra, tmo)

    def check_(self, rt, extra, tmo=None):
        cv = rt.conv
        if cv is None:
            cv = rt.conv = Conv()
        cs = [cv.ccond(c) for c in rt.facts] + [cv.ccond(c) for c in rt.pc] + [cv.cond(c) for c in extra]
        s = z3.Solver()
        s.set("timeout", (tmo or self.tmo) * obm.SLOW[0])
        for c in cs:
            s.add(c)
        s.add(*cv.ax)
        self.n += 1
        t = time.time()
        try:
            r = s.check()
        finally:
            self.t += time.time() - t
        return r, s, cv

    def intentailed(self, rt, c, ic, q):
        """from the conditions about integers alone: "don't know" is always a safe answer"""
        key = repr(c)
        memo = rt.__dict__.setdefault("intmemo", {})
        n = (len(rt.facts), len(rt.pc))
        old = memo.get(key)
        if old is not None and (old[1] is not None or old[0] == n):
            return old[1]
        s = z3.SolverFor("QF_LIA")
        s.set("timeout", 400)
        for x in list(rt.facts) + list(rt.pc):
            if not isinstance(x, bool):
                y = ic.of(x)
                if y is not None:
                    s.add(y)
        s.add(*ic.ax)
        ans = None
        for v, g in ((True, z3.Not(q)), (False, q)):
            s.push()
            s.add(g)
            t = time.time()
            self.n += 1
            r = s.check()
            self.t += time.time() - t
            s.pop()
            if r == z3.unsat:
                ans = v
                break
        memo[key] = (n, ans)
        return ans

    def entailed(self, rt, c):
        if rt.intonly:
            ic = rt.__dict__.get("intconv")
            if ic is None:
                ic = rt.intconv = IntConv()
            q = ic.of(c)
            if q is not None:
                return self.intentailed(rt, c, ic, q)
        r, _, _ = self.check(rt, [c.neg() if not isinstance(c, bool) else (not c)])
        if r == z3.unsat:
            return True
        r, _, _ = self.check(rt, [c])
        if r == z3.unsat:
            return False
        return None


def ack(rt, name, *args, isint=False):
    """uninterpreted function with congruence"""
    args = tuple(S.of(rt.tonum(a)) for a in args)
    r = fn(name, *args, isint=isint)
    seen = rt.__dict__.setdefault("acks", {}).setdefault(name, [])
    for (b, q) in seen:
        if q.eq(r):
            return r
    for (b, q) in seen:
        rt.fact(Imp(And(*[eqc(x, y) for x, y in zip(args, b) if not x.eq(y)]), eqc(r, q)))
    seen.append((args, r))
    return r


def val_(a):
    return a.get() if isinstance(a, (Cell, FieldCell)) else a


# ------------------------------------------------------------------ arrays of reals
class ZArr:
    """array value: base name and the writes on top of it (immutable)"""
    __slots__ = ("base", "w", "init", "ty")

    def __init__(self, base, w=(), init=None, ty="real"):
        self.base, self.w, self.init, self.ty = base, w, init, ty

    def store(self, i, v):
        return ZArr(self.base, self.w + ((i, v),), self.init, self.ty)

    def fresh(self, rt):
        return ZArr(rt.newname("arr"), (), None, self.ty)

    def read(self, rt, i):
        r = self.init(i) if self.init is not None else ack(rt, self.base, i, isint=self.ty == "int") if rt.cong else fn(self.base, i, isint=self.ty == "int")
        for k, v in self.w:
            if i.eq(k):
                r = v
                continue
            c = eqc(i, k)
            t = rt.fold(c)
            if t is None:
                t = rt.solver.entailed(rt, c)
            if t is True:
                r = v
            elif t is None:
                if isinstance(v, S) and isinstance(r, S):
                    r = rt.ite(c, v, r, self.ty == "int")
                elif rt.decide(c):
                    r = v
        return r


class Buf:
    """memory a pointer points to"""
    __slots__ = ("a", "name", "n", "freed", "w")

    def __init__(self, a, name="", n=None):
        self.a, self.name, self.n, self.freed, self.w = a, name, n, False, True


class ZCell:
    def __init__(self, rt, buf, i):
        self.rt, self.buf, self.i = rt, buf, i

    def get(self):
        self.rt.bounds(self.buf, self.i, "read")
        return self.buf.a.read(self.rt, self.i)

    def set(self, v):
        self.rt.bounds(self.buf, self.i, "write")
        self.buf.a = self.buf.a.store(self.i, v if not isinstance(v, bool) else S.of(int(v)))

    def addr(self):
        return ZPtr(self.rt, self.buf, self.i)


class ZPtr:
    def __init__(self, rt, buf, off=None):
        self.rt, self.buf, self.off = rt, buf, S.of(0) if off is None else off

    def index(self, i):
        return ZCell(self.rt, self.buf, self.off + i)

    def deref(self):
        return ZCell(self.rt, self.buf, self.off)

    def advance(self, k):
        return ZPtr(self.rt, self.buf, self.off + k)

    def arith(self, op, b):
        if op not in "+-" or not isinstance(b, S):
            raise Unsupported("pointer arithmetic")
        return ZPtr(self.rt, self.buf, self.off + b if op == "+" else self.off - b)

    def rarith(self, op, a):
        return self.arith("+", a)

    def cmp(self, op, b):
        if b is None:
            return op == "!="
        if isinstance(b, ZPtr) and op in ("==", "!="):
            if b.buf is not self.buf:
                return op == "!="
            return Cond(op, self.off, b.off)
        raise Unsupported("pointer comparison")


class VZArr(ZArr):
    """array of tangent vectors: values are combinations of letters"""

    def __init__(self, rt, base, w=(), init=None):
        super().__init__(base, w, init, "vec")
        self.rt = rt

    def store(self, i, v):
        return VZArr(self.rt, self.base, self.w + ((i, v),), self.init)

    def fresh(self, rt):
        return VZArr(rt, rt.newname(self.base.split("~")[0]))

    def read(self, rt, i):
        for k, v in reversed(self.w):
            if i.eq(k):
                return v
            c = eqc(i, k)
            t = rt.fold(c)
            if t is None:
                t = rt.decide(c)
            if t:
                return v
        if self.init is not None:
            return self.init(i)
        seen = rt.__dict__.setdefault("vreads", {}).setdefault(self.base, [])
        for j in seen:
            if i.eq(j) or rt.solver.entailed(rt, eqc(i, j)) is True:
                i = j
                break
        else:
            seen.append(i)
        return M.sym(opaque(self.base, (i,), rt.N, S.of(1)))


class VElem(Elem):
    """entry of an array of tangent vectors"""

    def __init__(self, rt, buf, i):
        super().__init__(rt.N, 1, 1)
        self.rt, self.buf, self.i = rt, buf, i
        self.name = "%s[]" % buf.name

    def val(self):
        self.rt.bounds(self.buf, self.i, "read")
        return self.buf.a.read(self.rt, self.i)

    def hasval(self):
        return True

    def setval(self, m, r=None, c=None, cplx=None):
        self.rt.bounds(self.buf, self.i, "write")
        self.buf.a = self.buf.a.store(self.i, m)

    def assign(self, o):
        self.setval(o.val())

    def copy(self):
        e = Elem(self.rt.N, 1, 1)
        e.setval(self.val(), self.rt.N, 1)
        return e

    def addr(self):
        return Ptr(self)


class VPtr(ZPtr):
    def index(self, i):
        return VElem(self.rt, self.buf, self.off + i)

    def deref(self):
        return VElem(self.rt, self.buf, self.off)

    def advance(self, k):
        return VPtr(self.rt, self.buf, self.off + k)


def vecarray(rt, name, n):
    return VPtr(rt, Buf(VZArr(rt, name), name, n))


# ------------------------------------------------------------------ executor
class Inv:
    """invariant of one loop: conds(rt) -> [(text, Cond)], defs(rt) -> [(location, value thunk)]; ghost(rt): updates at the end
    of an iteration; unroll: leave the loop to concrete unrolling"""

    def __init__(self, conds=None, defs=None, ghost=None, unroll=False, entry=None, assume=None, state=None):
        self.conds, self.defs, self.ghost, self.unroll, self.entry, self.assume, self.state = conds, defs, ghost, unroll, entry, assume, state

    def deflist(self):
        return self.defs if isinstance(self.defs, list) else [self.defs] if self.defs else []


def bufof(s):
    """buffer of a pointer in a snapshot"""
    if type(s) is tuple and s and s[0] == "c":
        s = s[1]
    if type(s) is tuple and s and s[0] == "p":
        return s[1]
    if type(s) is tuple and s and s[0] == "k" and type(s[1]) is tuple and s[1][0] == "cp":
        return s[1][1]
    if type(s) is tuple and s and s[0] == "v" and s[1] is None:
        return None
    return 0


class DRT(RT):
    mods = None           # shared between rounds: loop key -> set of locations
    discover = False      # rounds that only look for modified locations
    dirty = None
    cong = False          # array reads at equal indices are equal
    intonly = False       # index comparisons are decided from index facts alone
    qcache = None
    nq = 0
    conv = None
    biglimit = 0          # arithmetic results with more terms than this become named atoms

    def __init__(self, prog, prefix, solver=None):
        super().__init__(prog, prefix, ZS())
        self.elemapi = DElemAPI()
        self.facts = []
        self.vt = {}
        self.invs = {}
        self.loop = DRT.cutloop
        self.ghosts = {}
        self.objs = []
        self.nsnap = 0
        self.checkbounds = False
        self.nfresh = 0
        self.strs = {}
        self.restartable = True
        self.over = {}
        self.decl_ty = {}
        self.itedone = set()

    def fact(self, c):
        self.facts.append(c)

    def newname(self, b):
        self.nfresh += 1
        return "%s~%d" % (b, self.nfresh)

    def bounds(self, buf, i, what):
        if buf.freed:
            self.goal(False, "%s of freed memory %s" % (what, buf.name))
        if buf.n is not None and self.checkbounds:
            self.goal(And(le(0, i), lt(i, buf.n)), "%s within the bounds of %s" % (what, buf.name))

    # ---- goals
    def goal(self, c, name):
        self.nob = getattr(self, "nob", 0) + 1
        if isinstance(c, Cond):
            v = self.fold(c)
            if v is not None:
                c = v
        if c is True or self.discover:
            return
        if self.intonly and c is not False and self.light(c):
            return
        r, s, cv = self.solver.check(self, [] if c is False else [c.neg()], 10000)
        if r == z3.unsat:
            if c is False:
                raise Infeasible()
            return
        if r == z3.sat:
            if s is None:
                r, s, cv = self.solver.check_(self, [] if c is False else [c.neg()], 10000)
                if r != z3.sat:
                    raise Unsupported("z3 gives no answer: " + name)
            m = s.model()
            txt = []
            for k, v in cv.seen.items():
                try:
                    txt.append("%s=%s" % (alg.aname(k), m.eval(v, model_completion=True)))
                except Exception:
                    pass
            raise VCFail("%s [counterexample %s]" % (name, ", ".join(t[:60] for t in txt)[:500]))
        raise Unsupported("z3 gives no answer: " + name)

    def light(self, c):
        """does the goal follow with products and quotients taken as unknowns?"""
        cv = self.__dict__.get("lconv")
        if cv is None:
            cv = self.lconv = LinConv()
        s = z3.Solver()
        s.set("timeout", 1500)
        for x in self.facts:
            s.add(cv.ccond(x))
        for x in self.pc:
            s.add(cv.ccond(x))
        s.add(cv.cond(c.neg()))
        s.add(*cv.ax)
        t = time.time()
        self.solver.n += 1
        r = s.check()
        self.solver.t += time.time() - t
        return r == z3.unsat

    def goaleq(self, a, b, name):
        """equality of elements (matrices of letters) or scalars, under the path condition"""
        if isinstance(a, Elem):
            a = a.val()
        if isinstance(b, Elem):
            b = b.val()
        if isinstance(a, M) and isinstance(b, M):
            self.nob = getattr(self, "nob", 0) + 1
            if not (a.r.eq(b.r) and a.c.eq(b.c)):
                return self.goal(False, name + ": shapes")
            d = normal(a - b)
            for w, s in d.t.items():
                if not s.iszero():
                    self.goal(eqc(s, 0), "%s: coefficient of %s in %s vs %s" % (name, ".".join(lname(l) for l in w), str(a)[:120], str(b)[:120]))
            return
        if isinstance(a, (bool, Cond)) or isinstance(b, (bool, Cond)):
            a, b = self.tocond(a), self.tocond(b)
            if isinstance(a, bool) and isinstance(b, bool):
                return self.goal(a == b, name)
            return self.goal(And(Imp(a, b), Imp(b, a)), name)
        self.goal(eqc(a, b), name)

    # ---- locations
    def vardecl(self, c):
        super().vardecl(c)
        self.vt[c.ref] = (c.name, c.ty)

    def run(self, fn_, this, args):
        for (nm, ty, (pid, init)) in fn_.params:
            self.vt[pid] = (nm, ty)
        return super().run(fn_, this, args)

    def local(self, name):
        env = self.frames[-1].env
        r = None
        for k in env:
            if k in self.vt and self.vt[k][0] == name:
                r = env[k]
        if r is None:
            raise Unsupported("the invariant's variable %s is not there" % name)
        return r

    def L(self, name):
        v = self.local(name)
        return v.get() if isinstance(v, (Cell, FieldCell)) else v

    def locs(self):
        """location -> (object, declared type)"""
        out, seen = {}, {}
        for o in self.objs:
            for k, v in o.f.items():
                if isinstance(v, (Elem, Obj)):
                    if id(v) in seen:
                        continue
                    seen[id(v)] = 1
                if isinstance(v, Obj):
                    continue
                out[("f", o.cls, id(o) if False else self.objs.index(o), k)] = (o, k, v)
        for d, fr in enumerate(self.frames):
            for k, v in fr.env.items():
                if isinstance(v, FieldCell):
                    continue
                if isinstance(v, (Elem, Cell)):
                    if id(v) in seen:
                        continue
                    seen[id(v)] = 1
                out[("l", d, k)] = (fr, k, v)
        for k, v in self.ghosts.items():
            out[("g", k)] = (None, k, v)
        bufs = {}
        for key, (o, k, v) in list(out.items()):
            w = v.v if isinstance(v, Cell) else v
            if isinstance(w, ZPtr) or getattr(w, "isbuf", False):
                if id(w.buf) not in bufs:
                    bufs[id(w.buf)] = 1
                    out[("b",) + key] = (None, None, w.buf)
            if isinstance(w, Elem) and w.arr is not None and isinstance(w.arr.extra, Buf) and id(w.arr.extra) not in bufs:
                bufs[id(w.arr.extra)] = 1
                out[("b",) + key] = (None, None, w.arr.extra)
        return out

    def sig(self, v):
        if isinstance(v, Cell):
            return ("c", self.sigv(v.v))
        return self.sigv(v)

    def sigv(self, v):
        if isinstance(v, Elem):
            a = v.arr
            return ("e", a.m if a is not None else None, ("id%d" % id(a.extra)) if a is not None and isinstance(a.extra, Buf) else None, v.r, v.c, v.cplx, tuple(sorted(v.fields)),
                    [self.sigv(x) for x in v.elements] if v.elements is not None else None)
        if isinstance(v, Buf):
            return ("buf", v.a, v.freed)
        if isinstance(v, ZPtr):
            return ("p", v.buf, v.off)
        if hasattr(v, "snapkey"):
            return ("k", v.snapkey())
        return ("v", v)

    def sigeq(self, a, b):
        if type(a) is tuple and type(b) is tuple:
            return len(a) == len(b) and all(self.sigeq(x, y) for x, y in zip(a, b))
        if a is b:
            return True
        if isinstance(a, list) and isinstance(b, list):
            return len(a) == len(b) and all(self.sigeq(x, y) for x, y in zip(a, b))
        if isinstance(a, S) and isinstance(b, S):
            return a.n == b.n and a.d == b.d or a.eq(b)
        if isinstance(a, M) and isinstance(b, M):
            return a.same(b)
        if isinstance(a, (bool, str, int)) or isinstance(b, (bool, str, int)):
            return type(a) is type(b) and a == b
        if isinstance(a, Cond) and isinstance(b, Cond):
            return a.op == b.op and (self.sigeq(a.a, b.a) and self.sigeq(a.b, b.b))
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return a.to is b.to
        if isinstance(a, Opaque) and isinstance(b, Opaque):
            return a.name == b.name
        return False

    def snap(self):
        return {k: self.sig(v[2]) for k, v in self.locs().items()}

    def fieldtype(self, o, k):
        return getattr(o, "types", {}).get(k) or self.prog.fields(o.cls).get(k)

    def freshlike(self, ty, old, nm):
        if isinstance(old, Elem):
            return old
        if hasattr(old, "havoc"):
            return old.havoc(self, nm)
        if isinstance(old, ZPtr):
            return ZPtr(self, old.buf, var(self.newname(nm + ".off"), isint=True))
        if isinstance(old, Cplx):
            return Cplx(var(self.newname(nm + ".re")), var(self.newname(nm + ".im")))
        if ty is not None:
            t = ty.replace("const ", "").replace("mutable ", "").replace("&", "").strip()
            if t in ("realdp", "double"):
                return var(self.newname(nm))
            if t in ("integer", "int", "unsigned int", "long", "size_t", "unsigned long", "unsigned"):
                return var(self.newname(nm), isint=True)
            if t == "bool":
                return batom(self.newname(nm))
            if isinstance(old, (S, Undef)) and not t.endswith("*"):
                return var(self.newname(nm), isint=True)       # enumerations
        if isinstance(old, (bool, Cond)):
            return batom(self.newname(nm))
        raise Unsupported("no arbitrary value for %s of type %s (%r)" % (nm, ty, old))

    def havoc(self, keys):
        L = self.locs()
        for key in sorted(keys, key=str):
            if key not in L:
                continue
            if ("rebuf",) + key in keys and key[0] in "fl":      # points somewhere else after an iteration
                o, k, v = L[key]
                if key[0] == "f":
                    o.f[k] = Opaque(self.newname("stale pointer"))
                elif isinstance(v, Cell):
                    v.v = Opaque(self.newname("stale pointer"))
                else:
                    raise Unsupported("element moved inside a loop")
                continue
            o, k, v = L[key]
            if key[0] == "b":
                v.a = v.a.fresh(self)
                continue
            if key[0] == "g":
                self.ghosts[k] = self.freshlike(self.ghost_ty.get(k, "double"), v, "ghost." + k)
                continue
            if isinstance(v, Elem):
                self.havocelem(v)
                continue
            if key[0] == "f":
                o.f[k] = self.freshlike(self.fieldtype(o, k), v, k)
            else:
                nm, ty = self.vt.get(k, ("tmp", None))
                v.v = self.freshlike(ty, v.v, nm)
    ghost_ty = {}

    def havocelem(self, v):
        if v.elements is not None:
            for x in v.elements:
                self.havocelem(x)
            return
        a = v.arr
        if a is not None and isinstance(a.extra, Buf):
            a.extra.a = a.extra.a.fresh(self)
            return
        r, c = (self.N, S.of(1)) if getattr(self, "N", None) is not None else (v.r, v.c)
        v.setval(M.sym(sym(self.newname("any"), r, c)), r, c)

    def getloc(self, loc):
        if loc[0] == "f":
            return self.this.getf(loc[1])
        if loc[0] == "l":
            return self.local(loc[1])
        if loc[0] == "g":
            return self.ghosts[loc[1]]
        return loc[1]

    def setloc(self, loc, v):
        cur = self.getloc(loc)
        if isinstance(cur, Elem):
            cur.setval(v, v.r, v.c) if isinstance(v, M) else cur.assign(v)
        elif loc[0] == "f":
            self.this.f[loc[1]] = v
        elif loc[0] == "l":
            cur.set(v)
        elif loc[0] == "g":
            self.ghosts[loc[1]] = v

    # ---- loops
    def loopkey(self, n):
        f = self.frames[-1].fn
        if f is None:
            return None
        cache = self.prog.__dict__.setdefault("_loopord", {})
        d = cache.get(id(f))
        if d is None:
            d = {}
            for x in f.body.walk():
                if x.k in ("ForStmt", "WhileStmt", "DoStmt"):
                    d[id(x)] = len(d)
            cache[id(f)] = d
        return (f.cls, f.name, d.get(id(n)))

    def cutloop(self, n, cond, inc, body):
        return self._cut(n, cond, inc, body, False)

    def s_DoStmt(self, n):
        if not self._cut(n, n.ch[1], None, n.ch[0], True):
            raise Unsupported("do-while without an invariant")

    def proveinv(self, inv, what, key):
        for ds in inv.deflist():
            for loc, th in ds(self):
                v = self.getloc(loc)
                if isinstance(v, (Cell, FieldCell)):
                    v = v.get()
                w = th(self)
                self.goaleq(v, w, "%s: %s (%s)" % (what, loc[1] if isinstance(loc[1], str) else "value", key))
        if inv.conds:
            for nm, c in inv.conds(self):
                self.goal(c, "%s: %s (%s)" % (what, nm, key))

    def _cut(self, n, cond, inc, body, dowhile):
        key = self.loopkey(n)
        inv = self.invs.get(key)
        if inv is None or inv.unroll:
            return False
        ks = "%s::%s loop %s" % key
        want = 1 + max(k[2] for k in self.invs if k[:2] == key[:2])
        have = len(self.prog.__dict__["_loopord"][id(self.frames[-1].fn)])
        if want != have:
            raise Unsupported("%s::%s has %d loops, the invariants are for %d" % (key[0], key[1], have, want))
        if inv.entry:
            inv.entry(self)
        self.proveinv(inv, "invariant holds on entry", ks)
        mods = self.mods.setdefault(key, set())
        self.havoc(mods)
        if inv.state:
            inv.state(self)
        for ds in inv.deflist():
            for loc, th in ds(self):
                self.setloc(loc, th(self))
        if inv.conds:
            for nm, c in inv.conds(self):
                if isinstance(c, Cond):
                    self.assume(c)
                elif c is False:
                    raise Infeasible()
        if inv.assume:
            inv.assume(self)
        before = self.snap()

        def changed():
            now = self.snap()
            new = set()
            for k, v in before.items():
                if k in now and k not in mods and not self.sigeq(v, now[k]):
                    new.add(k)
                if k in now and ("rebuf",) + k not in mods and bufof(v) is not bufof(now[k]):
                    new.add(("rebuf",) + k)
            for k in now:
                if k not in before and k not in mods and k[0] in "fg":
                    raise Unsupported("field %s first seen inside a loop" % (k,))
            if new:
                mods.update(new)
                self.dirty[0] = True
                raise PathDone()
        if not dowhile and cond is not None and cond.k != "Null":
            if not self.cond(cond):
                return True
        try:
            self.stmt(body)
        except _Break:
            changed()
            return True
        except _Continue:
            pass
        if inc is not None and inc.k != "Null":
            self.eval(inc)
        if dowhile and not self.cond(cond):
            changed()
            return True
        if inv.ghost:
            inv.ghost(self)
        changed()
        self.proveinv(inv, "invariant preserved", ks)
        raise PathDone()

    # ---- pieces of the language the algebra engine leaves out
    def decide(self, cond):
        if isinstance(cond, Cond) and cond.op == "imp":
            cond = Or(Not(cond.a), cond.b)
        if self.wholecond and isinstance(cond, Cond) and cond.op in ("and", "or"):
            v = self.fold(cond)
            if v is None:
                v = self.solver.entailed(self, cond)
            if v is not None:
                return v
            k = len(self.taken)
            b = self.prefix[k] if k < len(self.prefix) else True
            self.taken.append(b)
            self.assume(cond if b else cond.neg())
            return b
        return super().decide(cond)

    rawelem = None        # members of elements by name, for the bodies of element operations

    def e_MemberExpr(self, n):
        if self.rawelem is not None:
            o = self.lv(n.ch[0])
            if getattr(o, "parts", False):
                return o.member(n.name)
            o = o.get() if hasattr(o, "get") and hasattr(o, "set") else o
            o = o.to if isinstance(o, Ptr) else o
            if isinstance(o, Elem):
                return self.rawelem(self, o, n.name)
        return super().e_MemberExpr(n)

    def e_CStyleCastExpr(self, n):
        v = super().e_CStyleCastExpr(n)
        if self.rawelem is not None and isinstance(v, (Cell, FieldCell)):
            v = v.get()
        return self.recast(n.ty or "", v) if self.rawelem is not None else v

    def recast(self, ty, v):
        return v

    useite = True

    def s_IfStmt(self, n):
        """if (c) x = e; with scalar x and pure e: x becomes a conditional value, no fork"""
        if self.useite and not (n.x and (n.x.get("init") or n.x.get("var"))) and all(self.assignonly(c) for c in n.ch[1:]) and self.pure(n.ch[0]):
            c = self.tocond(self.eval(n.ch[0]))
            v = self.fold(c)
            if v is None and c.op not in ("b", "not"):
                v = self.solver.entailed(self, c)
            if v is None:
                return self.mergeif(c, n)
            if v:
                self.stmt(n.ch[1])
            elif len(n.ch) > 2:
                self.stmt(n.ch[2])
            return
        return super().s_IfStmt(n)

    construct_classes = ()
    wholecond = False     # conditions without calls or subscripts are decided as one

    def cond(self, n):
        if self.wholecond and n.k == "BinaryOperator" and n.op in ("&&", "||") and self.pure(n) and not any(x.k == "ArraySubscriptExpr" for x in n.walk()):
            return self.decide(self.tocond(self.eval(n)))
        return super().cond(n)

    def assignonly(self, n):
        if n.k in ("Null", "NullStmt"):
            return True
        if n.k == "CompoundStmt":
            return len(n.ch) <= 4 and all(self.assignonly(c) for c in n.ch)
        if n.k in ("BinaryOperator", "CompoundAssignOperator") and n.op in ("=", "+=", "-=", "*=") and self.pure(n.ch[1]):
            t = (n.ch[0].ty or "").replace("const ", "")
            return n.ch[0].k in ("DeclRefExpr", "MemberExpr") and (t in ("double", "realdp", "int", "integer", "bool") or "Status" in t or "status" in t)
        return False

    def mergeif(self, c, n):
        cells = []
        for b in n.ch[1:]:
            for x in b.walk():
                if x.k in ("BinaryOperator", "CompoundAssignOperator") and self.assignonly(x):
                    cells.append((self.lv(x.ch[0]), x.ch[0].ty))
        if not all(isinstance(x, (Cell, FieldCell)) for x, _ in cells):
            if self.decide(c):
                self.stmt(n.ch[1])
            elif len(n.ch) > 2:
                self.stmt(n.ch[2])
            return
        old = [x.get() for x, _ in cells]
        self.stmt(n.ch[1])
        a = [x.get() for x, _ in cells]
        for (x, _), o in zip(cells, old):
            x.set(o)
        if len(n.ch) > 2:
            self.stmt(n.ch[2])
        b = [x.get() for x, _ in cells]
        ok = all(isinstance(p, (S, bool, Cond)) and isinstance(q, (S, bool, Cond)) for p, q in zip(a, b))
        if not ok:
            if self.decide(c):
                for (x, _), v in zip(cells, a):
                    x.set(v)
            return
        res = []
        for (x, ty), p, q in zip(cells, a, b):
            t = (ty or "").replace("const ", "")
            if t == "bool":
                p, q = self.tocond(p), self.tocond(q)
                res.append(Or(And(c, p), And(Not(c), q)))
            else:
                p, q = self.tonum(p), self.tonum(q)
                res.append(self.ite(c, p, q, t not in ("double", "realdp")))
        for (x, _), v in zip(cells, res):
            x.set(v)

    def ite(self, c, a, b, isint=False, nonneg=False):
        if isinstance(c, bool):
            return a if c else b
        if a.eq(b):
            return a
        r = fn("ite", repr(c), a, b, isint=isint, nonneg=nonneg)
        key = ("ite", repr(r))
        if key not in self.itedone:
            self.itedone.add(key)
            self.facts.append(Imp(c, eqc(r, a)))
            self.facts.append(Imp(Not(c), eqc(r, b)))
        return r

    def e_ConditionalOperator(self, n):
        if self.useite and n.ty and n.ty.replace("const ", "") in ("double", "realdp", "int", "integer") and all(self.pure(c) for c in n.ch):
            c = self.tocond(self.eval(n.ch[0]))
            v = self.fold(c)
            if v is None and c.op not in ("b", "not"):
                v = self.solver.entailed(self, c)
            if v is None:
                a, b = self.eval(n.ch[1]), self.eval(n.ch[2])
                if isinstance(a, S) and isinstance(b, S):
                    return self.ite(c, a, b, n.ty.replace("const ", "") in ("int", "integer"))
                return a if self.decide(c) else b
            return self.lv(n.ch[1 if v else 2])
        return super().e_ConditionalOperator(n)

    def binop(self, op, a, b, ty=None):
        if a is None and op == "+" and isinstance(b, S):
            self.goal(eqc(b, 0), "offset of a null pointer")
            return None
        r = super().binop(op, a, b, ty)
        if self.biglimit and isinstance(r, S) and len(r.n) + len(r.d) > self.biglimit:
            return fn("big", r)
        return r

    # ---- objects with extracted constructors and destructors
    def s_CompoundStmt(self, n):
        own = [c for st in n.ch if st.k == "DeclStmt" for c in st.ch if c.k == "VarDecl" and c.ty and self.dtor(c.ty)]
        if not own:
            return super().s_CompoundStmt(n)
        env = self.frames[-1].env
        for c in own:
            env.pop(c.ref, None)

        def destroy():
            for c in reversed(own):
                v = env.get(c.ref)
                v = v.get() if isinstance(v, (Cell, FieldCell)) else v
                if isinstance(v, Obj):
                    d = self.dtor(c.ty)
                    self.inlined.add(d.key())
                    self.run(d, v, [])
        try:
            super().s_CompoundStmt(n)
        except (sx._Break, sx._Continue, sx._Return):
            destroy()
            raise
        destroy()

    def dtor(self, ty):
        t = ty.replace("const ", "").replace("ROPTLIB::", "").strip()
        l = self.prog.fns.get((t, "~" + t)) if t.isidentifier() and t not in ("Element", "Variable", "Vector", "LinearOPE") else None
        return l[0] if l else None

    def construct(self, ty, n):
        t = ty.replace("const ", "").replace("ROPTLIB::", "").strip()
        l = [f for f in self.prog.fns.get((t, t), []) if len(f.params) == len(n.ch)]
        if len(l) != 1 or not l[0].inits and not l[0].params:
            return None
        f = l[0]
        o = Obj(t, self)
        a = self.args(n.ch)
        self.inlined.add(f.key())
        env = {}
        for (nm, pty, (pid, init)), x in zip(f.params, a):
            env[pid] = self.bindparam(pty, x)
        self.frames.append(sx.Frame(f, o, env))
        try:
            for i in f.inits:
                if i.name is None:
                    raise Unsupported("base initialiser of " + t)
                o.f[i.name] = self.eval(i.ch[0])
            self.stmt(f.body)
        except sx._Return:
            pass
        finally:
            self.frames.pop()
        return o

    def e_CXXConstructExpr(self, n):
        ty = (n.ty or "")
        if ty.replace("ROPTLIB::", "") in self.hooks.get("construct", ()):
            r = self.hooks["construct"][ty.replace("ROPTLIB::", "")](self, n)
            if r is not None:
                return r
        if ty.replace("ROPTLIB::", "") in self.construct_classes:
            r = self.construct(ty, n)
            if r is not None:
                return r
        if "pair<" in ty and len(n.ch) == 2:
            return tuple(x.get() if isinstance(x, (Cell, FieldCell)) else x for x in self.args(n.ch))
        if ty == "_Self" and len(n.ch) == 1:
            return val_(self.lv(n.ch[0]))
        if "iterator" in ty and not n.ch:
            return self.singular()
        if ("PARAMSMAP" in ty or "std::map" in ty) and len(n.ch) == 1:
            return self.eval(n.ch[0])        # maps are values here, never written
        return super().e_CXXConstructExpr(n)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def singular(self):
        from world import LIter
        return LIter(self, None, S.of(0))

    def newarray(self, ty, cnt):
        if ty in ("double", "realdp", "int", "integer"):
            return ZPtr(self, Buf(ZArr(self.newname("new"), (), None, "int" if ty in ("int", "integer") else "real"), "new[]", cnt))
        return super().newarray(ty, cnt)

    def e_CXXNewExpr(self, n):
        ty = n.ty.replace("ROPTLIB::", "").rstrip("*").strip()
        if not n.x and not n.ch and ty in ("double", "realdp", "int", "integer"):
            return ZPtr(self, Buf(ZArr(self.newname("new"), (), None, "int" if ty in ("int", "integer") else "real"), "new", S.of(1)))
        return super().e_CXXNewExpr(n)

    def e_CXXDeleteExpr(self, n):
        v = self.eval(n.ch[0])
        if isinstance(v, ZPtr):
            if v.buf.freed:
                self.goal(False, "%s is freed twice" % v.buf.name)
            v.buf.freed = True
        elif "delete" in self.hooks:
            self.hooks["delete"](self, v)
        return None

    def s_CXXTryStmt(self, n):
        self.stmt(n.ch[0])            # the allocations of the model succeed

    def callmethod(self, o, name, ref, n, qualified):
        if isinstance(o, (str, Opaque)) and name in ("c_str", "assign", "length", "size"):
            return o
        return super().callmethod(o, name, ref, n, qualified)

    def index(self, a, i):
        return super().index(a, i)


_Break, _Continue = sx._Break, sx._Continue


class DElemAPI(ElemAPI):
    """elements used as plain arrays of reals get a buffer"""

    def buf(self, rt, e, write):
        if e.arr is None:
            e.arr = Arr(None)
            e.arr.extra = Buf(ZArr(rt.newname("elem")), e.name or "element", e.r * e.c * e.num)
        if not isinstance(e.arr.extra, Buf):
            raise Unsupported("raw access to a matrix value")
        if write and e.arr.owners > 1:
            old = e.arr.extra
            e.detach()
            e.arr = Arr(None)
            e.arr.extra = Buf(old.a, old.name, old.n)
        return e.arr.extra

    def m_ObtainWriteEntireData(self, rt, e):
        if getattr(rt, "rawbuf", False) and (e.arr is None or isinstance(e.arr.extra, Buf)):
            e.dropfields()
            return ZPtr(rt, self.buf(rt, e, True))
        return super().m_ObtainWriteEntireData(rt, e)

    def m_ObtainWritePartialData(self, rt, e):
        if getattr(rt, "rawbuf", False) and (e.arr is None or isinstance(e.arr.extra, Buf)):
            e.dropfields()
            return ZPtr(rt, self.buf(rt, e, True))
        return super().m_ObtainWritePartialData(rt, e)

    def m_ObtainReadData(self, rt, e):
        if getattr(rt, "rawbuf", False) and (e.arr is None or isinstance(e.arr.extra, Buf)):
            return ZPtr(rt, self.buf(rt, e, False))
        return super().m_ObtainReadData(rt, e)


# ------------------------------------------------------------------ obligations
def reorder(invs):
    """the annotations with two neighbouring groups of loops of one function exchanged: all of them first, then the smallest groups"""
    fns = sorted({k[:2] for k in invs})
    cand = []
    for f in fns:
        n = 1 + max(k[2] for k in invs if k[:2] == f)
        if n > 5:
            continue
        for i in range(n):
            for j in range(i + 1, n):
                for k in range(j + 1, n + 1):
                    cand.append((0 if k - i == n else k - i, f, i, j, k))
    for _, f, i, j, k in sorted(cand):
        # loops i..j-1 and j..k-1 exchanged
        mp = {}
        for o in range(i, j):
            mp[o] = o + (k - j)
        for o in range(j, k):
            mp[o] = o - (j - i)
        yield {((key[0], key[1], mp.get(key[2], key[2])) if key[:2] == f else key): v for key, v in invs.items()}


def dvob(prop, oid, group="solv", maxpaths=400, timeout=150, invs=None, minok=1, mk=None):
    def deco(f):
        def custom(prog):
            t0 = time.time()
            out = attempt(prog, invs)
            if out["status"] != "refuted" or not invs:
                return out
            # the loops may stand in another order than the invariants name them (swapped branches): any annotation that
            # discharges every goal is a proof
            one = time.time() - t0
            for iv in reorder(invs):
                if time.time() - t0 + one > min(0.8 * timeout, one + 75):
                    break
                try:
                    alt = attempt(prog, iv, True)
                except Exception:
                    continue
                if alt["status"] == "discharged":
                    return alt
            return out

        def attempt(prog, invs, quick=False):
            mods = {}
            tot = 0
            stat = {"q": 0, "t": 0.0}

            state = {"discover": True, "cache": {}, "dirty": [False]}

            def mk1(rt):
                rt.mods = mods
                rt.nob = 0
                rt.discover, rt.qcache, rt.dirty = state["discover"], state["cache"], state["dirty"]
                if invs:
                    rt.invs.update(invs)
                if mk:
                    mk(rt)

            def body(rt):
                try:
                    f(rt)
                except PathDone:
                    pass
                finally:
                    stat["q"] += rt.solver.n
                    stat["t"] += rt.solver.t
            state["discover"] = bool(invs)
            for it in range(30):
                state["cache"], state["dirty"] = {}, [False]
                d = state["discover"]
                rs = explore(prog, body, maxpaths=maxpaths, mk=mk1, rtcls=DRT, quick=quick and not d)
                tot += 1
                state["discover"] = it > 0 and state["dirty"][0]
                if not d and (quick and rs and rs[-1].status not in ("ok", "infeasible") or not state["dirty"][0]):
                    break
            else:
                return {"status": "undecided", "msg": "the set of modified locations does not converge", "paths": 0, "ok": 0, "goals": 0,
                        "used": [], "inlined": [], "contracts": []}
            out = obm.summarise(rs, minok)
            out["z3_queries"] = stat["q"]
            out["z3_seconds"] = round(stat["t"], 2)
            return out
        for p in ([prop] if isinstance(prop, str) else prop):
            OBS.setdefault(p, []).append(Obl(p, oid, group, f, timeout=timeout, custom=custom))
        return f
    return deco
