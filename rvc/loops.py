"""Loops over raw entries: one symbolic iteration is executed, counters are closed by summation, the written entries
are turned into matrix terms (masks, selections, diagonal scalings, packings). Unbounded: no unrolling, the trip counts
stay symbolic. Everything that does not fit raises Unsupported (undecided, never a violation)."""
import itertools
import z3
from alg import *
import alg
import sx
from sx import *
import elemapi
from elemapi import Vec, HHR, TAU, diag_sqrt, diag_inverse, signof


# ---------------------------------------------------------------- S -> z3
def toz(s, real=False):
    def poly(p):
        r = z3.IntVal(0) if not real else z3.RealVal(0)
        for m, c in p.items():
            if not real and c.denominator != 1:
                raise Unsupported("fraction in index")
            t = z3.IntVal(int(c)) if not real else z3.RealVal(str(c))
            for k, e in m:
                if e < 0:
                    raise Unsupported("quotient in index")
                v = z3.Int("a%d" % k) if not real else z3.Real("a%d" % k)
                for _ in range(e):
                    t = t * v
            r = r + t
        return r
    # clear a common integer denominator
    if s.d != alg.P1:
        raise Unsupported("quotient in index")
    return poly(s.n)


def toz_scaled(s):
    den = 1
    for c in s.n.values():
        den = den * c.denominator // __import__("math").gcd(den, c.denominator)
    return toz(s * S.of(den)), den


def zc(c):
    """Cond -> z3"""
    if c.op in ("<", "<=", "==", "!="):
        a, b = c.a, c.b
        d = a - b
        e, _ = toz_scaled(d)
        return {"<": e < 0, "<=": e <= 0, "==": e == 0, "!=": e != 0}[c.op]
    raise Unsupported("condition in index reasoning")


class Q:
    """small integer queries"""

    def __init__(self, rt):
        self.rt = rt
        self.n = 0

    def base(self):
        out = []
        for c in self.rt.dimfacts:
            out.append(zc(c))
        for c in self.rt.pc:
            try:
                if c.op in ("<", "<=", "==", "!=") and isinstance(c.a, S) and isinstance(c.b, S) and \
                        all(C().atoms[k].isint and C().atoms[k].kind == "var" for k in (c.a - c.b).atoms()):
                    out.append(zc(c))
            except Unsupported:
                pass
        return out

    def unsat(self, cs):
        s = z3.Solver()
        s.set("timeout", 3000)
        for c in self.base() + list(cs):
            s.add(c)
        self.n += 1
        self.rt.nsmt = getattr(self.rt, "nsmt", 0) + 1
        r = s.check()
        if r == z3.unknown:
            raise Unsupported("index query undecided")
        return r == z3.unsat

    def valid(self, hyps, goal):
        return self.unsat(list(hyps) + [z3.Not(goal)])


def subst(s, vid, v):
    return s.subst(lambda k: v if k == vid else None)


def coeffs(s, vid):
    """s as polynomial in atom vid: {power: S}"""
    if s.d != alg.P1:
        if vid in S(s.d).atoms():
            raise Unsupported("quotient in counter")
    out = {}
    for m, c in s.n.items():
        e = dict(m).get(vid, 0)
        rest = tuple((k, x) for k, x in m if k != vid)
        out[e] = out.get(e, S({})) + S({rest: c}, s.d)
    return out


def powersum(k, n):
    """sum_{t=0}^{n-1} t^k"""
    if k == 0:
        return n
    if k == 1:
        return n * (n - 1) / 2
    if k == 2:
        return n * (n - 1) * (2 * n - 1) / 6
    if k == 3:
        return (n * (n - 1) / 2) ** 2
    raise Unsupported("counter of high degree")


def sumover(delta, vid, lo, hi):
    """sum_{t=lo}^{hi-1} delta(t)"""
    r = S.of(0)
    for k, c in coeffs(delta, vid).items():
        if k < 0:
            raise Unsupported("counter increment with quotient")
        r = r + c * (powersum(k, hi) - powersum(k, lo))
    return r


class LoopCtx:
    def __init__(self, vid, var, lo, hi):
        self.vid, self.var, self.lo, self.hi = vid, var, lo, hi


class Event:
    __slots__ = ("arr", "off", "val", "dom", "guards", "ld", "order", "nest", "part")


class Guard:
    """condition evaluated inside a symbolic loop"""

    def __init__(self, cond):
        self.cond = cond

    def neg(self):
        return Guard(self.cond.neg())


class EntCell:
    def __init__(self, rt, dp, off):
        self.rt, self.dp, self.off = rt, dp, off

    def get(self):
        return self.rt.entget(self.dp, self.off)

    def set(self, v):
        self.rt.entset(self.dp, self.off, v)

    def addr(self):
        return DP(self.dp.arr, self.off, self.dp.w, self.dp.elem)

    def member(self, nm):
        if nm not in ("r", "i") or self.dp.elem is None or self.dp.elem.cplx is not True:
            raise Unsupported("member %s of an entry" % nm)
        return EntPart(self.rt, self.dp, self.off, nm)


class EntPart:
    """real or imaginary part of an entry of a complex element"""

    def __init__(self, rt, dp, off, part):
        self.rt, self.dp, self.off, self.part = rt, dp, off, part

    def get(self):
        return self.rt.entgetpart(self.dp, self.off, self.part)

    def set(self, v):
        self.rt.entset(self.dp, self.off, v, self.part)


class Part:
    """payload of a part atom: real or imaginary part of entries of P"""

    def __init__(self, P, part):
        self.P, self.part = P, part


class CP:
    """payload of a complex entry atom made of parts.  mode: z / zc entry of P and its conjugate; p / pc the complex number
    (v[k], v[k+1]) of a real vector and its conjugate; r / i the numbers v[k] and v[k]*sqrt(-1)"""

    def __init__(self, P, mode):
        self.P, self.mode = P, mode


class Small:
    """short vector with known entries"""

    def __init__(self, n):
        self.e = [None] * n


class LoopRT(RT):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.loops = []
        self.guards = []
        self.events = []
        self.reads = []
        self.dimfacts = []
        self.ents = {}       # atom id -> (payload, off, r, c)
        self.q = Q(self)
        self.loop = LoopRT.symloop
        self.evorder = 0
        self.nestid = 0
        self.segs = []

    def newarray(self, ty, cnt):
        if ty in ("realdp", "double", "const realdp") and "newarray" not in self.hooks:
            n = S.of(self.tonum(cnt))
            from elemapi import fresh_rect
            a = Arr(M.sym(fresh_rect("garbage", n, S.of(1))))
            return DP(a, w=True)
        return super().newarray(ty, cnt)

    # ---------------- entries
    def dpindex(self, a, i):
        if not isinstance(i, S):
            raise Unsupported("index")
        return EntCell(self, a, a.off + i)

    def payload(self, arr):
        m = arr.m
        if m is None:
            raise Fail("read of storage that was never written")
        return m

    def shape(self, arr, elem):
        m = arr.m
        if isinstance(m, Vec):
            return m.D.r, S.of(1)
        if isinstance(m, Small):
            return S.of(len(m.e)), S.of(1)
        if isinstance(m, TAU):
            return m.A.c, S.of(1)
        return m.r, m.c

    def entget(self, dp, off):
        arr = dp.arr
        m = self.payload(arr)
        if isinstance(m, Small):
            if off.isconst():
                k = int(off.cval())
                if not 0 <= k < len(m.e):
                    raise Fail("entry %d of a vector of length %d" % (k, len(m.e)))
                if m.e[k] is None:
                    raise Fail("entry %d is read before it is written" % k)
                return m.e[k]
            raise Unsupported("symbolic index into a short vector")
        # forwarded from this iteration?
        for ev in reversed(self.events):
            if ev.arr is arr and ev.off.eq(off) and ev.guards == self.guards[:len(ev.guards)]:
                if ev.part is not None:
                    raise Unsupported("entry read after one of its parts was written")
                return ev.val
        if isinstance(m, M) and is1(m.r) and is1(m.c):
            if off.iszero():
                return m.scalar()
            raise Fail("index %s into a 1 x 1 element" % off)
        a = alg.atom("ent", "ent%d" % self.payid(m), (off,))
        self.ents[a.id] = (m, off)
        if self.loops:
            self.reads.append((arr, off, [(l.vid, l.lo, l.hi) for l in self.loops], len(self.events)))
        return S.atom(a)

    def entgetpart(self, dp, off, part):
        arr = dp.arr
        m = self.payload(arr)
        if isinstance(m, Small) or isinstance(m, Vec):
            raise Unsupported("part of an entry of %r" % (m,))
        for ev in reversed(self.events):
            if ev.arr is arr and ev.off.eq(off) and ev.guards == self.guards[:len(ev.guards)]:
                if ev.part is None:
                    raise Unsupported("part of an entry read after the entry was written")
                if ev.part == part:
                    return ev.val
        a = alg.atom("ent", "ent%d%s" % (self.payid(m), part), (off,))
        self.ents[a.id] = (Part(m, part), off)
        if self.loops:
            self.reads.append((arr, off, [(l.vid, l.lo, l.hi) for l in self.loops], len(self.events), part))
        return S.atom(a)

    def payid(self, m):
        for i, x in enumerate(self.pays):
            if x is m or (isinstance(x, M) and isinstance(m, M) and x.same(m)):
                return i
        self.pays.append(m)
        return len(self.pays) - 1

    @property
    def pays(self):
        if not hasattr(self, "_pays"):
            self._pays = []
        return self._pays

    def entset(self, dp, off, v, part=None):
        arr = dp.arr
        if isinstance(v, Cplx):
            raise Unsupported("complex entry")
        v = self.tonum(v)
        if not isinstance(v, S):
            raise Unsupported("entry value %r" % (v,))
        m = arr.m
        e = dp.elem
        if not self.loops and part is not None:
            raise Unsupported("part of a single entry written")
        if not self.loops:
            ln = None
            if e is not None:
                L = e.r * e.c * e.num
                if L.isconst() and L.cval() <= 64:
                    ln = int(L.cval())
            if off.isconst() and ln is not None:
                if not isinstance(m, Small):
                    sm = Small(ln)
                    if isinstance(m, M) and is1(m.r) and is1(m.c) and not self.isgarbage(m):
                        sm.e[0] = m.scalar()
                    elif isinstance(m, M) and not self.isgarbage(m):
                        raise Unsupported("entry write into a short matrix")
                    arr.m = m = sm
                k = int(off.cval())
                if not 0 <= k < ln:
                    raise Fail("write of entry %d of a vector of length %d" % (k, ln))
                m.e[k] = v
                if ln == 1:
                    arr.m = M.eye(1).scale(v)
                return
            self.nestid += 1
        ev = Event()
        ev.arr, ev.off, ev.val, ev.part = arr, off, v, part
        ev.dom = [(l.vid, l.lo, l.hi) for l in self.loops]
        ev.guards = list(self.guards)
        ev.order = self.evorder
        ev.nest = self.nestid
        self.evorder += 1
        if e is not None and arr.owners > 1:
            raise Fail("write through to storage that another element still shares")
        self.events.append(ev)
        if not self.loops:
            self.flush()

    def isgarbage(self, m):
        m = normal(m)
        return len(m.t) == 1 and all(len(w) == 1 and C().syms[w[0] >> 1].name.startswith("garbage") for w in m.t)

    def e_ConditionalOperator(self, n):
        # (W(i,i) >= 0) ? 1 : -1 inside an entry loop: the sign of a diagonal entry, kept as an entry of the diagonal sign matrix
        if self.loops:
            c = self.tocond(self.eval(n.ch[0]))
            f = self.fold(c) if isinstance(c, Cond) else c
            if f is None and isinstance(c, Cond) and c.op in ("<", "<=", "==", "!="):
                f = self.inddecide(c)
            if f is not None:
                return self.lv(n.ch[1] if f else n.ch[2])
            v = self.signvalue(c, n)
            if v is not None:
                return v
        return super().e_ConditionalOperator(n)

    def signvalue(self, c, n):
        if not isinstance(c, Cond) or c.op not in ("<", "<="):
            return None
        d = c.a - c.b
        if len(d.n) != 1 or d.d != alg.P1:
            return None
        (m, cf), = d.n.items()
        if len(m) != 1 or m[0][1] != 1 or m[0][0] not in self.ents:
            return None
        P, off = self.ents[m[0][0]]
        P = self.realdiag(P)
        y, z = self.tonum(self.eval(n.ch[1])), self.tonum(self.eval(n.ch[2]))
        if not (isinstance(y, S) and isinstance(z, S) and y.isconst() and z.isconst() and y.cval() == -z.cval()):
            return None
        neg = c.op == "<" and cf > 0        # condition is W < 0 (its negation W >= 0 otherwise)
        if not neg and not (c.op == "<=" and cf < 0):
            return None
        pr, pc = self.pshape(P)
        for l in self.loops:
            if off.eq(S({((l.vid, 1),): F1}) * (pr + 1)):
                G = signdiag(P.R if isinstance(P, HHR) else P)
                V = Vec(-G if neg else G)
                a = alg.atom("ent", "ent%d" % self.payid(V), (S({((l.vid, 1),): F1}),))
                self.ents[a.id] = (V, S({((l.vid, 1),): F1}))
                return S.atom(a) * y
        return None

    # ---------------- guarded if inside a symbolic loop
    def s_IfStmt(self, n):
        if not self.loops or (n.x and (n.x.get("init") or n.x.get("var"))):
            return super().s_IfStmt(n)
        c = self.tocond(self.eval(n.ch[0]))
        f = self.fold(c) if isinstance(c, Cond) else c
        if f is None and isinstance(c, Cond) and c.op in ("<", "<=", "==", "!="):
            f = self.inddecide(c)
        if f is not None:
            if f:
                self.stmt(n.ch[1])
            elif len(n.ch) > 2:
                self.stmt(n.ch[2])
            return
        if isinstance(c, Cond) and self.regions(n, c):
            return
        if not (isinstance(c, Cond) and c.op in ("<", "<=", "==", "!=")):
            raise Unsupported("branch inside a loop")
        env = self.frames[-1].env
        snap = {k: (v, v.v) for k, v in env.items() if isinstance(v, Cell)}
        self.guards.append(c)
        try:
            self.stmt(n.ch[1])
        finally:
            self.guards.pop()
        if len(n.ch) > 2:
            self.guards.append(c.neg())
            try:
                self.stmt(n.ch[2])
            finally:
                self.guards.pop()
        for k, (cell, v) in snap.items():
            if cell.v is not v and not (isinstance(cell.v, S) and isinstance(v, S) and cell.v.eq(v)):
                raise Unsupported("scalar assigned under a condition inside a loop")

    def regions(self, n, c):
        """a condition over comparisons of loop counters with bounds: the branches run on the rectangles where it is decided"""
        cuts = []

        def atoms(c):
            if c.op in ("and", "or"):
                return atoms(c.a) and atoms(c.b)
            if c.op == "not":
                return atoms(c.a)
            if c.op not in ("<", "<="):
                return False
            for l in self.loops:
                for x, y, s in ((c.a, c.b, 0 if c.op == "<" else 1), (c.b, c.a, 1 if c.op == "<" else 0)):
                    if isinstance(x, S) and isinstance(y, S) and x.eq(l.var) and not any(k.vid in y.atoms() for k in self.loops):
                        cuts.append((l, y + s))
                        return True
            return False
        if any(l.var is None for l in self.loops) or not atoms(c):
            return False
        bys = {}
        for l, y in cuts:
            b = bys.setdefault(id(l), (l, []))[1]
            if not any(y.eq(z) for z in b):
                b.append(y)
        parts = []
        for l, b in bys.values():
            if len(b) != 1:
                return False
            a1, _ = toz_scaled(b[0] - l.lo)
            a2, _ = toz_scaled(l.hi - b[0])
            if not self.q.valid([], z3.And(a1 >= 0, a2 >= 0)):
                return False
            # the ranges of the other counters must not depend on this one
            if any(l.vid in x.atoms() for k in self.loops for x in (k.lo, k.hi)):
                return False
            parts.append([(l, l.lo, b[0]), (l, b[0], l.hi)])
        env = self.frames[-1].env
        snap = {k: (v, v.v) for k, v in env.items() if isinstance(v, Cell)}
        for combo in itertools.product(*parts):
            old = [(l, l.lo, l.hi) for l, _, _ in combo]
            for l, lo, hi in combo:
                l.lo, l.hi = lo, hi
            try:
                v = self.condvalue(c)
                if v is None:
                    raise Unsupported("branch inside a loop")
                if v:
                    self.stmt(n.ch[1])
                elif len(n.ch) > 2:
                    self.stmt(n.ch[2])
            finally:
                for l, lo, hi in old:
                    l.lo, l.hi = lo, hi
        for k, (cell, v) in snap.items():
            if cell.v is not v and not (isinstance(cell.v, S) and isinstance(v, S) and cell.v.eq(v)):
                raise Unsupported("scalar assigned under a condition inside a loop")
        return True

    def condvalue(self, c):
        if c.op in ("and", "or"):
            a, b = self.condvalue(c.a), self.condvalue(c.b)
            if c.op == "and":
                return False if a is False or b is False else (None if a is None or b is None else True)
            return True if a or b else (None if a is None or b is None else False)
        if c.op == "not":
            a = self.condvalue(c.a)
            return None if a is None else not a
        return self.inddecide(c)

    def inddecide(self, c):
        """index condition decided by the loop domains"""
        try:
            d = c.a - c.b
            if not all(C().atoms[k].isint and C().atoms[k].kind in ("var", "loop") for k in d.atoms()):
                return None
            hy = self.domz()
            if self.q.valid(hy, zc(c)):
                return True
            if self.q.valid(hy, z3.Not(zc(c))):
                return False
        except Unsupported:
            return None
        return None

    def domz(self, loops=None):
        out = []
        for l in (self.loops if loops is None else loops):
            vid, lo, hi = (l.vid, l.lo, l.hi) if isinstance(l, LoopCtx) else l
            v = z3.Int("a%d" % vid)
            a, da = toz_scaled(lo)
            b, db = toz_scaled(hi)
            out += [v * da >= a, v * db < b]
        return out

    def decide(self, cond):
        if self.loops and isinstance(cond, Cond) and self.fold(cond) is None:
            d = self.inddecide(cond) if cond.op in ("<", "<=", "==", "!=") else None
            if d is not None:
                return d
            if cond.op in ("<", "<=", "==", "!=") and isinstance(cond.a, S) and isinstance(cond.b, S):
                if any(l.vid in (cond.a - cond.b).atoms() for l in self.loops) or \
                        any(k in self.ents for k in (cond.a - cond.b).atoms()):
                    raise Unsupported("data dependent branch inside a loop")
        return super().decide(cond)

    # ---------------- the loop rule
    def symloop(self, n, cond, inc, body):
        if cond is None or inc is None or cond.k != "BinaryOperator" or cond.op not in ("<", "<=", "!="):
            return False
        lhs = cond.ch[0]
        while lhs.k == "Cast":
            lhs = lhs.ch[0]
        if lhs.k != "DeclRefExpr":
            return False
        env = self.frames[-1].env
        vid = lhs.ref[1]
        if vid not in env or not isinstance(env[vid], Cell):
            return False
        cell = env[vid]
        lo = cell.v
        if not isinstance(lo, S):
            return False
        if not (inc.k == "UnaryOperator" and inc.op == "++" and inc.ch[0].k == "DeclRefExpr" and inc.ch[0].ref[1] == vid):
            if inc.k == "CompoundAssignOperator" and inc.op == "+=" and inc.ch[0].k == "DeclRefExpr" and \
                    inc.ch[0].ref[1] == vid and isinstance(self.eval(inc.ch[1]), S) and \
                    self.eval(inc.ch[1]).eq(1):
                pass
            else:
                return False
        hi = self.eval(cond.ch[1])
        if not isinstance(hi, S):
            return False
        if cond.op == "<=":
            hi = hi + 1
        if (hi - lo).isconst() and (hi - lo).cval() <= 12 and lo.isconst():
            return False
        self.loopassigned(body, env, vid)
        outer = not self.loops
        if outer:
            self.nestid += 1
        # carried scalars
        carried = self.carried(body, env, vid)
        for c in carried:
            if not isinstance(env[c].v, S):
                raise Unsupported("loop carried variable that is not a number")
        # lo <= hi
        hy = self.domz()
        a, _ = toz_scaled(hi - lo)
        if not self.q.valid(hy, a >= 0):
            raise Unsupported("loop range may be negative")
        at = alg.atom("loop", C().fresh("k"), (), isint=True)
        I = S.atom(at)
        ctx = LoopCtx(at.id, I, lo, hi)
        start = {c: env[c].v for c in carried}
        # phase 1: increments
        delta = {}
        if carried:
            syms = {c: S.atom(alg.atom("loop", C().fresh("c"), (), isint=True)) for c in carried}
            nev, nrd = len(self.events), len(self.reads)
            self.loops.append(ctx)
            cell.v = I
            for c in carried:
                env[c].v = syms[c]
            try:
                self.bodyrun(body)
            finally:
                self.loops.pop()
            del self.events[nev:]
            del self.reads[nrd:]
            for c in carried:
                d = env[c].v - syms[c]
                ids = d.atoms()
                if any(next(iter(s.atoms())) in ids for s in syms.values()):
                    raise Unsupported("loop carried variable is not a counter")
                if any(k in self.ents for k in ids):
                    raise Unsupported("accumulation over entries")
                delta[c] = d
        self.loops.append(ctx)
        cell.v = I
        for c in carried:
            env[c].v = start[c] + sumover(delta[c], ctx.vid, lo, I)
        try:
            self.bodyrun(body)
        finally:
            self.loops.pop()
        cell.v = hi
        for c in carried:
            env[c].v = start[c] + sumover(delta[c], ctx.vid, lo, hi)
        if outer:
            self.flush()
        return True

    def bodyrun(self, body):
        from sx import _Break, _Continue
        try:
            self.stmt(body)
        except (_Break, _Continue):
            raise Unsupported("break or continue in an entry loop")

    def loopassigned(self, body, env, vid):
        for x in body.walk():
            if x.k in ("CXXMemberCallExpr",) and x.ch[0].k == "MemberExpr" and x.ch[0].name not in (
                    "Getrow", "Getcol", "Getlength", "ObtainReadData", "Field", "Getiscomplex", "Getsize", "ObtainWritePartialData"):
                raise Unsupported("call of %s inside a symbolic loop" % x.ch[0].name)
            if x.k in ("ReturnStmt",):
                raise Unsupported("return inside a symbolic loop")

    def carried(self, body, env, vid):
        out = []
        for x in body.walk():
            t = None
            if x.k == "UnaryOperator" and x.op in ("++", "--"):
                t = x.ch[0]
            elif x.k in ("CompoundAssignOperator",) or (x.k == "BinaryOperator" and x.op == "="):
                t = x.ch[0]
            if t is not None and t.k == "DeclRefExpr" and t.ref[1] in env and t.ref[1] != vid:
                if isinstance(env[t.ref[1]], Cell) and t.ref[1] not in out:
                    # a variable that is always assigned before use inside the body is not carried, but is harmless
                    if env[t.ref[1]].v is sx.UNDEF:
                        continue
                    if isinstance(env[t.ref[1]].v, S) and self.assignedfirst(body, t.ref[1]):
                        env[t.ref[1]].v = sx.UNDEF      # its value after the loop is not tracked
                        continue
                    out.append(t.ref[1])
        # loop variables of inner loops declared outside
        return out

    def assignedfirst(self, body, vid):
        """every use of the variable in the loop body follows an unconditional plain assignment in the same innermost block"""
        def refs(n):
            return any(x.k == "DeclRefExpr" and x.ref and x.ref[1] == vid for x in n.walk())

        def block(n):
            if n.k != "CompoundStmt":
                if n.k in ("ForStmt",):
                    return all(not refs(c) for c in n.ch[:-1] if c is not None) and block(n.ch[-1])
                return assigns(n)
            use = [c for c in n.ch if refs(c)]
            if not use:
                return True
            if assigns(use[0]):
                return True
            if all(c.k == "ForStmt" for c in use):
                return all(block(c) for c in use)
            return False

        def assigns(n):
            return n.k == "BinaryOperator" and n.op == "=" and n.ch[0].k == "DeclRefExpr" and n.ch[0].ref[1] == vid and not refs(n.ch[1])
        try:
            return block(body)
        except Exception:
            return False

    # ---------------- writing the events back
    def flush(self):
        evs, self.events = self.events, []
        reads, self.reads = self.reads, []
        arrs = []
        for e in evs:
            if not any(a is e.arr for a in arrs):
                arrs.append(e.arr)
        for a in arrs:
            mine = [e for e in evs if e.arr is a]
            self.checkhazard(a, mine, [r for r in reads if r[0] is a], evs)
            self.apply(a, self.mergeparts(mine))

    # ---------------- real and imaginary parts
    def partof(self, val):
        return {self.ents[k][0].part for k in val.atoms() if k in self.ents and isinstance(self.ents[k][0], Part)}

    def mergeparts(self, evs):
        """writes of the real and of the imaginary part of the same entries become one write of complex entries"""
        if not any(e.part is not None or self.partof(e.val) for e in evs):
            return evs
        out, used = [], set()
        for i, e in enumerate(evs):
            if i in used:
                continue
            mate = None
            for j in range(i + 1, len(evs)):
                o = evs[j]
                if j in used or o.nest != e.nest or o.guards != e.guards or [x[0] for x in o.dom] != [x[0] for x in e.dom]:
                    continue
                if e.part is not None:
                    if o.part is not None and o.part != e.part and o.off.eq(e.off):
                        mate = j
                        break
                elif o.part is None and self.partof(o.val) and (o.off - e.off).eq(1):
                    mate = j
                    break
            n = Event()
            for a in ("arr", "off", "val", "dom", "guards", "order", "nest", "part"):
                setattr(n, a, getattr(e, a))
            if e.part is not None:
                if mate is None:
                    raise Unsupported("only one part of complex entries is written")
                re, im = (e, evs[mate]) if e.part == "r" else (evs[mate], e)
                n.val, n.part = self.combine(re.val, im.val), None
            elif not self.partof(e.val):
                out.append(e)
                continue
            elif mate is not None:
                n.val, n.part = self.combine(e.val, evs[mate].val), "c"
            else:
                ps = self.partof(e.val)
                if len(ps) != 1:
                    raise Unsupported("real and imaginary parts mixed")
                n.part = ps.pop()
                n.val = self.combine(e.val, S.of(0)) if n.part == "r" else self.combine(S.of(0), e.val)
            if mate is not None:
                used.add(mate)
            out.append(n)
        return out

    def centry(self, P, mode, off):
        if not hasattr(self, "_cps"):
            self._cps = {}
        k = (self.payid(P), mode)
        if k not in self._cps:
            self._cps[k] = CP(P, mode)
        a = alg.atom("ent", "ent%d%s" % k, (off,))
        self.ents[a.id] = (self._cps[k], off)
        return S.atom(a)

    def combine(self, re, im):
        """the complex value re + i im as a combination of complex entries and their conjugates"""
        zs, vs = [], []     # [payload, off, rest, cre, cim], [payload, off, rest, c, slot]
        for slot, val in (("r", re), ("i", im)):
            if val.d != alg.P1:
                raise Unsupported("quotient of entries")
            for m, cf in val.n.items():
                pa = [k for k, e in m if k in self.ents and isinstance(self.ents[k][0], Part)]
                va = [k for k, e in m if k in self.ents and isinstance(self.ents[k][0], M)]
                if len(pa) + len(va) != 1 or dict(m)[(pa + va)[0]] != 1:
                    raise Unsupported("value of a complex entry")
                k = (pa + va)[0]
                rest = S({tuple(x for x in m if x[0] != k): F1})
                P, off = self.ents[k]
                if pa:
                    if P.part != slot:
                        raise Unsupported("real and imaginary parts exchanged")
                    for z in zs:
                        if z[0] is P.P and z[1].eq(off) and z[2].eq(rest):
                            break
                    else:
                        z = [P.P, off, rest, 0, 0]
                        zs.append(z)
                    z[3 if slot == "r" else 4] += cf
                else:
                    pr, pc = self.pshape(P)
                    if not is1(pc) or is1(pr):
                        raise Unsupported("value of a complex entry")
                    vs.append([P, off, rest, cf, slot])
        out = S.of(0)
        half = S.const(1) / 2
        for P, off, rest, a, b in zs:
            for mode, c in (("z", a + b), ("zc", a - b)):
                if c:
                    out = out + self.centry(P, mode, off) * rest * S({(): c}) * half
        for v in [x for x in vs if x[4] == "r"]:
            m = [x for x in vs if x[4] == "i" and x[0] is v[0] and (x[1] - v[1]).eq(1) and x[2].eq(v[2])]
            if m:
                vs = [x for x in vs if x is not m[0]]
                for mode, c in (("p", v[3] + m[0][3]), ("pc", v[3] - m[0][3])):
                    if c:
                        out = out + self.centry(v[0], mode, v[1]) * v[2] * S({(): c}) * half
            else:
                out = out + self.centry(v[0], "r", v[1]) * v[2] * S({(): v[3]})
        for v in [x for x in vs if x[4] == "i"]:
            out = out + self.centry(v[0], "i", v[1]) * v[2] * S({(): v[3]})
        return out

    def decode(self, off, r, c, dom):
        """off = row + col * r with 0 <= row < r"""
        if is1(c):
            return off, S.of(0)
        row, col = S.of(0), S.of(0)
        if r.d != alg.P1 or len(r.n) != 1:
            # general leading dimension: try coefficient matching on each loop variable
            raise Unsupported("leading dimension %s" % r)
        (rm, rc), = r.n.items()
        for m, cf in off.n.items():
            q = alg._mmul(m, tuple((k, -e) for k, e in rm))
            qc = cf / rc
            if all(e > 0 for _, e in q) and qc.denominator == 1:
                col = col + S({q: qc})
            else:
                row = row + S({m: cf})
        hy = self.domz(dom)
        zr, _ = toz_scaled(row)
        zh, _ = toz_scaled(r - row)
        if not self.q.valid(hy, z3.And(zr >= 0, zh > 0)):
            # constant leading dimension etc.
            raise Unsupported("cannot decode offset %s" % off)
        return row, col

    def checkhazard(self, arr, evs, reads, allev):
        r, c = self.shape(arr, None)
        for (a, off, dom, pos, *part) in reads:
            for e in evs:
                if part and e.part is not None and e.part != part[0]:
                    continue        # the other part of the entries
                # iterations (read) and (write, primed)
                ren = {}
                for vid, lo, hi in e.dom:
                    ren[vid] = S.atom(alg.atom("loop", C().fresh("w"), (), isint=True))

                def rn(s):
                    return s.subst(lambda k: ren.get(k))
                edom = [(next(iter(ren[v].atoms())), rn(lo), rn(hi)) for v, lo, hi in e.dom]
                hy = self.domz(dom) + self.domz(edom)
                # order: shared outer loops
                shared = [v for v, _, _ in e.dom if any(v == x[0] for x in dom)]
                lex = []
                pre = []
                for v in shared:
                    zv, zw = z3.Int("a%d" % v), z3.Int("a%d" % next(iter(ren[v].atoms())))
                    lex.append(z3.And(pre + [zw < zv]))
                    pre = pre + [zw == zv]
                # same shared iteration and the write comes earlier in the text (not forwarded)
                if allev.index(e) < pos:
                    lex.append(z3.And(pre) if pre else z3.BoolVal(True))
                if not lex:
                    continue
                try:
                    r1, c1 = self.decode(off, r, c, dom)
                    r2, c2 = self.decode(rn(e.off), r, c, edom)
                    eqs = [zc(Cond("==", r1, r2)), zc(Cond("==", c1, c2))]
                except Unsupported:
                    eqs = [zc(Cond("==", off, rn(e.off)))]
                if not self.q.unsat(hy + eqs + [z3.Or(lex)]):
                    raise Unsupported("loop reads entries written by an earlier iteration")

    def apply(self, arr, evs):
        m = arr.m
        r, c = self.shape(arr, None)
        if isinstance(m, (HHR, TAU)):
            # entries of a private copy of the Householder factors: keep as garbage-free opaque
            raise Unsupported("write into Householder factors")
        if is1(c) and not is1(r):
            return self.applyvec(arr, evs, r)
        cells = self.cells(evs, r, c)
        A0 = m if isinstance(m, M) else None
        out = M.zero(r, c)
        whole = []
        for cell in cells:
            if cell[4] == "D":      # a square block written by one statement needs no splitting along its diagonal
                full = cell[:4] + (None,)
                try:
                    ev, mp = self.covering(evs, full, r, c)
                    if ev is not None and not isinstance(ev, tuple) and not ev.guards:
                        out = out + self.cellvalue(full, ev, mp, A0, r, c)
                        whole.append(cell[:4])
                        continue
                except Unsupported:
                    pass
            if any(all(x.eq(y) for x, y in zip(w, cell)) for w in whole):
                continue
            ev, mp = self.covering(evs, cell, r, c)
            out = out + self.cellvalue(cell, ev, mp, A0, r, c)
        arr.m = fold(normal(out))

    # cells: (r0, r1, c0, c1, kind) kind in None,'D','L','U'
    def cells(self, evs, r, c):
        rc, cc = [S.of(0), r], [S.of(0), c]

        def add(lst, v):
            if not any(x.eq(v) for x in lst):
                lst.append(v)
        for e in evs:
            row, col = self.decode(e.off, r, c, e.dom)
            for v, lo, hi in e.dom:
                inner = [x[0] for x in e.dom]
                for expr, lst in ((row, rc), (col, cc)):
                    if v in expr.atoms():
                        sh = expr - S({((v, 1),): F1})
                        for b in (lo, hi):
                            if not any(k in inner for k in (b + sh).atoms()):
                                add(lst, b + sh)
            # constant coordinates
            ids = [x[0] for x in e.dom]
            if not any(k in ids for k in row.atoms()):
                add(rc, row)
                add(rc, row + 1)
            if not any(k in ids for k in col.atoms()):
                add(cc, col)
                add(cc, col + 1)
        rc, cc = self.sortcuts(rc), self.sortcuts(cc)
        out = []
        for i in range(len(rc) - 1):
            for j in range(len(cc) - 1):
                if rc[i].eq(cc[j]) and rc[i + 1].eq(cc[j + 1]) and not (rc[i + 1] - rc[i]).eq(1):
                    for k in "DLU":
                        out.append((rc[i], rc[i + 1], cc[j], cc[j + 1], k))
                else:
                    out.append((rc[i], rc[i + 1], cc[j], cc[j + 1], None))
        return out

    def sortcuts(self, lst):
        out = []
        for v in lst:
            k = 0
            while k < len(out):
                a, _ = toz_scaled(out[k] - v)
                if self.q.valid([], a >= 0):
                    break
                if not self.q.valid([], a <= 0):
                    raise Unsupported("block boundaries cannot be ordered")
                k += 1
            if k < len(out) and out[k].eq(v):
                continue
            out.insert(k, v)
        # drop boundaries that coincide
        res = []
        for v in out:
            if res:
                a, _ = toz_scaled(v - res[-1])
                if self.q.valid([], a == 0):
                    continue
            res.append(v)
        return res

    def solve(self, e, r, c):
        """loop variables in terms of (row, col) atoms; returns (map vid->S, R, Cc, extra equalities)"""
        row, col = self.decode(e.off, r, c, e.dom)
        R = S.atom(alg.atom("loop", "@r", (), isint=True))
        K = S.atom(alg.atom("loop", "@c", (), isint=True))
        mp, eqs = {}, []
        ids = [x[0] for x in e.dom]
        pend = [(row, R), (col, K)]
        for expr, t in pend:
            vs = [v for v in ids if v in expr.atoms()]
            free = [v for v in vs if v not in mp]
            if len(free) == 1 and len(vs) == 1 and coeffs(expr, free[0]).get(1, S.of(0)).eq(1) and \
                    max(coeffs(expr, free[0])) == 1:
                mp[free[0]] = t - (expr - S({((free[0], 1),): F1}))
            else:
                if free:
                    raise Unsupported("address is not affine in the loop variables")
                eqs.append((expr, t))
        for v in ids:
            if v not in mp:
                raise Unsupported("entry written repeatedly")
        f = lambda s: s.subst(lambda k: mp.get(k))
        eqs = [(f(a), b) for a, b in eqs]
        return mp, R, K, eqs

    def cellz(self, cell, R, K):
        r0, r1, c0, c1, kind = cell
        out = [zc(Cond("<=", r0, R)), zc(Cond("<", R, r1)), zc(Cond("<=", c0, K)), zc(Cond("<", K, c1))]
        if kind == "D":
            out.append(zc(Cond("==", R - r0, K - c0)))
        if kind == "L":
            out.append(zc(Cond("<", K - c0, R - r0)))
        if kind == "U":
            out.append(zc(Cond("<", R - r0, K - c0)))
        return out

    def covering(self, evs, cell, r, c):
        hit = []
        for e in evs:
            mp, R, K, eqs = self.solve(e, r, c)
            f = lambda s: s.subst(lambda k: mp.get(k))
            region = []
            for v, lo, hi in e.dom:
                t = mp[v]
                region += [zc(Cond("<=", f(lo), t)), zc(Cond("<", t, f(hi)))]
            for a, b in eqs:
                region.append(zc(Cond("==", a, b)))
            hy = self.cellz(cell, R, K)
            if self.q.unsat(hy + region):
                continue
            if not self.q.valid(hy, z3.And(region) if region else z3.BoolVal(True)):
                raise Unsupported("loop writes part of a block")
            hit.append((e, mp))
        if not hit:
            return None, None
        if len(hit) > 1:
            nests = {h[0].nest for h in hit}
            for a in hit:
                for b in hit:
                    if a[0].nest == b[0].nest and a is not b:
                        if not (set(a[1]) == set(b[1]) and all(a[1][k].eq(b[1][k]) for k in a[1])):
                            raise Unsupported("entries written by two statements of one loop nest")
            last = hit[-1]
            if last[0].guards:
                # ite chains
                if len(hit) == 2 and len(hit[0][0].guards) == 1 and len(last[0].guards) == 1:
                    g1, g2 = hit[0][0].guards[0], last[0].guards[0]
                    n = g1.neg()
                    if n.op == g2.op and n.a is g2.a or (n.op == g2.op and n.a.eq(g2.a) and n.b.eq(g2.b)):
                        return ("ite", hit[0], last), None
                if len(hit) == 2 and not hit[0][0].guards and hit[0][0].nest == last[0].nest:
                    return ("flip", hit[0], last), None
                raise Unsupported("conditional rewrite of entries")
            return last
        return hit[0]

    def block(self, P, a0, a1, b0, b1):
        api = self.elemapi
        Er = api.sel(P.r, a0, a1 - 1)
        Ec = api.sel(P.c, b0, b1 - 1)
        return Er.T * P * Ec

    def cellvalue(self, cell, ev, mp, A0, r, c):
        r0, r1, c0, c1, kind = cell
        api = self.elemapi
        k, l = r1 - r0, c1 - c0
        Er, Ec = api.sel(r, r0, r1 - 1), api.sel(c, c0, c1 - 1)
        if ev is None:
            if A0 is None:
                raise Unsupported("partial overwrite")
            B = self.block(A0, r0, r1, c0, c1)
            return Er * mask(kind, B) * Ec.T
        if isinstance(ev, tuple) and ev[0] == "flip":
            # written, then negated where the guard holds
            (e1, mp), (e2, _) = ev[1], ev[2]
            f = lambda s: s.subst(lambda q: mp.get(q))
            B, B2 = self.linear(e1.val, f, cell, e1.dom, mp), self.linear(e2.val, f, cell, e2.dom, mp)
            if len(e2.guards) != 1 or not (B + B2).iszero() or kind is not None and kind not in "DLU":
                raise Unsupported("conditional entries other than sign flips")
            side, G = self.signguard(e2.guards[0], f, cell)
            return Er * mask(kind, G * B if side == "r" else B * G) * Ec.T
        if isinstance(ev, tuple):
            raise Unsupported("two sided conditional entries")
        f = lambda s: s.subst(lambda q: mp.get(q))
        B = self.linear(ev.val, f, cell, ev.dom, mp)
        if ev.guards:
            if len(ev.guards) > 1:
                raise Unsupported("nested conditions")
            if A0 is None:
                raise Unsupported("conditional overwrite")
            old = self.block(A0, r0, r1, c0, c1)
            if not (B + old).iszero() or kind is not None and kind not in "DLU":
                raise Unsupported("conditional entries other than sign flips")
            side, G = self.signguard(ev.guards[0], f, cell)
            B = G * old if side == "r" else old * G
        return Er * mask(kind, B) * Ec.T

    def signguard(self, g, f, cell):
        """guard ent(W,k,k) < 0 with k the row or the column of the cell"""
        r0, r1, c0, c1, kind = cell
        if g.op not in ("<", "<="):
            raise Unsupported("condition %s" % g)
        d = g.a - g.b
        if g.op == "<=":
            raise Unsupported("condition %s" % g)
        if len(d.n) != 1 or d.d != alg.P1:
            raise Unsupported("condition %s" % g)
        (m, cf), = d.n.items()
        if len(m) != 1 or m[0][1] != 1 or m[0][0] not in self.ents:
            raise Unsupported("condition %s" % g)
        P, off = self.ents[m[0][0]]
        P = self.realdiag(P)
        pr, pc = self.pshape(P)
        off = f(off)
        R = S.atom(alg.atom("loop", "@r", (), isint=True))
        K = S.atom(alg.atom("loop", "@c", (), isint=True))
        dom = []
        side = None
        for t, nm, a0, a1 in ((R, "r", r0, r1), (K, "c", c0, c1)):
            if off.eq((t - a0) * (pr + 1)):
                side = nm
        if side is None:
            raise Unsupported("condition %s" % g)
        if isinstance(P, HHR):
            G = signdiag(P.R)
        elif isinstance(P, M):
            G = signdiag(P)
        else:
            raise Unsupported("condition")
        need = (r1 - r0) if side == "r" else (c1 - c0)
        if not G.r.eq(need):
            raise Unsupported("sign block size")
        if cf < 0:
            # condition is W_kk > 0: flips the positive ones
            G = -G
        return side, G

    def realdiag(self, P):
        """the diagonal of the R factor is real"""
        if isinstance(P, Part):
            if P.part == "r" and isinstance(P.P, HHR):
                return P.P
            if P.part == "r" and isinstance(P.P, M) and len(P.P.t) == 1:
                (w, c), = P.P.t.items()
                sy = C().syms[w[0] >> 1] if len(w) == 1 else None
                if sy is not None and not (w[0] & 1) and sy.defn and sy.defn[0] in ("R", "sgnR"):
                    return P.P
            raise Unsupported("sign of a part of a complex entry")
        return P

    def pshape(self, P):
        if isinstance(P, (CP, Part)):
            P = P.P
        if isinstance(P, Vec):
            return P.D.r, S.of(1)
        if isinstance(P, TAU):
            return P.A.c, S.of(1)
        return P.r, P.c

    def linear(self, val, f, cell, dom, mp):
        """value of the cell as a matrix of the size of the block"""
        r0, r1, c0, c1, kind = cell
        k, l = r1 - r0, c1 - c0
        val = f(val) if False else val
        out = M.zero(k, l)
        if val.d != alg.P1:
            raise Unsupported("quotient of entries")
        R = S.atom(alg.atom("loop", "@r", (), isint=True))
        K = S.atom(alg.atom("loop", "@c", (), isint=True))
        for m, cf in val.n.items():
            coef = S({(): cf})
            ents = []
            for a, e in m:
                if a in self.ents:
                    ents.append((a, e))
                else:
                    s = f(S({((a, 1),): F1}))
                    if any(x in s.atoms() for x in (next(iter(R.atoms())), next(iter(K.atoms())))):
                        raise Unsupported("value depends on the index")
                    coef = coef * (s ** e)
            left, right = M.eye(k), M.eye(l)
            mat = None
            for a, e in ents:
                P, off = self.ents[a]
                off = f(off)
                if isinstance(P, Vec):
                    D = P.D
                    for t, nm, a0, cnt in ((R, "r", r0, k), (K, "c", c0, l)):
                        if off.eq(t - a0) and D.r.eq(cnt):
                            break
                    else:
                        raise Unsupported("index of the diagonal")
                    if e < 0:
                        D = diag_inverse(D)
                        e = -e
                    for _ in range(e):
                        if nm == "r":
                            left = left * D
                        else:
                            right = right * D
                    continue
                if mat is not None or e != 1:
                    raise Unsupported("product of entries")
                mat = self.entmat(P, off, cell, R, K)
            if mat is None:
                if kind == "D":
                    mat = M.eye(k)
                elif is1(k) and is1(l):
                    mat = M.eye(1)
                elif coef.iszero():
                    continue
                else:
                    raise Unsupported("constant entries")
            out = out + (left * mat * right).scale(coef)
        return normal(out)

    def entmat(self, P, off, cell, R, K):
        r0, r1, c0, c1, kind = cell
        k, l = r1 - r0, c1 - c0
        hh = None
        if isinstance(P, Part):
            raise Unsupported("part of a complex entry")
        cx, mode = C().bykind.get("cplxmode"), None
        if isinstance(P, CP):
            P, mode = P.P, P.mode
            if mode in ("p", "pc", "r", "i"):
                return self.unpack(P, off, cell, R, K, mode)
        if isinstance(P, HHR):
            hh = P      # only the upper triangle (the factor R) is known
        pr, pc = self.pshape(P)
        if hh is not None:
            P = hh.R

            def upper(cond, kinds):
                if kind not in kinds or not cond.iszero():
                    raise Unsupported("entries of Householder factors")
        if is1(pc) and not is1(pr) and hh is None and mode is None:
            return self.unpack(P, off, cell, R, K)
        # row/col decode under the cell
        hyp = [(next(iter(R.atoms())), r0, r1), (next(iter(K.atoms())), c0, c1)]
        if kind == "D":
            off = off.subst(lambda q: (R - r0 + c0) if q == next(iter(K.atoms())) else None)
        row, col = self.decode(off, pr, pc, hyp)
        a, b = row - R, col - K
        ok = lambda s: not any(x in s.atoms() for x in (next(iter(R.atoms())), next(iter(K.atoms()))))
        if kind == "D":
            a, b = row - R, col - R
            if ok(a) and ok(b):
                if hh is not None:
                    upper(a - b, "D")
                B = self.block(P, r0 + a, r1 + a, r0 + b, r1 + b)
                return B.T if mode == "zc" else B
            raise Unsupported("entry address")
        if ok(a) and ok(b):
            if mode == "zc":
                raise Unsupported("conjugate without transposition")
            if hh is not None:
                upper(r0 + a - c0 - b, "UD")
            return self.block(P, r0 + a, r1 + a, c0 + b, c1 + b)
        a, b = row - K, col - R
        if ok(a) and ok(b):
            if mode == "z" or mode is None and cx:
                raise Unsupported("transposition without conjugate")
            if hh is not None:
                upper(c0 + a - r0 - b, "L")
            return self.block(P, c0 + a, c1 + a, r0 + b, r1 + b).T
        raise Unsupported("entry address")

    # ---------------- packed vectors
    def applyvec(self, arr, evs, d):
        m = arr.m
        # plain elementwise vector loop?  v[i] = f(...)
        simple = self.tryvecmap(arr, evs, d)
        if simple is not None:
            arr.m = simple
            return
        if not isinstance(m, M):
            raise Unsupported("packing into %r" % (m,))
        out = m
        for e in evs:
            if e.guards:
                raise Unsupported("conditional packing")
            key, cell, mp, R, K = self.segment(e, d)
            if e.part in ("r", "i") and cell[4] != "D":
                raise Unsupported("one part of off-diagonal entries is packed")
            if e.part is None and C().bykind.get("cplxmode") and any(k in self.ents and not isinstance(self.ents[k][0], M) for k in e.val.atoms()):
                raise Unsupported("packing of complex entries")
            B = self.linear(e.val, lambda s: s.subst(lambda k: mp.get(k)), cell, e.dom, mp)
            out = out - segof(self, key, out, d) + pack(self, key, mask(cell[4], B), d)
        arr.m = normal(out)

    def tryvecmap(self, arr, evs, d):
        if len(evs) == 1 and len(evs[0].dom) == 1 and not evs[0].guards and evs[0].part is None:
            e = evs[0]
            v, lo, hi = e.dom[0]
            if e.off.eq(S({((v, 1),): F1})) and lo.iszero() and hi.eq(d):
                val = e.val
                if val.d == alg.P1:
                    D = M.zero(d, d)
                    for m, cf in val.n.items():
                        t = M.eye(d).scale(S({(): cf}))
                        for a, ex in m:
                            if a in self.ents:
                                P, off = self.ents[a]
                                if not isinstance(P, Vec) or not off.eq(S({((v, 1),): F1})):
                                    return None
                                X = P.D if ex > 0 else diag_inverse(P.D)
                                for _ in range(abs(ex)):
                                    t = t * X
                            else:
                                at = C().atoms[a]
                                if at.kind == "fn" and at.name == "sqrt" and len(at.args[0].n) == 1:
                                    (mm, cc), = at.args[0].n.items()
                                    if len(mm) == 1 and mm[0][0] in self.ents and mm[0][1] == 1 and cc == 1:
                                        P, off = self.ents[mm[0][0]]
                                        if isinstance(P, Vec) and off.eq(S({((v, 1),): F1})):
                                            X = diag_sqrt(P.D)
                                            X = X if ex > 0 else diag_inverse(X)
                                            for _ in range(abs(ex)):
                                                t = t * X
                                            continue
                                    return None
                                if at.kind == "loop":
                                    return None
                                if any(q in self.ents for q in S.atom(at).atoms()):
                                    return None
                                t = t.scale(S.atom(at) ** ex)
                        D = D + t
                    if any(k in self.ents for k in val.atoms()) or not any(k == v for k in val.atoms()):
                        return Vec(normal(D))
        return None

    def segment(self, e, d):
        """canonical description of the packed segment written / read by an address over a loop nest"""
        if len(e.dom) not in (1, 2):
            raise Unsupported("packing nest")
        return self.segkey(e.off, e.dom, e.val, e.part)

    def segkey(self, off, dom, val=None, part=None):
        st = 2 if part == "c" else 1
        R = S.atom(alg.atom("loop", "@r", (), isint=True))
        K = S.atom(alg.atom("loop", "@c", (), isint=True))
        ids = [x[0] for x in dom]
        V = [S({((v, 1),): F1}) for v in ids]
        if len(ids) == 1:
            mp = {ids[0]: R}
            cell = (dom[0][1], dom[0][2], dom[0][1], dom[0][2], "D")
            addr = off.subst(lambda k: mp.get(k))
            start = off.subst(lambda k: dom[0][1] if k == ids[0] else None)
            if not (off.subst(lambda k: V[0] + 1 if k == ids[0] else None) - off).eq(st):
                raise Unsupported("packing is not consecutive")
            key = SegKey(addr, cell, start, (dom[0][2] - dom[0][1]) * st, part)
            return key, cell, mp, R, K
        (v1, lo1, hi1), (v2, lo2, hi2) = dom
        count = sumover(sumover(S.of(1), v2, lo2, hi2), v1, lo1, hi1)
        start = off.subst(lambda k: lo2.subst(lambda q: lo1 if q == v1 else None) if k == v2 else None)
        start = start.subst(lambda k: lo1 if k == v1 else None)
        # address must enumerate consecutive integers in iteration order
        step = off.subst(lambda k: (V[1] + 1) if k == v2 else None) - off
        if not step.eq(st):
            raise Unsupported("packing is not consecutive")
        nxt = off.subst(lambda k: lo2 if k == v2 else None).subst(lambda k: (V[0] + 1) if k == v1 else None)
        cnt2 = sumover(S.of(1), v2, lo2, hi2)
        cur = off.subst(lambda k: lo2 if k == v2 else None)
        if not (nxt - cur).eq(cnt2 * st):
            raise Unsupported("packing is not consecutive")
        if v1 in lo2.atoms() or v1 in hi2.atoms():
            # triangular: (row, col) = (v2, v1) strictly lower / with diagonal
            if lo2.eq(V[0] + 1) and hi2.eq(hi1) and lo1.iszero():
                mp = {v1: K, v2: R}
                cell = (S.of(0), hi1, S.of(0), hi1, "L")
            elif lo2.eq(V[0]) and hi2.eq(hi1) and lo1.iszero():
                mp = {v1: K, v2: R}
                cell = (S.of(0), hi1, S.of(0), hi1, "LD")
            else:
                raise Unsupported("packing region")
        else:
            mp = {v1: K, v2: R}
            cell = (lo2, hi2, lo1, hi1, None)
        addr = off.subst(lambda k: mp.get(k))
        return SegKey(addr, cell, start, count * st, part), cell, mp, R, K

    def unpack(self, P, off, cell, R, K, mode=None):
        """entries of a packed vector placed on a cell"""
        r0, r1, c0, c1, kind = cell
        part = {None: None, "p": "c", "pc": "c", "r": "r", "i": "i"}[mode]
        st = 2 if part == "c" else 1
        if part is None and C().bykind.get("cplxmode"):
            raise Unsupported("real vector into complex entries")
        if part in ("r", "i") and kind != "D":
            raise Unsupported("one part of off-diagonal entries is unpacked")
        k, l = r1 - r0, c1 - c0
        rid, kid = next(iter(R.atoms())), next(iter(K.atoms()))
        # the cell read transposed (upper triangle filled from the same address) is brought to the lower one
        tr = False
        c2 = cell
        o2 = off
        if kind == "U":
            c2 = (c0, c1, r0, r1, "L")
            o2 = off.subst(lambda q: K if q == rid else (R if q == kid else None))
            tr = True
        if kind is None and (off.subst(lambda q: K + 1 if q == kid else None) - off).eq(st) and not (off.subst(lambda q: R + 1 if q == rid else None) - off).eq(st):
            # the block is filled row by row: its transpose is filled column by column
            c2 = (c0, c1, r0, r1, None)
            o2 = off.subst(lambda q: K if q == rid else (R if q == kid else None))
            tr = True
        if kind == "D":
            o2 = off.subst(lambda q: (R - r0 + c0) if q == kid else None)
        if part == "c" and tr != (mode == "pc") and kind != "D":
            raise Unsupported("transposition and conjugation do not go together")
        if part == "c" and kind == "D" and mode == "pc":
            tr = True
        key = self.cellkey(o2, c2, R, K, part)
        out = M.zero(c2[1] - c2[0], c2[3] - c2[2])
        for w, s in normal(P).t.items():
            out = out + unpackword(self, key, M(P.r, P.c, {w: ONE}), c2).scale(s)
        return out.T if tr else out

    def cellkey(self, addr, cell, R, K, part=None):
        r0, r1, c0, c1, kind = cell
        st = 2 if part == "c" else 1
        rid, kid = next(iter(R.atoms())), next(iter(K.atoms()))
        if kind == "D":
            start = addr.subst(lambda q: r0 if q == rid else None)
            if not (addr.subst(lambda q: R + 1 if q == rid else None) - addr).eq(st):
                raise Unsupported("packing is not consecutive")
            return SegKey(addr, cell, start, (r1 - r0) * st, part)
        # column-major traversal: inner variable is the row
        lo2 = (K - c0 + r0 + 1) if kind == "L" else r0
        start = addr.subst(lambda q: lo2 if q == rid else None).subst(lambda q: c0 if q == kid else None)
        if kind == "L":
            n = r1 - r0
            count = n * (n - 1) / 2
            cnt2 = r1 - lo2
        else:
            count = (r1 - r0) * (c1 - c0)
            cnt2 = r1 - r0
        if not (addr.subst(lambda q: R + 1 if q == rid else None) - addr).eq(st):
            raise Unsupported("packing is not consecutive")
        cur = addr.subst(lambda q: lo2 if q == rid else None)
        nxt = cur.subst(lambda q: K + 1 if q == kid else None)
        if not (nxt - cur).eq(cnt2 * st):
            raise Unsupported("packing is not consecutive")
        return SegKey(addr, cell, start, count * st, part)


class SegKey:
    def __init__(self, addr, cell, start, count, part=None):
        self.addr, self.cell, self.start, self.count, self.part = addr, cell, start, count, part

    def same(self, o):
        """the same addresses in the same order, relative to the first row and column of the cell"""
        return (self.part == o.part and self.cell[4] == o.cell[4] and self.start.eq(o.start) and self.count.eq(o.count)
                and all((self.cell[i + 1] - self.cell[i]).eq(o.cell[i + 1] - o.cell[i]) for i in (0, 2))
                and self.local().eq(o.local()))

    def local(self):
        r, k = (alg.atom("loop", x, (), isint=True).id for x in ("@r", "@c"))
        r0, c0 = self.cell[0], self.cell[2]
        return self.addr.subst(lambda q: S({((r, 1),): F1}) + r0 if q == r else (S({((k, 1),): F1}) + c0 if q == k else None))

    def disjoint(self, o):
        # ranges are consecutive blocks; compared symbolically end-to-start along the chain of known segments
        return (self.start + self.count).eq(o.start) or (o.start + o.count).eq(self.start)

    def __repr__(self):
        return "[%s..+%s]" % (self.start, self.count)


def chain_disjoint(rt, a, b):
    """disjoint ranges, using dimension facts"""
    if a.disjoint(b):
        return True
    try:
        za, _ = toz_scaled(a.start + a.count - b.start)
        zb, _ = toz_scaled(b.start + b.count - a.start)
        return rt.q.valid([], z3.Or(za <= 0, zb <= 0))
    except Unsupported:
        return False


# ---------------------------------------------------------------- masks
def mask(kind, B):
    """strict lower / strict upper / diagonal part, linear per word; canonical letters Lo(w), Di(w)"""
    if kind is None:
        return B
    B = normal(B)
    if kind == "LD":
        return mask("L", B) + mask("D", B)
    out = M.zero(B.r, B.c)
    for w, s in B.t.items():
        out = out + maskword(kind, w, B.r).scale(s)
    return normal(out)


def fold(B):
    """Lo(w) + Lo(w)' + Di(w) = w for a (skew-)symmetric word w"""
    cx = C()
    for w in list(B.t):
        if len(w) != 1 or w[0] & 1 or w not in B.t:
            continue
        d = cx.syms[w[0] >> 1].defn
        if not d or d[0] != "Lo":
            continue
        bm = d[1]
        (bw, _), = bm.t.items()
        sg, bt = wT(bw)
        if bt != bw or len(bw) == 1:
            continue
        s = B.t[w]
        up = (w[0] ^ 1,)
        if up not in B.t or not B.t[up].eq(s if sg > 0 else -s):
            continue
        drop = M(B.r, B.c, {w: s, up: B.t[up]})
        if sg > 0 or cx.bykind.get("cplxmode"):
            di = [x for x in B.t if len(x) == 1 and cx.syms[x[0] >> 1].defn and cx.syms[x[0] >> 1].defn[0] == "Di" and cx.syms[x[0] >> 1].defn[1].same(bm)]
            if not di or not B.t[di[0]].eq(s):
                continue
            drop = drop + M(B.r, B.c, {di[0]: s})
        B = B - drop + bm.scale(s)
    return B


def tagsof(w):
    return C().syms[w[0] >> 1].tags if len(w) == 1 else set()


def maskword(kind, w, n):
    one = M(n, n, {w: ONE})
    if w == ():
        return one if kind == "D" else M.zero(n, n)
    if len(w) > 1:
        # diagonal factors scale rows and columns
        dg = [i for i, l in enumerate(w) if "diag" not in C().syms[l >> 1].tags]
        if not dg:
            return one if kind == "D" else M.zero(n, n)
        if dg and (dg[0] > 0 or dg[-1] < len(w) - 1):
            a, b = dg[0], dg[-1] + 1
            lft, rgt = M(n, n, {w[:a]: ONE}) if a else M.eye(n), M(n, n, {w[b:]: ONE}) if b < len(w) else M.eye(n)
            if all(lshape(l)[0].eq(n) and lshape(l)[1].eq(n) for l in w[:a] + w[b:]):
                return lft * maskword(kind, w[a:b], n) * rgt
    tg = tagsof(w)
    tr = len(w) == 1 and (w[0] & 1)
    if "diag" in tg:
        return one if kind == "D" else M.zero(n, n)
    if "slower" in tg:
        k = "U" if tr else "L"
        return one if kind == k else M.zero(n, n)
    if tg & {"upper", "lowerpos"}:
        isup = ("upper" in tg) != bool(tr)
        if kind == ("L" if isup else "U"):
            return M.zero(n, n)
        if kind != "D":
            return one - maskword("D", w, n)
    sg, wt = wT(w)
    base = w
    flip = False
    if wt < w:
        base, flip = wt, True       # w = sg * base'
    bm = M(n, n, {base: ONE})

    def setlo(z):
        z.tags.add("slower")

    def setdi(z):
        z.tags.add("diag")
        z.tags.add("dipart")
    Lo = M.sym(alg.opaque("Lo", (bm,), n, n, setup=setlo))
    sgb, bt = wT(base)
    if C().bykind.get("cplxmode"):
        # the diagonal of a skew-Hermitian matrix is imaginary, that of a general one is not symmetric
        Di = M.sym(alg.opaque("Di", (bm,), n, n, symm=sgb if bt == base else 0, setup=setdi))
    elif bt == base and sgb < 0:
        Di = M.zero(n, n)
    else:
        Di = M.sym(alg.opaque("Di", (bm,), n, n, symm=1, setup=setdi))
    if bt == base:
        Up = Lo.T.scale(sgb)
    else:
        Up = bm - Lo - Di
    if len(base) == 1 and bt == base:
        # (skew-)symmetric letter: split it everywhere
        cx = C()
        key = ("split", base)
        if key not in cx.bykind:
            cx.bykind[key] = []
            add_rule(base, Lo + Up + Di, both=False)
    if flip:
        r = {"L": Up.T, "U": Lo.T, "D": Di.T}[kind].scale(sg)
    else:
        r = {"L": Lo, "U": Up, "D": Di}[kind]
    return r


# ---------------------------------------------------------------- sign matrices
def signdiag(P):
    """diag(sign of the diagonal of P), P = scalar * sgn or an R factor"""
    P = normal(P)
    s = elemapi.isscalarid(P)
    if s is not None:
        if s.isconst():
            return M.eye(P.r).scale(1 if s.cval() >= 0 else -1)
        if len(s.n) == 1 and next(iter(s.n.values())) > 0 and all(C().atoms[k].pos for m in s.n for k, _ in m):
            return M.eye(P.r)
        raise Unsupported("sign of %s" % s)
    if len(P.t) == 1:
        (w, c), = P.t.items()
        if len(w) == 1:
            sy = C().syms[w[0] >> 1]
            posc = c.isconst() and c.cval() > 0 or (len(c.n) == 1 and next(iter(c.n.values())) > 0 and
                                                      all(C().atoms[k].nonneg for m in c.n for k, _ in m))
            if sy.defn and sy.defn[0] == "sgnR" and posc:
                return M.sym(sy)
            if sy.defn and sy.defn[0] == "R" and posc:
                return signof(sy.defn[1])
            if "upper" in sy.tags and posc:
                return elemapi.signof(P, "sgnD")
    raise Unsupported("sign of the diagonal of %s" % P)


# ---------------------------------------------------------------- packing letters
def pack(rt, key, B, d):
    """d x 1 vector that carries the entries of B (already masked) on the segment; linear"""
    out = M.zero(d, 1)
    for w, s in normal(B).t.items():
        bm = M(B.r, B.c, {w: ONE})
        # pack(unpack(v)) = segment of v
        if len(w) == 1:
            sy = C().syms[w[0] >> 1]
            if sy.defn and sy.defn[0].startswith("upk"):
                k2 = rt.segs[int(sy.defn[0][3:])]
                if not (w[0] & 1) and k2.same(key):
                    out = out + segof(rt, key, sy.defn[1], d).scale(s)
                    continue
        z = packletter(rt, key, bm, d)
        out = out + z.scale(s)
    return out


def segidx(rt, key):
    for i, k in enumerate(rt.segs):
        if k.same(key):
            return i
    rt.segs.append(key)
    return len(rt.segs) - 1


def packletter(rt, key, bm, d):
    i = segidx(rt, key)

    def setup(z):
        zl = letter(z)
        for s in list(C().syms):
            if s is z or not s.defn or not str(s.defn[0]).startswith("pk"):
                if s is not z:
                    continue
            k2 = rt.segs[int(s.defn[0][2:])]
            if k2.same(key):
                val = M.eye(1).scale(bm.dot(s.defn[1]))
            elif chain_disjoint(rt, k2, key):
                val = M.zero(1, 1)
            else:
                continue
            add_rule((letter(s, 1), zl), val)
    z = alg.opaque("pk%d" % i, (bm,), d, 1, setup=None)
    if "packed" not in z.tags:
        z.tags.add("packed")
        setup(z)
    return M.sym(z)


def segof(rt, key, v, d):
    """the part of v on the segment (linear); the segment that ends the vector is v minus the others"""
    out = M.zero(d, 1)
    i = segidx(rt, key)
    for w, s in normal(v).t.items():
        one = M(d, 1, {w: ONE})
        if len(w) == 1:
            sy = C().syms[w[0] >> 1]
            nm = str(sy.defn[0]) if sy.defn else ""
            if nm.startswith("pk") or nm.startswith("seg"):
                k2 = rt.segs[int(nm.lstrip("pkseg"))]
                if k2.same(key):
                    out = out + one.scale(s)
                    continue
                if chain_disjoint(rt, k2, key):
                    continue
                raise Unsupported("packed segments overlap")
        chain = None
        if (key.start + key.count).eq(d):
            chain = findchain(rt, key, S.of(0), [])
        if chain is not None:
            r = one
            for k in chain:
                r = r - M.sym(alg.opaque("seg%d" % segidx(rt, k), (one,), d, 1))
            out = out + r.scale(s)
        else:
            out = out + M.sym(alg.opaque("seg%d" % i, (one,), d, 1)).scale(s)
    return out


def findchain(rt, key, pos, acc):
    if pos.eq(key.start):
        return acc
    for k in rt.segs:
        if k.start.eq(pos) and not k.same(key) and not any(k is x for x in acc):
            r = findchain(rt, key, pos + k.count, acc + [k])
            if r is not None:
                return r
    return None


def unpackword(rt, key, v, cell):
    r0, r1, c0, c1, kind = cell
    k, l = r1 - r0, c1 - c0
    (w, s), = v.t.items()
    i = segidx(rt, key)
    if len(w) == 1:
        sy = C().syms[w[0] >> 1]
        if sy.defn and str(sy.defn[0]).startswith("pk"):
            k2 = rt.segs[int(sy.defn[0][2:])]
            if k2.same(key):
                return sy.defn[1]
            if chain_disjoint(rt, k2, key):
                return M.zero(k, l)
            raise Unsupported("packed segments overlap")

    def setup(z):
        if kind == "L":
            z.tags.add("slower")
        if kind == "D":
            z.tags.add("diag")
    sy = {"i": -1, "c": 0}.get(key.part, 1) if kind == "D" else 0
    return M.sym(alg.opaque("upk%d" % i, (v,), k, l, symm=sy, setup=setup))


# ---------------------------------------------------------------- BLAS / LAPACK on raw pointers
def _num(rt, a):
    if isinstance(a, Ptr):
        a = a.to
    while isinstance(a, (Cell, FieldCell)) or hasattr(a, "get") and not isinstance(a, (DP, Elem, Obj)):
        a = a.get()
    return a


def scal_(rt, a):
    cnt, al, x, inc = _num(rt, a[0]), _num(rt, a[1]), a[2], _num(rt, a[3])
    if isinstance(x, EntCell):
        x = x.addr()
    if not isinstance(x, DP):
        raise Unsupported("scal_")
    at = alg.atom("loop", C().fresh("b"), (), isint=True)
    outer = not rt.loops
    if outer:
        rt.nestid += 1
    rt.loops.append(LoopCtx(at.id, S.atom(at), S.of(0), cnt))
    try:
        off = x.off + S.atom(at) * inc
        rt.entset(x, off, rt.entget(x, off) * al)
    finally:
        rt.loops.pop()
    if outer:
        rt.flush()


def copy_(rt, a):
    cnt, x, ix, y, iy = _num(rt, a[0]), a[1], _num(rt, a[2]), a[3], _num(rt, a[4])
    at = alg.atom("loop", C().fresh("b"), (), isint=True)
    outer = not rt.loops
    if outer:
        rt.nestid += 1
    rt.loops.append(LoopCtx(at.id, S.atom(at), S.of(0), cnt))
    try:
        rt.entset(y, y.off + S.atom(at) * iy, rt.entget(x, x.off + S.atom(at) * ix))
    finally:
        rt.loops.pop()
    if outer:
        rt.flush()


def axpy_(rt, a):
    cnt, al, x, ix, y, iy = _num(rt, a[0]), _num(rt, a[1]), a[2], _num(rt, a[3]), a[4], _num(rt, a[5])
    at = alg.atom("loop", C().fresh("b"), (), isint=True)
    outer = not rt.loops
    if outer:
        rt.nestid += 1
    rt.loops.append(LoopCtx(at.id, S.atom(at), S.of(0), cnt))
    try:
        o = y.off + S.atom(at) * iy
        rt.entset(y, o, rt.entget(y, o) + al * rt.entget(x, x.off + S.atom(at) * ix))
    finally:
        rt.loops.pop()
    if outer:
        rt.flush()


def view(rt, dp, ld, r, c):
    """r x c block of the storage at a pointer"""
    m = dp.arr.m
    if isinstance(m, HHR):
        raise Unsupported("view of Householder factors")
    if not isinstance(m, M):
        raise Unsupported("view")
    if is1(m.c) and dp.off.iszero() and (m.r).eq(r * c) and not is1(c):
        return sx.reshape(m, r, c), None
    if not m.r.eq(ld) and not is1(c):
        raise Unsupported("leading dimension differs from the number of rows")
    row, col = rt.decode(dp.off, m.r, m.c, [])
    if row.iszero() and col.iszero() and r.eq(m.r) and c.eq(m.c):
        return m, (row, col)
    return rt.block(m, row, row + r, col, col + c), (row, col)


def setview(rt, dp, ld, r, c, B):
    if dp.arr.owners > 1:
        raise Fail("write through to storage that another element still shares")
    m = dp.arr.m
    row, col = rt.decode(dp.off, m.r, m.c, [])
    if row.iszero() and col.iszero() and r.eq(m.r) and c.eq(m.c):
        dp.arr.m = normal(B)
        return
    api = rt.elemapi
    Er, Ec = api.sel(m.r, row, row + r - 1), api.sel(m.c, col, col + c - 1)
    dp.arr.m = normal(m + Er * (B - Er.T * m * Ec) * Ec.T)


def gemm_(rt, a):
    ta, tb = _num(rt, a[0]), _num(rt, a[1])
    m, n, k, al = [_num(rt, x) for x in a[2:6]]
    A, lda, B, ldb, be, Cc, ldc = a[6], _num(rt, a[7]), a[8], _num(rt, a[9]), _num(rt, a[10]), a[11], _num(rt, a[12])
    Am, _ = view(rt, A, lda, *((m, k) if ta == "N" else (k, m)))
    Bm, _ = view(rt, B, ldb, *((k, n) if tb == "N" else (n, k)))
    P = ((Am if ta == "N" else Am.T) * (Bm if tb == "N" else Bm.T)).scale(al)
    if not be.iszero():
        old, _ = view(rt, Cc, ldc, m, n)
        P = P + old.scale(be)
    setview(rt, Cc, ldc, m, n, P)


def trsm_(rt, a):
    side, uplo, tr, diag = [_num(rt, x) for x in a[:4]]
    m, n, al = [_num(rt, x) for x in a[4:7]]
    A, B = a[7], a[9]
    pm = A.arr.m
    k = m if side == "L" else n
    if isinstance(pm, HHR) and A.off.iszero() and uplo == "U" and k.eq(pm.c):
        T = pm.R
    else:
        raise Unsupported("trsm_ on a general matrix")
    Bm, _ = view(rt, B, None if False else B.arr.m.r, m, n)
    Z = inverse(T)
    Z = Z if tr == "N" else Z.T
    setview(rt, B, None, m, n, (Z * Bm if side == "L" else Bm * Z).scale(al))


def dot_(rt, a):
    cnt, x, ix, y, iy = _num(rt, a[0]), a[1], _num(rt, a[2]), a[3], _num(rt, a[4])
    if ix.eq(1) and iy.eq(1) and x.off.iszero() and y.off.iszero():
        p, q = x.arr.m, y.arr.m
        if isinstance(p, M) and isinstance(q, M) and (p.r * p.c).eq(cnt):
            return p.dot(q)
    raise Unsupported("dot_")


def _norm(f):
    def g(rt, a):
        b = []
        for x in a:
            if isinstance(x, (Cell, FieldCell)):
                v = x.get()
                x = v if isinstance(v, (DP, S, str)) else x
            if isinstance(x, EntCell):
                x = x.addr()
            if isinstance(x, Ptr) and isinstance(x.to, EntCell):
                x = x.to.addr()
            b.append(x)
        return f(rt, b)
    return g


def gemv_(rt, a):
    """y <- al op(A) x + be y"""
    t, m, n, al, A, lda, x, ix, be, y, iy = _num(rt, a[0]), _num(rt, a[1]), _num(rt, a[2]), _num(rt, a[3]), a[4], _num(rt, a[5]), a[6], \
        _num(rt, a[7]), _num(rt, a[8]), a[9], _num(rt, a[10])
    if not (ix.eq(1) and iy.eq(1)):
        raise Unsupported("gemv_ with strides")
    one = S.of(1)
    Am, _ = view(rt, A, lda, m, n)
    if t in ("T", "C"):
        Am = Am.T
    k, r = (n, m) if t == "N" else (m, n)
    xm, _ = vview(rt, x, k)
    P = (Am * xm).scale(al)
    if not be.iszero():
        P = P + vview(rt, y, r)[0].scale(be)
    vset(rt, y, r, P)


def vview(rt, dp, n):
    """n x 1 segment of the storage at a pointer"""
    m = dp.arr.m
    if isinstance(m, M) and dp.off.iszero() and (m.r * m.c).eq(n):
        return sx.reshape(m, n, S.of(1)) if not is1(m.c) else m, None
    return view(rt, dp, None if not isinstance(m, M) else m.r, n, S.of(1))


def vset(rt, dp, n, B):
    m = dp.arr.m
    if dp.arr.owners > 1:
        raise Fail("write through to storage that another element still shares")
    if isinstance(m, M) and dp.off.iszero() and (m.r * m.c).eq(n):
        dp.arr.m = normal(B) if is1(m.c) else sx.reshape(normal(B), m.r, m.c)
        return
    setview(rt, dp, None if not isinstance(m, M) else m.r, n, S.of(1), B)


def ger_(rt, a):
    """A <- A + al x y'"""
    m, n, al, x, ix, y, iy, A, lda = _num(rt, a[0]), _num(rt, a[1]), _num(rt, a[2]), a[3], _num(rt, a[4]), a[5], _num(rt, a[6]), a[7], _num(rt, a[8])
    if not (ix.eq(1) and iy.eq(1)):
        raise Unsupported("ger_ with strides")
    Am, _ = view(rt, A, lda, m, n)
    xm, ym = vview(rt, x, m)[0], vview(rt, y, n)[0]
    setview(rt, A, lda, m, n, Am + (xm * ym.T).scale(al))


def larfx_(rt, a):
    """C <- (I - tau v v') C  or  C (I - tau v v')"""
    side, m, n, v, tau, Cc, ldc = _num(rt, a[0]), _num(rt, a[1]), _num(rt, a[2]), a[3], a[4], a[5], _num(rt, a[6])
    side = str(side).upper()
    k = m if side == "L" else n
    vm, _ = vview(rt, v, k)
    tau = rt.entget(tau, tau.off) if isinstance(tau, DP) else _num(rt, tau)
    Cm, _ = view(rt, Cc, ldc, m, n)
    if side == "L":
        Cm = Cm - (vm * (vm.T * Cm)).scale(tau)
    else:
        Cm = Cm - ((Cm * vm) * vm.T).scale(tau)
    setview(rt, Cc, ldc, m, n, Cm)


BLAS = {"larfx_": larfx_, "gemv_": gemv_, "ger_": ger_, "scal_": scal_, "copy_": copy_, "axpy_": axpy_, "gemm_": gemm_, "trsm_": trsm_, "dot_": dot_}

BLAS = {k: _norm(f) for k, f in BLAS.items()}
