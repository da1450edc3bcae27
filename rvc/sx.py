"""Symbolic execution of the extracted C++ bodies against contracts.

Every path of a function under contract is executed with symbolic inputs (symbolic dimensions, symbolic entries);
calls are replaced by the callee's contract when one is registered, private helpers are inlined from the extracted
source. Paths are enumerated by re-execution with a decision prefix."""
import sys
from fractions import Fraction
from alg import *
import alg
import cxx

sys.setrecursionlimit(10000)


class Unsupported(Exception):
    """the construct is outside the verifier's reach: obligation undecided, never a violation"""


class Infeasible(Exception):
    pass


class Fail(Exception):
    """an obligation that is false on this path (structural), or a residual that does not normalise to zero"""
    residual = None


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


# ------------------------------------------------------------------ conditions
class Cond:
    """op: '<' (a<b), '<=', '==', '!='; or 'b' boolean atom; 'and','or','not'"""
    __slots__ = ("op", "a", "b")

    def __init__(self, op, a=None, b=None):
        self.op, self.a, self.b = op, a, b

    def neg(self):
        if self.op == "<":
            return Cond("<=", self.b, self.a)
        if self.op == "<=":
            return Cond("<", self.b, self.a)
        if self.op == "==":
            return Cond("!=", self.a, self.b)
        if self.op == "!=":
            return Cond("==", self.a, self.b)
        if self.op == "not":
            return self.a
        return Cond("not", self)

    def __repr__(self):
        if self.op == "b":
            return str(self.a)
        if self.op == "not":
            return "!(%s)" % self.a
        return "(%s %s %s)" % (self.a, self.op, self.b)


def batom(name):
    return Cond("b", name)


# ------------------------------------------------------------------ C++ values
class Cell:
    __slots__ = ("v",)

    def __init__(self, v=None):
        self.v = v

    def get(self):
        return self.v

    def set(self, v):
        self.v = v


class FieldCell:
    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def get(self):
        return self.obj.getf(self.name)

    def set(self, v):
        self.obj.setf(self.name, v)


class Ptr:
    """pointer to a cell or to an object"""
    __slots__ = ("to",)

    def __init__(self, to):
        self.to = to


class Undef:
    def __repr__(self):
        return "<undefined>"


UNDEF = Undef()


class Arr:
    """storage of an element (shared between copies: copy on write)"""
    __slots__ = ("m", "owners", "tag", "extra")

    def __init__(self, m=None):
        self.m = m
        self.owners = 1
        self.tag = None
        self.extra = None


class DP:
    """pointer into element data"""
    __slots__ = ("arr", "off", "w", "elem")

    def __init__(self, arr, off=None, w=False, elem=None):
        self.arr, self.off, self.w, self.elem = arr, S.of(0) if off is None else off, w, elem

    def get(self):
        raise Unsupported("raw read of element data")

    def set(self, v):
        raise Unsupported("raw write of element data")


class Elem:
    """ROPTLIB::Element by contract (value semantics, copy on write, attached fields)"""
    _n = 0

    def __init__(self, r=0, c=0, num=1, cplx=False, m=None):
        self.r, self.c, self.num = S.of(r), S.of(c), S.of(num)
        self.cplx = cplx
        self.arr = Arr(m) if m is not None else None
        self.fields = {}
        self.elements = None
        self.lazyfields = None     # name -> generator, present or not: both cases are explored
        self.name = ""
        self.parent = None

    @property
    def cplx(self):
        return self._cplx

    @cplx.setter
    def cplx(self, v):
        self._cplx = v
        if v is True:
            C().bykind["cplxmode"] = True       # matrices of this obligation may be complex

    def copy(self):
        e = Elem()
        e.assign(self)
        return e

    def assign(self, o):
        if o is self:
            return
        self.r, self.c, self.num, self.cplx = o.r, o.c, o.num, o.cplx
        self.detach()
        self.arr = o.arr
        if self.arr is not None:
            self.arr.owners += 1
        self.fields = {k: v.copy() for k, v in o.fields.items()}
        self.lazyfields = dict(o.lazyfields) if o.lazyfields else None
        if o.lazyfields is not None and self.lazyfields is None:
            self.lazyfields = {}
        self.elements = [x.copy() for x in o.elements] if o.elements is not None else None

    def detach(self):
        if self.arr is not None:
            self.arr.owners -= 1
        self.arr = None

    def setval(self, m, r=None, c=None, cplx=None):
        """overwrite the whole value; drops attached data"""
        if r is not None:
            self.r, self.c = S.of(r), S.of(c)
        if cplx is not None:
            self.cplx = cplx
        self.detach()
        self.arr = Arr(m)
        self.dropfields()

    def dropfields(self):
        self.fields = {}
        self.lazyfields = None

    def val(self):
        if self.arr is None or self.arr.m is None:
            raise Fail("read of an element that holds no data (%s)" % self.name)
        m = self.arr.m
        if isinstance(m, M):
            if (m.r.eq(self.r) and m.c.eq(self.c)):
                return m
            if is1(m.r) and is1(self.r) or m.r.eq(self.r):
                return m
            return reshape(m, self.r, self.c)
        return m

    def hasval(self):
        return self.arr is not None and self.arr.m is not None

    def __repr__(self):
        return "Elem(%s:%s)" % (self.name, self.arr.m if self.arr else None)


def reshape(m, r, c):
    # reshape of a sum is the sum of reshapes
    r, c = S.of(r), S.of(c)
    if m.r.eq(r) and m.c.eq(c):
        return m
    t = M(r, c)
    for w, s in normal(m).t.items():
        # reshape back: reshape(reshape(A)) = A
        if len(w) == 1:
            sy = C().syms[w[0] >> 1]
            if sy.defn and sy.defn[0] == "reshape" and not (w[0] & 1):
                inner = sy.defn[1]
                if inner.r.eq(r) and inner.c.eq(c):
                    t = t + inner.scale(s)
                    continue
        base = M(m.r, m.c, {w: ONE})
        z = opaque("reshape", (base, S.of(r), S.of(c)), r, c)
        t = t + M.sym(z).scale(s)
    return t


def strictsign(d):
    """+1/-1 when a scalar is a sum of terms of one sign in nonnegative atoms, one of them strictly positive; else 0"""
    cx = C()
    if d.d != alg.P1:
        return 0
    sg, strict = 0, False
    for m, c in d.n.items():
        s = 1 if c > 0 else -1
        if sg and s != sg:
            return 0
        sg = s
        st = True
        for k, e in m:
            a = cx.atoms[k]
            if a.pos:
                continue
            if e % 2 == 0 or a.nonneg:
                st = st and e < 0
                continue
            return 0
        strict = strict or st
    return sg if strict else 0


class Obj:
    """instance of a ROPTLIB class other than Element"""

    def __init__(self, cls, rt, **f):
        self.cls = cls
        self.rt = rt
        self.f = dict(f)
        self.contracts = {}      # method name -> python contract
        self.default = None      # default contract(name) -> callable or None

    def getf(self, n):
        if n not in self.f:
            self.f[n] = self.rt.fresh_field(self, n)
        return self.f[n]

    def setf(self, n, v):
        cur = self.f.get(n)
        if isinstance(cur, Elem) and isinstance(v, Elem):
            cur.assign(v)
        else:
            self.f[n] = v


class Opaque:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<%s>" % self.name


GLOBALSTR = {"N", "T", "L", "R", "C", "V", "U", "A", "S"}


class RT:
    """one run along one decision prefix"""
    maxsteps = 400000

    def __init__(self, prog, prefix, solver=None):
        self.prog = prog
        self.prefix = prefix
        self.taken = []
        self.pc = []
        self.bools = {}
        self.solver = solver
        self.frames = []
        self.steps = 0
        self.free = {}
        self.log = []
        self.inlined = set()
        self.used = set()
        self.contracts = set()
        self.hooks = {}
        self.noforkprint = True
        self.loop = None         # loop handler
        self.elemapi = None

    # ---- decisions
    def decide(self, cond):
        if isinstance(cond, bool):
            return cond
        if isinstance(cond, S):
            if cond.isconst():
                return cond.cval() != 0
            cond = Cond("!=", cond, S.of(0))
        if isinstance(cond, Ptr) or isinstance(cond, DP):
            return True
        if cond is None:
            return False
        if not isinstance(cond, Cond):
            raise Unsupported("branch on %r" % (cond,))
        v = self.fold(cond)
        if v is not None:
            return v
        if cond.op == "not":
            return not self.decide(cond.a)
        if cond.op == "and":
            return self.decide(cond.a) and self.decide(cond.b)
        if cond.op == "or":
            return self.decide(cond.a) or self.decide(cond.b)
        if self.solver is not None and cond.op != "b":
            e = self.solver.entailed(self, cond)
            if e is not None:
                return e
        k = len(self.taken)
        b = self.prefix[k] if k < len(self.prefix) else True
        self.taken.append(b)
        self.assume(cond if b else cond.neg())
        if self.onassume:
            self.onassume(cond if b else cond.neg())
        return b

    onassume = None

    def assume(self, cond):
        if cond.op == "b":
            self.bools[cond.a] = True
        elif cond.op == "not" and cond.a.op == "b":
            self.bools[cond.a.a] = False
        self.pc.append(cond)

    def fold(self, c):
        if isinstance(c, bool):
            return c
        if c.op == "b":
            return self.bools.get(c.a)
        if c.op == "not":
            v = self.fold(c.a)
            return None if v is None else not v
        if c.op in ("and", "or"):
            a, b = self.fold(c.a), self.fold(c.b)
            if c.op == "and":
                if a is False or b is False:
                    return False
                return True if a and b else None
            if a or b:
                return True
            return False if a is False and b is False else None
        if isinstance(c.a, S) and isinstance(c.b, S):
            d = c.a - c.b
            if d.isconst():
                v = d.cval()
                return {"<": v < 0, "<=": v <= 0, "==": v == 0, "!=": v != 0}[c.op]
            if d.iszero():
                return {"<": False, "<=": True, "==": True, "!=": False}[c.op]
            sg = strictsign(d)
            if sg:
                return {"<": sg < 0, "<=": sg < 0, "==": False, "!=": True}[c.op]
            # a single root compares with zero as its radicand does
            if d.d == alg.P1 and len(d.n) == 1:
                (m_, c_), = d.n.items()
                if len(m_) == 1 and m_[0][1] == 1:
                    at_ = C().atoms[m_[0][0]]
                    if at_.kind == "fn" and at_.name == "sqrt" and at_.args:
                        v_ = self.fold(Cond(c.op, at_.args[0] if c_ > 0 else -at_.args[0], S.of(0)))
                        if v_ is not None:
                            return v_
            for p in self.pc:
                if p.op in ("<", "<=", "==", "!=") and isinstance(p.a, S):
                    pd = p.a - p.b
                    same, opp = (pd - d).iszero(), (pd + d).iszero()
                    if same:
                        if p.op == c.op:
                            return True
                        if p.op == "<" and c.op in ("<=", "!="):
                            return True
                        if p.op == "<" and c.op == "==":
                            return False
                        if (p.op, c.op) in (("==", "!="), ("!=", "==")) or (p.op, c.op) == ("==", "<"):
                            return False
                        if (p.op, c.op) == ("==", "<="):
                            return True
                    if opp:
                        if p.op in ("<", "<=") and c.op == "<":
                            return False
                        if p.op == "<" and c.op in ("<=", "=="):
                            return False
                        if p.op == "<" and c.op == "!=":
                            return True
                        if p.op == c.op and c.op in ("==", "!="):
                            return True
                        if (p.op, c.op) in (("==", "!="), ("!=", "==")):
                            return False
        else:
            if c.op in ("==", "!="):
                r = self.eqval(c.a, c.b)
                if r is not None:
                    return r if c.op == "==" else not r
        return None

    def eqval(self, a, b):
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if a is None or b is None:
            return (a is None) == (b is None)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return a.to is b.to
        if isinstance(a, Elem) and isinstance(b, Elem):
            return a is b
        if isinstance(a, DP) and isinstance(b, DP):
            return a.arr is b.arr and a.off.eq(b.off)
        return None

    def fresh_field(self, obj, name):
        flds = self.prog.fields(obj.cls)
        ty = flds.get(name)
        if ty is None:
            raise Unsupported("unknown field %s.%s" % (obj.cls, name))
        return self.fresh_of_type(ty, "%s.%s" % (obj.cls, name))

    def fresh_of_type(self, ty, nm):
        t = ty.replace("const ", "").replace("mutable ", "").strip()
        if t in ("realdp", "double"):
            return var(nm)
        if t in ("integer", "int", "unsigned int", "long", "size_t", "unsigned long"):
            return var(nm, isint=True)
        if t == "bool":
            return batom(nm)
        if t in ("Variable", "Vector", "Element", "LinearOPE", "ROPTLIB::Element"):
            return Elem()
        if t in ("std::string", "string"):
            return Opaque(nm)
        if t in self.prog.classes:
            return Obj(t, self)
        return var(nm, isint=True)    # enumerations

    # ---- frames
    def run(self, fn, this, args):
        """execute the body of fn (extracted)"""
        self.used.add(fn.key())
        env = {}
        for (nm, ty, (pid, init)), a in zip(fn.params, args):
            env[pid] = self.bindparam(ty, a)
        for (nm, ty, (pid, init)) in fn.params[len(args):]:
            if init is None:
                raise Unsupported("missing argument %s of %s" % (nm, fn))
            env[pid] = self.bindparam(ty, self.defaultarg(init))
        fr = Frame(fn, this, env)
        self.frames.append(fr)
        if len(self.frames) > 60:
            raise Unsupported("recursion")
        try:
            self.stmt(fn.body)
            rv = None
        except _Return as r:
            rv = r.v
        finally:
            self.frames.pop()
        return rv

    def defaultarg(self, init):
        self.frames.append(Frame(None, None, {}))
        try:
            return self.eval(init)
        finally:
            self.frames.pop()

    def bindparam(self, ty, a):
        t = ty.strip()
        if t.endswith("&"):
            if isinstance(a, (Cell, FieldCell)):
                return a
            if isinstance(a, (Elem, Obj)):
                return a
            return Cell(a)
        if isinstance(a, Elem) and not t.endswith("*"):
            return a.copy()
        if isinstance(a, (Cell, FieldCell)):
            a = a.get()
        return Cell(a)

    # ---- statements
    def stmt(self, n):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Unsupported("step budget")
        f = getattr(self, "s_" + n.k, None)
        if f:
            return f(n)
        self.eval(n)

    def s_CompoundStmt(self, n):
        for c in n.ch:
            self.stmt(c)

    def s_Null(self, n):
        pass

    def s_NullStmt(self, n):
        pass

    def s_DeclStmt(self, n):
        for c in n.ch:
            if c.k == "VarDecl":
                self.vardecl(c)

    def vardecl(self, c):
        ty = c.ty.strip()
        env = self.frames[-1].env
        base = ty.replace("const ", "").strip()
        if ty.endswith("&"):
            v = self.lv(c.ch[0])
            env[c.ref] = v if isinstance(v, (Elem, Obj, Cell, FieldCell)) or hasattr(v, "set") else Cell(v)
            return
        if not c.ch:
            if base in ("Element", "Variable", "Vector", "LinearOPE"):
                env[c.ref] = Elem()
            else:
                env[c.ref] = Cell(UNDEF)
            return
        v = self.eval(c.ch[0])
        if isinstance(v, list) and base in ("realdpcomplex", "doublecomplex", "ROPTLIB::realdpcomplex") and getattr(self, "rawelem", None):
            v = Cplx(*[S.of(x) for x in v])
        if isinstance(v, Elem) and not ty.endswith("*"):
            if c.ch[0].k != "CXXConstructExpr":
                v = v.copy()
            v.name = c.name
            env[c.ref] = v
        elif base.endswith("]") and c.ch[0].k in ("InitListExpr",):
            env[c.ref] = Cell(v)
        else:
            env[c.ref] = Cell(v)

    def printonly(self, n):
        """statement whose only effects are messages"""
        if n.k in ("Null", "NullStmt"):
            return True
        if n.k == "CompoundStmt":
            return all(self.printonly(c) for c in n.ch)
        if n.k == "IfStmt":
            return all(self.printonly(c) for c in n.ch[1:]) and self.pure(n.ch[0])
        if n.k == "CallExpr":
            nm = n.ch[0].ref[2] if n.ch[0].ref and len(n.ch[0].ref) > 2 else None
            return nm in ("printf", "fprintf", "fflush") and all(self.pure(c) for c in n.ch[1:])
        if n.k == "CXXMemberCallExpr":
            return n.ch[0].name in ("PrintInfo", "PrintFinalInfo", "Print")
        return False

    def pure(self, n):
        for x in n.walk():
            if x.k in ("CompoundAssignOperator", "CXXNewExpr", "CXXDeleteExpr"):
                return False
            if x.k == "BinaryOperator" and x.op == "=":
                return False
            if x.k == "UnaryOperator" and x.op in ("++", "--"):
                return False
            if x.k == "CXXMemberCallExpr" and x.ch[0].name not in \
                    ("c_str", "GetName", "size", "Getrow", "Getcol", "FieldsExist", "GetIsIntrinsic", "GetHasHHR"):
                return False
            if x.k == "CXXOperatorCallExpr" and x.ch[0].ref and "[]" not in x.ch[0].ref[2]:
                return False
            if x.k == "CallExpr":
                nm = x.ch[0].ref[2] if x.ch[0].ref and len(x.ch[0].ref) > 2 else None
                if nm not in ("sqrt", "fabs", "abs", "isnan", "isinf", "getTickCount", "pow", "printf"):
                    return False
        return True

    def s_IfStmt(self, n):
        if n.x and (n.x.get("init") or n.x.get("var")):
            raise Unsupported("if with declaration")
        if self.noforkprint and all(self.printonly(c) for c in n.ch[1:]) and self.pure(n.ch[0]):
            return
        if self.cond(n.ch[0]):
            self.stmt(n.ch[1])
        elif len(n.ch) > 2:
            self.stmt(n.ch[2])

    def cond(self, n):
        """evaluate a condition with short circuit, deciding"""
        if n.k == "BinaryOperator" and n.op == "&&":
            return self.cond(n.ch[0]) and self.cond(n.ch[1])
        if n.k == "BinaryOperator" and n.op == "||":
            return self.cond(n.ch[0]) or self.cond(n.ch[1])
        if n.k == "UnaryOperator" and n.op == "!":
            return not self.cond(n.ch[0])
        if n.k == "Cast":
            return self.cond(n.ch[0])
        return self.decide(self.eval(n))

    def s_ReturnStmt(self, n):
        if not n.ch or n.ch[0].k == "Null":
            raise _Return(None)
        fr = self.frames[-1]
        rt = fr.fn.ret if fr.fn else ""
        v = self.lv(n.ch[0]) if rt.endswith("&") else self.eval(n.ch[0])
        if isinstance(v, Elem) and not rt.endswith("&"):
            v = v.copy()
        raise _Return(v)

    def s_BreakStmt(self, n):
        raise _Break()

    def s_ContinueStmt(self, n):
        raise _Continue()

    def s_ForStmt(self, n):
        init, cv, cond, inc, body = n.ch
        self.stmt(init)
        self.do_loop(n, cond, inc, body)

    def s_WhileStmt(self, n):
        self.do_loop(n, n.ch[0], None, n.ch[-1])

    def s_DoStmt(self, n):
        raise Unsupported("do-while")

    def do_loop(self, n, cond, inc, body):
        if self.loop is not None:
            if self.loop(self, n, cond, inc, body):
                return
        it = 0
        while True:
            if cond is not None and cond.k != "Null":
                c = self.condval(cond)
                if c is None:
                    raise Unsupported("loop with symbolic bound in %s" % (self.frames[-1].fn,))
                if not c:
                    return
            it += 1
            if it > 200:
                raise Unsupported("loop unrolling limit")
            try:
                self.stmt(body)
            except _Break:
                return
            except _Continue:
                pass
            if inc is not None and inc.k != "Null":
                self.eval(inc)

    def condval(self, n):
        """value of a condition if it is determined, else None (no fork)"""
        if n.k == "BinaryOperator" and n.op in ("&&", "||"):
            a = self.condval(n.ch[0])
            if a is None:
                return None
            if n.op == "&&":
                return self.condval(n.ch[1]) if a else False
            return True if a else self.condval(n.ch[1])
        if n.k == "UnaryOperator" and n.op == "!":
            a = self.condval(n.ch[0])
            return None if a is None else not a
        v = self.eval(n)
        if isinstance(v, Cond):
            return self.fold(v)
        if isinstance(v, S):
            return v.cval() != 0 if v.isconst() else None
        if isinstance(v, bool):
            return v
        return None

    def s_SwitchStmt(self, n):
        v = self.eval(n.ch[0])
        body = n.ch[-1]
        stmts = body.ch
        # find the entry
        entry = None
        default = None
        flat = []

        def flatten(s):
            if s.k == "CaseStmt":
                flat.append(("case", s.ch[0]))
                flatten(s.ch[1])
            elif s.k == "DefaultStmt":
                flat.append(("default", None))
                flatten(s.ch[0])
            else:
                flat.append(("stmt", s))
        for s in stmts:
            flatten(s)
        for i, (k, s) in enumerate(flat):
            if k == "case":
                cv = self.eval(s)
                if self.decide(Cond("==", v, cv)):
                    entry = i
                    break
            elif k == "default":
                default = i
        if entry is None:
            entry = default
        if entry is None:
            return
        try:
            for k, s in flat[entry:]:
                if k == "stmt":
                    self.stmt(s)
        except _Break:
            pass

    # ---- expressions
    def eval(self, n):
        v = self.lv(n)
        if isinstance(v, (Cell, FieldCell)) or (hasattr(v, "get") and hasattr(v, "set") and not isinstance(v, DP)):
            v = v.get()
            if v is UNDEF:
                raise Unsupported("use of an uninitialised variable")
        return v

    def lv(self, n):
        self.steps += 1
        f = getattr(self, "e_" + n.k, None)
        if f is None:
            raise Unsupported("expression " + n.k)
        return f(n)

    def e_CompoundStmt(self, n):
        self.s_CompoundStmt(n)

    def e_IntegerLiteral(self, n):
        return S.const(int(n.val))

    def e_FloatingLiteral(self, n):
        return S.const(Fraction(n.val))

    def e_CXXBoolLiteralExpr(self, n):
        return bool(n.val)

    def e_StringLiteral(self, n):
        v = n.val
        return v[1:-1] if v.startswith('"') else v

    def e_CharacterLiteral(self, n):
        return S.const(int(n.val))

    def e_CXXNullPtrLiteralExpr(self, n):
        return None

    def e_GNUNullExpr(self, n):
        return None

    def e_ImplicitValueInitExpr(self, n):
        return S.const(0)

    def e_CXXThisExpr(self, n):
        return Ptr(self.frames[-1].this)

    def e_DeclRefExpr(self, n):
        kind, id_, name, ty = n.ref
        env = self.frames[-1].env
        if id_ in env:
            return env[id_]
        if kind == "EnumConstantDecl":
            return S.const(self.prog.enums[name])
        if ty and "char *" in ty and name in GLOBALSTR:
            return name
        g = {"DZERO": 0, "DONE": 1, "DNONE": -1, "IZERO": 0, "IONE": 1, "INONE": -1, "DTWO": 2, "ZZERO": 0, "ZONE": 1,
             "ZNONE": -1}.get(name)
        if g is not None:
            return Cell(S.const(g))
        if kind == "VarDecl" and name in self.free and name in self.prog.globals:
            return self.free[name]
        if name in self.prog.globals and kind == "VarDecl":
            try:
                return Cell(self.defaultarg(self.prog.globals[name]))
            except Unsupported:
                pass
        if name in self.free:
            return self.free[name]
        return Opaque(name)

    def e_MemberExpr(self, n):
        o = self.lv(n.ch[0])
        if n.name in ("r", "i") and hasattr(o, "off") and hasattr(o, "member"):
            return o.member(n.name)     # part of an entry of raw complex data
        if isinstance(o, (Cell, FieldCell)) or (hasattr(o, "get") and hasattr(o, "set") and not isinstance(o, DP)):
            o = o.get()
            if o is UNDEF:
                raise Unsupported("use of an uninitialised variable")
        if isinstance(o, Ptr):
            o = o.to
        if isinstance(o, (Cell, FieldCell)):
            o = o.get()
        if isinstance(o, Obj):
            v = o.getf(n.name)
            if isinstance(v, (Elem, Obj)):
                return v
            return FieldCell(o, n.name)
        if isinstance(o, tuple) and n.name in ("first", "second"):
            return o[0] if n.name == "first" else o[1]
        if hasattr(o, "member"):
            return o.member(n.name)
        raise Unsupported("member %s of %r" % (n.name, o))

    def e_UnaryOperator(self, n):
        op = n.op
        if op == "&":
            v = self.lv(n.ch[0])
            if isinstance(v, DP):
                return v
            if hasattr(v, "addr"):
                return v.addr()
            return Ptr(v)
        if op == "*":
            v = self.eval(n.ch[0])
            if isinstance(v, Ptr):
                return v.to
            if v is None:
                raise Fail("null pointer dereference")
            if hasattr(v, "deref"):
                return v.deref()
            if isinstance(v, DP):
                return v
            return v
        if op in ("++", "--"):
            c = self.lv(n.ch[0])
            old = c.get()
            if old is UNDEF:
                raise Unsupported("increment of an uninitialised variable")
            if hasattr(old, "advance"):
                new = old.advance(1 if op == "++" else -1)
            else:
                new = old + (1 if op == "++" else -1)
            c.set(new)
            return old if n.x else c
        v = self.eval(n.ch[0])
        if op == "-":
            return -v
        if op == "+":
            return v
        if op == "!":
            if isinstance(v, bool):
                return not v
            if isinstance(v, Cond):
                return v.neg()
            if isinstance(v, S):
                return Cond("==", v, S.of(0))
            if v is None:
                return True
            if isinstance(v, (Ptr, DP)):
                return False
        raise Unsupported("unary " + op)

    def e_BinaryOperator(self, n):
        op = n.op
        if op == "=":
            c = self.lv(n.ch[0])
            v = self.eval(n.ch[1])
            self.store(c, v)
            return c
        if op == ",":
            self.eval(n.ch[0])
            return self.lv(n.ch[1])
        if op in ("&&", "||"):
            a = self.tocond(self.eval(n.ch[0]))
            if op == "&&" and a is False:
                return False
            if op == "||" and a is True:
                return True
            if not self.pure(n.ch[1]):
                # evaluation order matters: decide
                if op == "&&":
                    return self.tocond(self.eval(n.ch[1])) if self.decide(a) else False
                return True if self.decide(a) else self.tocond(self.eval(n.ch[1]))
            b = self.tocond(self.eval(n.ch[1]))
            if a is True and op == "&&" or a is False and op == "||":
                return b
            if b is True and op == "&&" or b is False and op == "||":
                return a
            if b is False and op == "&&":
                return False
            if b is True and op == "||":
                return True
            return Cond("and" if op == "&&" else "or", a, b)
        a = self.eval(n.ch[0])
        b = self.eval(n.ch[1])
        return self.binop(op, a, b, n.ty)

    def tocond(self, v):
        if isinstance(v, (bool, Cond)):
            return v
        if isinstance(v, S):
            if v.isconst():
                return v.cval() != 0
            return Cond("!=", v, S.of(0))
        if v is None:
            return False
        if isinstance(v, (Ptr, DP, Elem)):
            return True
        raise Unsupported("condition %r" % (v,))

    def tonum(self, v):
        if isinstance(v, bool):
            return S.const(int(v))
        if isinstance(v, Cond):
            return S.const(1 if self.decide(v) else 0)
        return v

    def binop(self, op, a, b, ty=None):
        if op in ("<", ">", "<=", ">=", "==", "!="):
            if hasattr(a, "cmp"):
                return a.cmp(op, b)
            if op in ("==", "!="):
                if isinstance(a, (bool, Cond)) or isinstance(b, (bool, Cond)):
                    x, y = self.tocond(a), self.tocond(b)
                    x, y = self.decide(x), self.decide(y)
                    return (x == y) if op == "==" else (x != y)
                r = self.eqval(a, b) if not (isinstance(a, S) and isinstance(b, S)) else None
                if r is not None:
                    return r if op == "==" else not r
            a, b = self.tonum(a), self.tonum(b)
            if isinstance(a, Opaque) or isinstance(b, Opaque) or isinstance(a, str) or isinstance(b, str):
                c = batom("%r==%r" % (a, b))
                return c if op == "==" else c.neg()
            if not isinstance(a, S) or not isinstance(b, S):
                raise Unsupported("comparison of %r and %r" % (a, b))
            if op == ">":
                return Cond("<", b, a)
            if op == ">=":
                return Cond("<=", b, a)
            return Cond(op, a, b)
        if hasattr(a, "arith"):
            return a.arith(op, b)
        if hasattr(b, "rarith"):
            return b.rarith(op, a)
        if isinstance(a, DP) and isinstance(b, S):
            return DP(a.arr, a.off + (b if op == "+" else -b), a.w, a.elem)
        if isinstance(b, DP) and isinstance(a, S) and op == "+":
            return DP(b.arr, b.off + a, b.w, b.elem)
        a, b = self.tonum(a), self.tonum(b)
        if not isinstance(a, S) or not isinstance(b, S):
            raise Unsupported("operands %r %s %r" % (a, op, b))
        if op == "+":
            return a + b
        if op == "-":
            return a - b
        if op == "*":
            return a * b
        isint = ty is not None and ty.replace("const ", "") in ("int", "integer", "long", "unsigned long", "size_t", "unsigned int")
        if op == "/":
            if isint:
                return self.idiv(a, b)
            if b.iszero():
                raise Unsupported("division by a term that is identically zero")
            self.divs.append(b) if self.divs is not None else None
            return a / b
        if op == "%":
            if a.isconst() and b.isconst():
                return S.const(int(a.cval()) % int(b.cval()))
            return fn("imod", a, b, isint=True)
        raise Unsupported("operator " + op)

    divs = None

    def idiv(self, a, b):
        if a.isconst() and b.isconst():
            return S.const(int(a.cval()) // int(b.cval()))
        q = a / b
        # exact when the quotient has integer coefficients
        if q.d == alg.P1 and all(c.denominator == 1 for c in q.n.values()) and \
                all(e > 0 for m in q.n for _, e in m):
            return q
        # n*(n+1)/2 and the like are integers
        if b.isconst() and b.cval() == 2 and self.evenpoly(a):
            return q
        return fn("idiv", a, b, isint=True)

    def evenpoly(self, a):
        """a is even for every integer valuation (checked on all residues mod 2)"""
        import itertools
        if a.d != alg.P1:
            return False
        ids = sorted({k for m in a.n for k, _ in m})
        if any(c.denominator != 1 for c in a.n.values()) or len(ids) > 4:
            return False
        for bits in itertools.product((0, 1), repeat=len(ids)):
            d = dict(zip(ids, bits))
            s = 0
            for m, c in a.n.items():
                t = int(c)
                for k, e in m:
                    if e < 0:
                        return False
                    t *= d[k] ** e
                s += t
            if s % 2:
                return False
        return True

    def e_CompoundAssignOperator(self, n):
        c = self.lv(n.ch[0])
        b = self.eval(n.ch[1])
        old = c.get()
        if old is UNDEF:
            raise Unsupported("compound assignment to an uninitialised variable")
        c.set(self.binop(n.op[:-1], old, b, n.ty))
        return c

    def store(self, c, v):
        if isinstance(c, Elem):
            if not isinstance(v, Elem):
                raise Unsupported("assignment to element")
            c.assign(v)
            return
        if isinstance(c, DP) and not hasattr(c, "set"):
            raise Unsupported("raw write")
        if isinstance(c, Ptr):
            raise Unsupported("assignment to rvalue pointer")
        if not hasattr(c, "set"):
            raise Unsupported("assignment to %r" % (c,))
        if isinstance(v, Elem) and isinstance(c, (Cell, FieldCell)):
            v = v.copy()
        c.set(v)

    def e_ConditionalOperator(self, n):
        return self.lv(n.ch[1]) if self.cond(n.ch[0]) else self.lv(n.ch[2])

    def e_Cast(self, n):
        v = self.eval(n.ch[0])
        if n.op in ("IntegralToFloating", "FloatingCast", "IntegralCast"):
            return self.tonum(v)
        if n.op in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean"):
            return self.tocond(v)
        if n.op == "FloatingToIntegral":
            return self.toint(v)
        return v

    def toint(self, v):
        if isinstance(v, (bool, Cond)):
            return self.tonum(v)
        if isinstance(v, S):
            if v.isconst():
                f = v.cval()
                return S.const(int(f))
            if all(C().atoms[k].isint for k in v.atoms()):
                return v
            return fn("toint", v, isint=True)
        return v

    def e_CXXStaticCastExpr(self, n):
        v = self.eval(n.ch[0])
        if n.op == "FloatingToIntegral":
            return self.toint(v)
        if n.op in ("IntegralToFloating", "IntegralCast", "FloatingCast"):
            return self.tonum(v)
        if n.op in ("IntegralToBoolean", "FloatingToBoolean"):
            return self.tocond(v)
        if isinstance(v, bool) and n.ty in ("double", "int", "realdp", "integer"):
            return self.tonum(v)
        return v

    e_CXXFunctionalCastExpr = e_CXXStaticCastExpr

    def e_CStyleCastExpr(self, n):
        return self.e_CXXStaticCastExpr(n)

    def e_CXXConstCastExpr(self, n):
        return self.lv(n.ch[0])

    def e_CXXReinterpretCastExpr(self, n):
        return self.lv(n.ch[0])

    def e_CXXDynamicCastExpr(self, n):
        return self.lv(n.ch[0])

    def e_CXXDefaultArgExpr(self, n):
        return DEFAULT

    def e_InitListExpr(self, n):
        return [self.eval(c) for c in n.ch]

    def e_ArraySubscriptExpr(self, n):
        a = self.eval(n.ch[0])
        i = self.eval(n.ch[1])
        if isinstance(a, DP) and a.elem is not None and a.elem.cplx in (True, False):
            t = n.ch[0].ty or ""
            if ("complex" in t) != a.elem.cplx and t:
                raise Unsupported("entries of a %s element through a pointer of type %s" % ("complex" if a.elem.cplx else "real", t))
        return self.index(a, i)

    def index(self, a, i):
        if isinstance(a, list):
            if i.isconst():
                k = int(i.cval())
                if 0 <= k < len(a):
                    return ListCell(a, k)
            raise Unsupported("symbolic index into a local array")
        if hasattr(a, "index"):
            return a.index(i)
        if isinstance(a, DP):
            return self.dpindex(a, i)
        raise Unsupported("subscript of %r" % (a,))

    def dpindex(self, a, i):
        raise Unsupported("raw element data access")

    def e_CXXNewExpr(self, n):
        ty = n.ty.replace("ROPTLIB::", "").rstrip("*").strip()
        if n.x:
            cnt = self.eval(n.ch[0])
            return self.newarray(ty, cnt)
        v = self.eval(n.ch[0]) if n.ch else None
        return Ptr(v)

    def newarray(self, ty, cnt):
        if "newarray" in self.hooks:
            return self.hooks["newarray"](self, ty, cnt)
        raise Unsupported("new %s[]" % ty)

    def e_CXXDeleteExpr(self, n):
        v = self.eval(n.ch[0])
        if "delete" in self.hooks:
            self.hooks["delete"](self, v)
        return None

    def args(self, nodes):
        out = []
        for c in nodes:
            v = self.lv(c)
            if v is DEFAULT:
                break
            out.append(v)
        return out

    def e_CXXConstructExpr(self, n):
        ty = (n.ty or "").replace("const ", "").replace("ROPTLIB::", "").strip()
        if ty in ("Element", "Variable", "Vector", "LinearOPE"):
            a = [x.get() if isinstance(x, (Cell, FieldCell)) else x for x in self.args(n.ch)]
            return self.newelem(a, n.x)
        if "basic_string" in ty or "string" in ty:
            a = self.args(n.ch)
            return a[0] if a else ""
        if "iterator" in ty or "pair" in ty:
            a = self.args(n.ch)
            return a[0].copyiter() if a and hasattr(a[0], "copyiter") else (a[0].get() if isinstance(a[0], Cell) else a[0]) if a else Cell(UNDEF)
        if ty in ("realdpcomplex", "doublecomplex") or "complex" in ty:
            a = self.args(n.ch)
            if a:
                return a[0]
            return Cplx()
        if "constructor" in self.hooks:
            r = self.hooks["constructor"](self, ty, n)
            if r is not None:
                return r
        raise Unsupported("construct " + ty)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def newelem(self, a, sig):
        if not a:
            return Elem()
        if isinstance(a[0], Elem):
            return a[0].copy()
        cplx = False
        nums = []
        for x in a:
            if isinstance(x, S):
                nums.append(x)
            elif isinstance(x, str):
                cplx = (x == "complex")
            elif isinstance(x, bool):
                cplx = x
            elif isinstance(x, Cond):
                cplx = self.decide(x)
            elif isinstance(x, Opaque):
                cplx = x
            else:
                raise Unsupported("element constructor")
        while len(nums) < 3:
            nums.append(S.const(1))
        return Elem(nums[0], nums[1], nums[2], cplx)

    def e_CXXOperatorCallExpr(self, n):
        f = n.ch[0]
        opname = f.ref[2] if f.ref and len(f.ref) > 2 else None
        if opname == "operator=":
            l = self.lv(n.ch[1])
            r = self.eval(n.ch[2])
            if isinstance(l, Ptr):
                l = l.to
            self.store(l, r)
            return l
        if opname == "operator[]":
            return self.index(self.eval(n.ch[1]), self.eval(n.ch[2]))
        args = [self.lv(c) for c in n.ch[1:]]
        for i, a in enumerate(args):
            if isinstance(a, (Cell, FieldCell)) and opname not in ("operator++", "operator--"):
                args[i] = a.get()
        if opname in ("operator++", "operator--"):
            c = args[0]
            it = c.get() if isinstance(c, (Cell, FieldCell)) else c
            if hasattr(it, "advance"):
                nv = it.advance(1 if opname == "operator++" else -1)
                if isinstance(c, (Cell, FieldCell)):
                    c.set(nv)
                return it
        if opname in ("operator->", "operator*") and len(args) == 1:
            a = args[0]
            if isinstance(a, Ptr):
                return a.to
            if hasattr(a, "deref"):
                return a.deref()
            return a
        if opname in ("operator==", "operator!=") and not any(isinstance(a, Elem) for a in args):
            return self.binop(opname[8:], args[0], args[1])
        if self.elemapi and any(isinstance(a, Elem) for a in args):
            return self.elemapi.operator(self, opname[8:], args)
        if len(args) == 2 and opname in ("operator<", "operator<=", "operator>", "operator>=") and hasattr(args[0], "cmp"):
            return args[0].cmp(opname[8:], args[1])
        if len(args) == 2 and opname in ("operator+", "operator-", "operator*", "operator/", "operator+=", "operator-=", "operator*="):
            args = [x.get() if hasattr(x, "get") and hasattr(x, "set") else x for x in args]
        if len(args) == 2 and opname in ("operator+", "operator-", "operator*", "operator/", "operator+=", "operator-=", "operator*=") and isinstance(args[1], S):
            # numbers of a class type (std::complex): elements of a field
            if opname.endswith("="):
                c = self.lv(n.ch[1])
                self.store(c, self.binop(opname[8], c.get() if hasattr(c, "get") else c, args[1]))
                return c
            if isinstance(args[0], S):
                return self.binop(opname[8:], args[0], args[1])
        raise Unsupported("operator call %s" % opname)

    def e_CallExpr(self, n):
        f = n.ch[0]
        nm = f.ref[2] if f.ref and len(f.ref) > 2 else None
        if nm is None:
            callee = self.eval(f)
            if callable(callee):
                return callee(self, [self.lv(c) for c in n.ch[1:]])
            raise Unsupported("call through a pointer")
        id_ = f.ref[1]
        env = self.frames[-1].env
        if id_ in env:
            callee = self.eval(f)
            if isinstance(callee, Ptr):
                callee = callee.to
            if callable(callee):
                return callee(self, [self.lv(c) for c in n.ch[1:]])
        if nm in self.hooks:
            return self.hooks[nm](self, n)
        if nm in getattr(self, "over", ()):
            self.contracts.add(nm)
            return self.over[nm](self, self.args(n.ch[1:]))
        h = FREE.get(nm)
        if h:
            return h(self, [self.eval(c) for c in n.ch[1:]])
        if nm in self.free and callable(self.free[nm]):
            self.contracts.add(nm)
            return self.free[nm](self, self.args(n.ch[1:]))
        cands = self.prog.fns.get(("", nm))
        if not cands and f.ref[0] == "CXXMethodDecl":
            # static member function
            for (c, m), l in self.prog.fns.items():
                if m == nm:
                    cands = l
                    break
        if cands:
            fs = [g for g in cands if g.sig == f.ref[3]] or cands
            self.inlined.add(fs[0].key())
            return self.run(fs[0], None, self.args(n.ch[1:]))
        raise Unsupported("call of " + nm)

    def e_CXXMemberCallExpr(self, n):
        me = n.ch[0]
        if me.k != "MemberExpr":
            # call through a member-function pointer: (this->*f)()
            fnv = None
            if me.k == "BinaryOperator" and me.op in ("->*", ".*"):
                ob = self.eval(me.ch[0])
                ob = ob.to if isinstance(ob, Ptr) else ob
                fnv = self.eval(me.ch[1])
                if isinstance(fnv, Ptr):
                    fnv = fnv.to
                if isinstance(fnv, Opaque):
                    return self.callmethod(ob, fnv.name, None, n, False)
            raise Unsupported("member pointer call")
        o = self.lv(me.ch[0])
        if isinstance(o, (Cell, FieldCell)):
            o = o.get()
        if isinstance(o, Ptr):
            o = o.to
        if isinstance(o, (Cell, FieldCell)):
            o = o.get()
        return self.callmethod(o, me.name, me.ref, n, bool(me.val))

    def callmethod(self, o, name, ref, n, qualified):
        if isinstance(o, Elem):
            if self.elemapi is None:
                raise Unsupported("element API")
            return self.elemapi.method(self, o, name, [self.lv(c) for c in n.ch[1:]], ref)
        if isinstance(o, Obj):
            if name in o.contracts and not qualified:
                self.contracts.add("%s::%s" % (o.cls, name))
                a = self.args(n.ch[1:])
                return o.contracts[name](self, o, a)
            if qualified and ref and ("%s::%s" % (ref[0], name)) in o.contracts:
                a = self.args(n.ch[1:])
                return o.contracts["%s::%s" % (ref[0], name)](self, o, a)
            if o.default:
                c = o.default(name)
                if c:
                    self.contracts.add("%s::%s" % (o.cls, name))
                    return c(self, o, self.args(n.ch[1:]))
            start = ref[0] if (qualified and ref) else o.cls
            sig = ref[2] if ref else None
            fnd = self.resolve(start, name, sig, len(n.ch) - 1)
            if fnd is None:
                raise Unsupported("no body for %s::%s" % (o.cls, name))
            self.inlined.add(fnd.key())
            return self.run(fnd, o, self.args(n.ch[1:]))
        if hasattr(o, "method"):
            return o.method(self, name, [self.lv(c) for c in n.ch[1:]])
        if isinstance(o, (str, Opaque)) and name in ("c_str", "assign", "length", "size"):
            return o
        raise Unsupported("method %s of %r" % (name, o))

    def resolve(self, cls, name, sig, nargs):
        def ptypes(s):
            return s[s.find("(") + 1:s.rfind(")")].replace("ROPTLIB::", "") if s else None
        want = ptypes(sig)
        for c in self.prog.bases(cls):
            l = self.prog.fns.get((c, name))
            if not l:
                continue
            m = [f for f in l if want is not None and ptypes(f.sig) == want]
            if m:
                return m[0]
            if want is None:
                return l[0]
        return None


class ListCell:
    def __init__(self, l, k):
        self.l, self.k = l, k

    def get(self):
        return self.l[self.k]

    def set(self, v):
        self.l[self.k] = v


class Frame:
    __slots__ = ("fn", "this", "env")

    def __init__(self, fn, this, env):
        self.fn, self.this, self.env = fn, this, env


class _Default:
    pass


DEFAULT = _Default()


class Cplx:
    """complex scalar"""

    def __init__(self, re=None, im=None):
        self.re = S.of(0) if re is None else re
        self.im = S.of(0) if im is None else im

    def member(self, n):
        return PartCell(self, "re" if n == "r" else "im")

    def cmp(self, op, b):
        raise Unsupported("complex comparison")


class PartCell:
    def __init__(self, o, p):
        self.o, self.p = o, p

    def get(self):
        return getattr(self.o, self.p)

    def set(self, v):
        setattr(self.o, self.p, v)


def _abs(rt, a):
    x = a[0]
    if x.isconst():
        return S.const(abs(x.cval()))
    if rt.decide(Cond("<=", S.of(0), x)):
        return x
    return -x


def _pow(rt, a):
    if a[1].isconst() and a[1].cval().denominator == 1:
        return a[0] ** int(a[1].cval())
    return fn("pow", a[0], a[1], nonneg=True)


def _log(rt, a):
    if a[0].isconst() and a[0].cval() == 1:
        return S.const(0)
    return fn("log", a[0])


FREE = {
    "sqrt": lambda rt, a: ssqrt(a[0]),
    "fabs": _abs,
    "abs": _abs,
    "pow": _pow,
    "cos": lambda rt, a: scos(a[0]),
    "sin": lambda rt, a: ssin(a[0]),
    "exp": lambda rt, a: fn("exp", a[0], pos=True),
    "log": _log,
    "acos": lambda rt, a: fn("acos", a[0]),
    "floor": lambda rt, a: fn("floor", a[0], isint=True),
    "printf": lambda rt, a: None,
    "assert": lambda rt, a: None,
    "getTickCount": lambda rt, a: fn("tick", str(C().fresh("t")), nonneg=True),
    "isnan": lambda rt, a: False,
    "isinf": lambda rt, a: False,
    "epsilon": lambda rt, a: var("eps", pos=True),
}


def _max(rt, a):
    return fn("maxreal", pos=True)


FREE["max"] = _max


class PathResult:
    def __init__(self):
        self.status = None      # ok | fail | unsupported | infeasible
        self.msg = ""
        self.taken = []
        self.pc = ""
        self.used = set()
        self.inlined = set()
        self.nob = 0


def explore(prog, body, maxpaths=256, solver=None, mk=None, rtcls=None, quick=False):
    """body(rt) executes one path and raises Fail / Unsupported / Undecided / Infeasible. Returns list of PathResult"""
    todo = [[]]
    out = []
    while todo:
        pre = todo.pop()
        if len(out) >= maxpaths:
            r = PathResult()
            r.status, r.msg = "unsupported", "path limit"
            out.append(r)
            break
        cx = Ctx()
        with cx:
            rt = (rtcls or RT)(prog, pre, solver)
            cx.rt = rt
            if mk:
                mk(rt)
            r = PathResult()
            try:
                body(rt)
                r.status = "ok"
            except Infeasible:
                r.status = "infeasible"
            except Fail as e:
                r.status, r.msg = "fail", str(e)
                if getattr(e, "z3", False):
                    pass            # the path and the failure are satisfied by a model
                elif e.residual is not None:
                    import num
                    r.status, extra = num.refute(rt, e.residual)
                    r.msg += extra
                else:
                    import num
                    if not num.feasible(rt):
                        r.status = "unproved"
            except ShapeError as e:
                r.status, r.msg = "unproved", "shape: " + str(e)
                import num
                if e.args[1:] and num.dims_differ(rt, e.args[1], e.args[2]):
                    r.status = "fail"
            except (Unsupported, Undecided) as e:
                r.status, r.msg = "unsupported", str(e)
            r.taken = list(rt.taken)
            r.pc = " & ".join(map(repr, rt.pc))
            r.used = rt.used
            r.inlined = rt.inlined
            r.contracts = rt.contracts
            r.nob = getattr(rt, "nob", 0)
        out.append(r)
        if quick and r.status not in ("ok", "infeasible"):
            break
        for k in range(len(pre), len(r.taken)):
            todo.append(r.taken[:k] + [not r.taken[k]])
    return out
