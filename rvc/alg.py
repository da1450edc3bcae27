"""Scalar and matrix terms, and the decision procedure for their equality.

Scalars: quotients of (Laurent) polynomials with rational coefficients over interned atoms.
Matrices: linear combinations (scalar coefficients) of words over letters (symbol, transposed?) - the free
noncommutative *-algebra - modulo a set of oriented defining relations (X^T X = I, A A^{-1} = I, ...).
An equality is *discharged* when both sides rewrite to the same normal form; every rewrite step replaces equals by
equals, so a discharge is a proof whether or not the rule set is confluent. Arithmetic is exact (real numbers)."""
from fractions import Fraction

F0 = Fraction(0)
F1 = Fraction(1)


class Atom:
    __slots__ = ("id", "kind", "name", "args", "isint", "sq", "num", "nonneg", "pos")

    def __repr__(self):
        return self.name


class Ctx:
    """one proof context: atoms, symbols, rules"""
    cur = None

    def __init__(self):
        self.atoms = []
        self.bykind = {}
        self.syms = []
        self.rules = {}     # first letter -> list of (pattern tuple, M)
        self.nfcache = {}
        self.trcache = {}
        self.facts = []     # scalar facts usable by SMT
        self.uniq = 0
        self.budget = 400000

    def __enter__(self):
        self.prev = Ctx.cur
        Ctx.cur = self
        return self

    def __exit__(self, *a):
        Ctx.cur = self.prev

    def fresh(self, base):
        self.uniq += 1
        return "%s!%d" % (base, self.uniq)


def C():
    return Ctx.cur


class Undecided(Exception):
    pass


# ---------------------------------------------------------------- scalars
def atom(kind, name, args=(), isint=False, sq=None, nonneg=False, pos=False):
    c = C()
    lst = c.bykind.setdefault((kind, name, len(args)), [])
    for a in lst:
        if all(_argeq(p, q) for p, q in zip(a.args, args)):
            return a
    a = Atom()
    a.id = len(c.atoms)
    a.kind = kind
    a.name = name
    a.args = tuple(args)
    a.isint = isint
    a.sq = sq
    a.nonneg = nonneg or pos
    a.pos = pos
    a.num = None
    c.atoms.append(a)
    lst.append(a)
    return a


def _argeq(p, q):
    if type(p) is not type(q):
        return False
    if isinstance(p, S):
        return p.eq(q)
    if isinstance(p, M):
        return p.same(q)
    return p == q


def _mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for k, e in m2:
        n = d.get(k, 0) + e
        if n:
            d[k] = n
        else:
            d.pop(k, None)
    return tuple(sorted(d.items()))


def _padd(p, q, s=F1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, F0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def _pmul(p, q):
    if len(p) * len(q) > 60000:
        raise Undecided("polynomial too large")
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = _mmul(m1, m2)
            v = r.get(m, F0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return _reduce(r)


def _reduce(p):
    """apply sq rules: atom^2 -> S (polynomial only)"""
    ats = C().atoms
    while True:
        hit = None
        for m in p:
            for k, e in m:
                if e >= 2 and ats[k].sq is not None or e <= -2 and ats[k].sq is not None and len(ats[k].sq) == 1:
                    hit = (m, k, e)
                    break
            if hit:
                break
        if not hit:
            return p
        m, k, e = hit
        c = p[m]
        p = dict(p)
        del p[m]
        rest = tuple((kk, ee) for kk, ee in m if kk != k)
        q_, r_ = divmod(abs(e), 2)
        if r_:
            rest = _mmul(rest, ((k, 1 if e > 0 else -1),))
        q = {rest: c}
        sq = ats[k].sq
        if e < 0:
            (sm, sc), = sq.items()
            sq = {tuple((kk, -ee) for kk, ee in sm): 1 / sc}
        for _ in range(q_):
            q = _pmul_raw(q, sq)
        p = _padd(p, q)


def _pmul_raw(p, q):
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = _mmul(m1, m2)
            v = r.get(m, F0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return r


def _clear(p):
    """clear negative exponents; returns (poly, monomial it was multiplied with)"""
    mn = {}
    for m in p:
        for k, e in m:
            if e < 0:
                mn[k] = min(mn.get(k, 0), e)
    if not mn:
        return _reduce(p), ()
    mul = tuple(sorted((k, -e) for k, e in mn.items()))
    r = {}
    for m, c in p.items():
        mm = _mmul(m, mul)
        r[mm] = r.get(mm, F0) + c
    return _reduce(r), mul


P1 = {(): F1}


class S:
    __slots__ = ("n", "d")

    def __init__(self, n, d=None):
        self.n = n
        self.d = d if d is not None else P1

    @staticmethod
    def const(v):
        v = Fraction(v)
        return S({(): v} if v else {})

    @staticmethod
    def of(v):
        if isinstance(v, S):
            return v
        if isinstance(v, bool):
            return S.const(int(v))
        if isinstance(v, (int, Fraction)):
            return S.const(v)
        if isinstance(v, float):
            return S.const(Fraction(repr(v)))
        raise TypeError(v)

    @staticmethod
    def atom(a):
        return S({((a.id, 1),): F1})

    def isconst(self):
        return self.d == P1 and (not self.n or (len(self.n) == 1 and () in self.n))

    def cval(self):
        return self.n.get((), F0)

    def __add__(self, o):
        o = S.of(o)
        if self.d == o.d:
            return S(_padd(self.n, o.n), self.d)._norm()
        return S(_padd(_pmul(self.n, o.d), _pmul(o.n, self.d)), _pmul(self.d, o.d))._norm()

    __radd__ = __add__

    def __neg__(self):
        return S({m: -c for m, c in self.n.items()}, self.d)

    def __sub__(self, o):
        return self + (-S.of(o))

    def __rsub__(self, o):
        return S.of(o) + (-self)

    def __mul__(self, o):
        if isinstance(o, M):
            return NotImplemented
        o = S.of(o)
        if not self.n or not o.n:
            return S({})
        return S(_pmul(self.n, o.n), _pmul(self.d, o.d) if (self.d != P1 or o.d != P1) else P1)._norm()

    __rmul__ = __mul__

    def inv(self):
        if not self.n:
            raise Undecided("division by zero")
        if len(self.n) == 1:
            (m, c), = self.n.items()
            im = tuple((k, -e) for k, e in m)
            return S({_mmul(im, mm): cc / c for mm, cc in self.d.items()})._norm()
        return S(self.d, self.n)._norm()

    def __truediv__(self, o):
        return self * S.of(o).inv()

    def __rtruediv__(self, o):
        return S.of(o) * self.inv()

    def __pow__(self, k):
        r = S.const(1)
        b = self if k >= 0 else self.inv()
        for _ in range(abs(k)):
            r = r * b
        return r

    def _norm(self):
        n, d = self.n, self.d
        if not n:
            return S({})
        if d == P1:
            return self
        if len(d) == 1:
            (m, c), = d.items()
            im = tuple((k, -e) for k, e in m)
            return S(_reduce({_mmul(im, mm): cc / c for mm, cc in n.items()}))
        # den | num ?
        q = _divexact(n, d)
        if q is not None:
            return S(q)
        # num | den ?
        if len(n) > 1:
            q = _divexact(d, n)
            if q is not None:
                return S(P1, q)._norm()
        # monic leading coefficient
        lead = max(d)
        c = d[lead]
        if c != 1:
            n = {m: v / c for m, v in n.items()}
            d = {m: v / c for m, v in d.items()}
        return S(n, d)

    def iszero(self):
        if not self.n:
            return True
        p, _ = _clear(self.n)
        return not p

    def eq(self, o):
        o = S.of(o)
        if self.n == o.n and self.d == o.d:
            return True
        return (self - o).iszero()

    def atoms(self):
        s = set()
        for p in (self.n, self.d):
            for m in p:
                for k, _ in m:
                    s.add(k)
        return s

    def key(self):
        return (tuple(sorted(self.n.items())), tuple(sorted(self.d.items())))

    def subst(self, f):
        """f: atom id -> S or None"""
        def ev(p):
            r = S({})
            for m, c in p.items():
                t = S.const(c)
                for k, e in m:
                    v = f(k)
                    v = S({((k, 1),): F1}) if v is None else v
                    t = t * (v ** e)
                r = r + t
            return r
        return ev(self.n) / ev(self.d)

    def __repr__(self):
        def pp(p):
            if not p:
                return "0"
            out = []
            for m, c in sorted(p.items()):
                t = "*".join(("%s" % aname(k)) + ("^%d" % e if e != 1 else "") for k, e in m)
                out.append(("%s*%s" % (c, t) if c != 1 else t) if t else str(c))
            return " + ".join(out)
        if self.d == P1:
            return pp(self.n)
        return "(%s)/(%s)" % (pp(self.n), pp(self.d))


def aname(k):
    a = C().atoms[k]
    if a.args:
        return "%s(%s)" % (a.name, ", ".join(map(str, a.args)))
    return a.name


def _divexact(n, d):
    """exact multivariate division (lex order); None if not divisible. Laurent: clears first."""
    if len(n) < len(d) and len(n) < 2:
        return None
    if len(n) > 400 or len(d) > 60:
        return None
    n2, mn = _clear_plain(n)
    d2, md = _clear_plain(d)
    vars_ = sorted({k for m in n2 for k, _ in m} | {k for m in d2 for k, _ in m})
    ix = {k: i for i, k in enumerate(vars_)}

    def vec(m):
        v = [0] * len(vars_)
        for k, e in m:
            v[ix[k]] = e
        return tuple(v)
    a = {vec(m): c for m, c in n2.items()}
    b = {vec(m): c for m, c in d2.items()}
    lb = max(b)
    cb = b[lb]
    q = {}
    steps = 0
    while a:
        steps += 1
        if steps > 500:
            return None
        la = max(a)
        ca = a[la]
        t = tuple(x - y for x, y in zip(la, lb))
        if any(x < 0 for x in t):
            return None
        c = ca / cb
        q[t] = c
        for m, cc in b.items():
            mm = tuple(x + y for x, y in zip(m, t))
            v = a.get(mm, F0) - c * cc
            if v:
                a[mm] = v
            else:
                a.pop(mm, None)
    r = {}
    # n = n2/mn ; d = d2/md ; n/d = q * md/mn
    for v, c in q.items():
        m = tuple((vars_[i], e) for i, e in enumerate(v) if e)
        m = _mmul(m, md)
        m = _mmul(m, tuple((k, -e) for k, e in mn))
        r[m] = c
    return _reduce(r)


def _clear_plain(p):
    mn = {}
    for m in p:
        for k, e in m:
            if e < 0:
                mn[k] = min(mn.get(k, 0), e)
    if not mn:
        return p, ()
    mul = tuple(sorted((k, -e) for k, e in mn.items()))
    return {_mmul(m, mul): c for m, c in p.items()}, mul


def var(name, isint=False, **kw):
    return S.atom(atom("var", name, (), isint=isint, **kw))


def fn(name, *args, **kw):
    args = [S.of(a) if not isinstance(a, (M, str)) else a for a in args]
    return S.atom(atom("fn", name, tuple(args), **kw))


def ssqrt(x):
    x = S.of(x)
    if x.isconst():
        v = x.cval()
        if v >= 0:
            import math
            a, b = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if a * a == v.numerator and b * b == v.denominator:
                return S.const(Fraction(a, b))
    # sqrt(c^2 * m^2 ...) of a single Laurent monomial with even exponents of nonnegative atoms
    if x.d == P1 and len(x.n) == 1:
        (m, c), = x.n.items()
        if c > 0 and m and all(e % 2 == 0 and C().atoms[k].nonneg for k, e in m):
            r = ssqrt(S.const(c))
            return r * S({tuple((k, e // 2) for k, e in m): F1})
    # common even powers of nonnegative factors come out of the root
    if x.n and not x.isconst():
        ms = [dict(m) for m in x.n]
        pull = {}
        for k in ms[0]:
            if C().atoms[k].nonneg:
                e = min(m.get(k, 0) for m in ms)
                if e >= 2 or e <= -2:
                    pull[k] = e // 2 if e > 0 else -((-e + 1) // 2)
        if pull and (len(x.n) > 1 or x.d != P1):
            f = S({tuple(sorted(pull.items())): F1})
            return ssqrt(x / (f * f)) * f
    n, d = x.n, x.d
    if d != P1 or any(e < 0 for m in n for _, e in m):
        # sqrt(n/d): represent sqrt(N)/sqrt(D) with N, D polynomials, both assumed >= 0
        nn, mul = _clear(n)
        den = S({mul: F1}) * S(d)
        return ssqrt(S(nn)) / ssqrt(den)
    if len(n) == 1 and not x.isconst():
        (m, c), = n.items()
        if c != 1 or len(m) > 1 or m[0][1] > 1:
            # split the product: sqrt(c*a^2k*b) = sqrt(c)*a^k*sqrt(b), atoms nonneg only
            if c > 0 and all(C().atoms[k].nonneg for k, _ in m):
                r = ssqrt(S.const(c)) if c != 1 else S.const(1)
                for k, e in m:
                    r = r * (S({((k, 1),): F1}) ** (e // 2))
                    if e % 2:
                        r = r * S.atom(atom("fn", "sqrt", (S({((k, 1),): F1}),), sq={((k, 1),): F1}, nonneg=True))
                return r
    return S.atom(atom("fn", "sqrt", (x,), sq=dict(_reduce(n)), nonneg=True))


def ssin(x):
    x = S.of(x)
    if x.iszero():
        return S.const(0)
    return S.atom(atom("fn", "sin", (x,), sq=_padd(P1, (scos(x) * scos(x)).n, F1 * -1)))


def scos(x):
    x = S.of(x)
    if x.iszero():
        return S.const(1)
    return S.atom(atom("fn", "cos", (x,)))


# ---------------------------------------------------------------- matrices
class Sym:
    __slots__ = ("id", "name", "r", "c", "symm", "defn", "num", "tags")

    def __repr__(self):
        return self.name


def sym(name, r, c, symm=0, defn=None, num=None):
    """symm: 1 symmetric, -1 skew, 0 none. defn: (fname, args...) for interned opaque functions"""
    cx = C()
    s = Sym()
    s.id = len(cx.syms)
    s.name = name
    s.r = S.of(r)
    s.c = S.of(c)
    s.symm = symm
    s.defn = defn
    s.num = num
    s.tags = set()
    cx.syms.append(s)
    return s


def letter(s, t=0):
    return 2 * s.id + t


def lshape(l):
    s = C().syms[l >> 1]
    return (s.c, s.r) if l & 1 else (s.r, s.c)


def lname(l):
    s = C().syms[l >> 1]
    return s.name + ("'" if l & 1 else "")


ONE = S.const(1)


def is1(d):
    return d.isconst() and d.cval() == 1


class M:
    """matrix value"""
    __slots__ = ("r", "c", "t")

    def __init__(self, r, c, t=None):
        self.r = S.of(r)
        self.c = S.of(c)
        self.t = t if t is not None else {}

    @staticmethod
    def sym(s):
        return M(s.r, s.c, {(letter(s),): ONE})

    @staticmethod
    def eye(n):
        n = S.of(n)
        return M(n, n, {(): ONE})

    @staticmethod
    def zero(r, c):
        return M(r, c, {})

    def nf(self):
        return normal(self)

    def __add__(self, o):
        if not isinstance(o, M):
            return NotImplemented
        chk(self.r, o.r, "row mismatch in sum %s + %s" % (self, o))
        chk(self.c, o.c, "col mismatch in sum %s + %s" % (self, o))
        t = dict(self.t)
        for w, s in o.t.items():
            v = t[w] + s if w in t else s
            if v.n:
                t[w] = v
            else:
                t.pop(w, None)
        return M(self.r, self.c, t)

    def __neg__(self):
        return M(self.r, self.c, {w: -s for w, s in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, s):
        s = S.of(s)
        if not s.n:
            return M(self.r, self.c)
        return M(self.r, self.c, {w: s * v for w, v in self.t.items()})

    def __rmul__(self, s):
        return self.scale(s)

    def __mul__(self, o):
        if isinstance(o, (int, float, Fraction, S)):
            return self.scale(o)
        chk(self.c, o.r, "dimension mismatch in product (%s x %s) * (%s x %s)" % (self.r, self.c, o.r, o.c))
        t = {}
        for w1, s1 in self.t.items():
            for w2, s2 in o.t.items():
                w = w1 + w2
                v = s1 * s2
                v = t[w] + v if w in t else v
                if v.n:
                    t[w] = v
                else:
                    t.pop(w, None)
        return normal(M(self.r, o.c, t))

    @property
    def T(self):
        t = {}
        for w, s in self.t.items():
            sg, w2 = wT(w)
            v = s if sg > 0 else -s
            v = t[w2] + v if w2 in t else v
            if v.n:
                t[w2] = v
            else:
                t.pop(w2, None)
        return M(self.c, self.r, t)

    def tr(self):
        n = normal(self)
        r = S({})
        for w, s in n.t.items():
            r = r + s * trace_word(w, n.r)
        return r

    def dot(self, o):
        return (self.T * o).tr()

    def iszero(self):
        n = normal(self)
        return all(s.iszero() for s in n.t.values())

    def same(self, o):
        return isinstance(o, M) and self.r.eq(o.r) and self.c.eq(o.c) and (self - o).iszero()

    def scalar(self):
        """1x1 matrix as scalar"""
        return self.tr()

    def entries1(self):
        return is1(self.r) and is1(self.c)

    def __repr__(self):
        if not self.t:
            return "0"
        return " + ".join(("(%s)*" % s if not (s.isconst() and s.cval() == 1) else "") +
                          (".".join(lname(l) for l in w) or "I") for w, s in self.t.items())


class ShapeError(Exception):
    pass


def chk(a, b, msg):
    if not a.eq(b):
        f = getattr(C(), "dimeq", None)
        if f and f(a, b):
            return
        raise ShapeError(msg, a, b)


def wT(w):
    sg = 1
    out = []
    for l in reversed(w):
        s = C().syms[l >> 1]
        if s.symm == 1:
            out.append(letter(s))
        elif s.symm == -1:
            sg = -sg
            out.append(letter(s))
        else:
            out.append(l ^ 1)
    return sg, tuple(out)


def add_rule(pat, rhs, both=True):
    """word pat -> M rhs; its transpose is added too"""
    cx = C()
    cx.nfcache.clear()
    cx.trcache.clear()
    cx.rules.setdefault(pat[0], []).append((pat, rhs))
    if both:
        sg, pt = wT(pat)
        if pt != pat:
            r = rhs.T
            if sg < 0:
                r = -r
            if pt != pat:
                cx.rules.setdefault(pt[0], []).append((pt, r))


def _step(w):
    """one rewrite step on a word: None or M-terms dict"""
    cx = C()
    rules = cx.rules
    n = len(w)
    # scalar extraction: sub-word between two dimension-1 cuts
    if n > 1:
        ones = []
        sh = [lshape(l) for l in w]
        for i in range(n):
            if is1(sh[i][0]):
                ones.append(i)
        if is1(sh[-1][1]):
            ones.append(n)
        for a in range(len(ones) - 1):
            i, j = ones[a], ones[a + 1]
            if j - i < n:
                sc = trace_word(w[i:j], ONE)
                return {w[:i] + w[j:]: sc}
    for i in range(n):
        for pat, rhs in rules.get(w[i], ()):
            k = len(pat)
            if i + k <= n and w[i:i + k] == pat:
                pre, post = w[:i], w[i + k:]
                return {pre + m + post: s for m, s in rhs.t.items()}
    return None


def normal(m):
    cx = C()
    out = {}
    todo = [(w, s) for w, s in m.t.items()]
    while todo:
        w, s = todo.pop()
        r = nf_word(w)
        for w2, s2 in r.items():
            v = s * s2
            v = out[w2] + v if w2 in out else v
            if v.n:
                out[w2] = v
            else:
                out.pop(w2, None)
    return M(m.r, m.c, out)


def nf_word(w):
    cx = C()
    if w in cx.nfcache:
        return cx.nfcache[w]
    cx.budget -= 1
    if cx.budget < 0:
        raise Undecided("rewrite budget exhausted")
    if w and is1(lshape(w[0])[0]) and is1(lshape(w[-1])[1]):
        st = {(): trace_word(w, ONE)}
    else:
        st = _step(w)
    if st is None:
        r = {w: ONE}
    else:
        r = {}
        for w2, s2 in st.items():
            for w3, s3 in nf_word(w2).items():
                v = s2 * s3
                v = r[w3] + v if w3 in r else v
                if v.n:
                    r[w3] = v
                else:
                    r.pop(w3, None)
    cx.nfcache[w] = r
    return r


def canon_cyc(w):
    best = None
    for sg, ww in ((1, w), wT(w)):
        for i in range(len(ww)):
            x = ww[i:] + ww[:i]
            if best is None or x < best[1]:
                best = (sg, x)
    return best


def trace_word(w, dim):
    """Re tr(w) as scalar"""
    cx = C()
    if w == ():
        return S.of(dim)
    if w in cx.trcache:
        return cx.trcache[w]
    # single 1x1 letters etc. are covered; try rewriting every rotation
    n = len(w)
    if n > 1:
        for i in range(n):
            x = w[i:] + w[:i]
            st = _step(x) if not (is1(lshape(x[0])[0]) and n == 1) else None
            if st is not None:
                # avoid infinite loop of scalar extraction of the whole word
                if len(st) == 1 and x in st:
                    continue
                r = S({})
                for w2, s2 in st.items():
                    r = r + s2 * trace_word(w2, lshape(x[0])[0])
                cx.trcache[w] = r
                return r
    # scalar factorisation of cyclic word with several dim-1 cuts
    if n > 1:
        cuts = [i for i in range(n) if is1(lshape(w[i])[0])]
        if len(cuts) > 1:
            x = w[cuts[0]:] + w[:cuts[0]]
            cuts = [i - cuts[0] for i in cuts] + [n]
            r = ONE
            for a in range(len(cuts) - 1):
                r = r * trace_word(x[cuts[a]:cuts[a + 1]], ONE)
            cx.trcache[w] = r
            return r
    if _nil(w):
        cx.trcache[w] = S({})
        return S({})
    # tr(L' B) = tr(L' lower(B)) for a strictly lower triangular letter, likewise for diagonal letters
    if n > 2:
        for i in range(n):
            tg = cx.syms[w[i] >> 1].tags
            if "slower" in tg or "dipart" in tg:
                rest = w[i + 1:] + w[:i]
                kind = "D" if "dipart" in tg else ("L" if w[i] & 1 else "U")
                k = lshape(w[i])[0]
                from loops import mask
                mm = mask(kind, M(k, k, {rest: ONE}))
                if any(x == rest for x in mm.t):
                    break
                r = S({})
                for w2, s2 in mm.t.items():
                    r = r + s2 * trace_word((w[i],) + w2, k)
                cx.trcache[w] = r
                return r
    # tr(A' reshape(B)) = tr(reshape(A)' B): reshapes are moved to the side with fewer columns
    if n == 2:
        for i in range(2):
            sy = cx.syms[w[i] >> 1]
            if sy.defn and sy.defn[0] == "reshape":
                inner = sy.defn[1]
                o = (w[1 - i],) if not (w[i] & 1) else (w[1 - i],)
                A = M(lshape(o[0])[0], lshape(o[0])[1], {o: ONE})
                A = A.T if not (w[i] & 1) else A      # now of the shape of sy
                if is1(inner.c) and not is1(sy.c):
                    import sx
                    r = (sx.reshape(A, inner.r, inner.c).T * inner).tr()
                    cx.trcache[w] = r
                    return r
    sg, cw = canon_cyc(w)
    # vanishing: w ~ -w (skew)
    if _skewzero(w):
        r = S({})
    else:
        nn = len(cw) == 2 and cw[0] == (cw[1] ^ 1) or (len(cw) == 2 and cw[0] == cw[1] and cx.syms[cw[0] >> 1].symm == 1)
        a = atom("tr", "tr[" + ".".join(lname(l) for l in cw) + "]", (cw,), nonneg=nn)
        r = S.atom(a)
        if sg < 0:
            r = -r
    cx.trcache[w] = r
    return r


def _nil(w):
    """product of triangular letters of one direction with a strict one: nilpotent, trace 0"""
    cx = C()
    d = 0
    strict = False
    for l in w:
        tg = cx.syms[l >> 1].tags
        if "diag" in tg:
            continue
        if "slower" in tg:
            dd = -1 if l & 1 else 1
            strict = True
        elif "upper" in tg:
            dd = 1 if l & 1 else -1
        elif "lowerpos" in tg or "lower" in tg:
            dd = -1 if l & 1 else 1
        else:
            return False
        if d and d != dd:
            return False
        d = dd
    return strict


def _skewzero(w):
    sg, wt = wT(w)
    if sg > 0:
        return False
    for i in range(len(w)):
        if wt[i:] + wt[:i] == w:
            return True
    return False


# ------------------------------------------------ opaque functions with defining relations
def opaque(name, args, r, c, symm=0, setup=None):
    """interned symbol for name(args); setup(sym) adds its defining relations once. args: M | S | str"""
    cx = C()
    for s in cx.syms:
        if s.defn and s.defn[0] == name and len(s.defn) == len(args) + 1 and \
                all(_argeq(p, q) for p, q in zip(s.defn[1:], args)):
            return s
    s = sym("%s#%d" % (name, len(cx.syms)), r, c, symm=symm, defn=(name,) + tuple(args))
    if setup:
        setup(s)
    return s


def lead(m):
    """leading word: longest, then max"""
    return max(m.t, key=lambda w: (len(w), w))


def inverse(A):
    """A^{-1} (A assumed nonsingular)"""
    A = normal(A)
    cx = C()
    n = A.r
    if not A.t:
        raise Undecided("inverse of zero")
    if len(A.t) == 1:
        (w, s), = A.t.items()
        if w == ():
            return M(n, n, {(): s.inv()})
        if len(w) == 1:
            return _invletter(w[0]).scale(s.inv())
        # product of square letters: reverse
        if all(lshape(l)[0].eq(lshape(l)[1]) for l in w):
            r = M.eye(n)
            for l in reversed(w):
                r = r * _invletter(l)
            return r.scale(s.inv())
    symm = 1 if A.same(A.T) else 0

    def setup(z):
        lw = lead(A)
        c = A.t[lw]
        rest = A - M(n, n, {lw: c})
        Z = M.sym(z)
        zl = letter(z)
        # z*lw -> (I - z*rest)/c
        rhs = (M.eye(n) - _raw(Z, rest)).scale(c.inv())
        add_rule((zl,) + lw, rhs, both=True)
        if symm == 0:
            rhs = (M.eye(n) - _raw(rest, Z)).scale(c.inv())
            add_rule(lw + (zl,), rhs, both=True)
        elif wT(lw)[1] != lw:
            rhs = (M.eye(n) - _raw(rest, Z)).scale(c.inv())
            add_rule(lw + (zl,), rhs, both=True)
    s = opaque("inv", (A,), n, n, symm=symm, setup=setup)
    return M.sym(s)


def _raw(a, b):
    t = {}
    for w1, s1 in a.t.items():
        for w2, s2 in b.t.items():
            w = w1 + w2
            v = s1 * s2
            t[w] = t[w] + v if w in t else v
    return M(a.r, b.c, t)


def _invletter(l):
    s = C().syms[l >> 1]
    if s.defn and s.defn[0] == "inv":
        A = s.defn[1]
        return A.T if l & 1 else A
    base = M.sym(s)
    if s.symm == 1 and (base * base).same(M.eye(s.r)):
        return base

    def setup(z):
        zl = letter(z)
        add_rule((zl, letter(s)), M.eye(s.r))
        add_rule((letter(s), zl), M.eye(s.r))
    z = opaque("inv", (base,), s.r, s.r, symm=1 if s.symm == 1 else 0, setup=setup)
    r = M.sym(z)
    return r.T if l & 1 else r


def sylvester(A, B, Cm):
    """Z with A Z + Z B = C (A, B such that the solution is unique)"""
    A, B, Cm = normal(A), normal(B), normal(Cm)
    if not Cm.t:
        return M.zero(Cm.r, Cm.c)
    symm = 0
    if A.same(B.T):
        if Cm.same(Cm.T):
            symm = 1
        elif Cm.same(-Cm.T):
            symm = -1

    def setup(z):
        Z = M.sym(z)
        zl = letter(z)
        lw = lead(A)
        c = A.t[lw]
        rest = A - M(A.r, A.c, {lw: c})
        # lw Z -> (C - Z B - rest Z)/c
        rhs = (Cm - _raw(Z, B) - _raw(rest, Z)).scale(c.inv())
        add_rule(lw + (zl,), rhs, both=(symm == 0))
    s = opaque("SYL", (A, B, Cm), Cm.r, Cm.c, symm=symm, setup=setup)
    return M.sym(s)
