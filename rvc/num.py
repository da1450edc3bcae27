"""Refutation: the terms of a failed obligation are evaluated at concrete numbers (random instances that satisfy the
preconditions). A residual that is not numerically zero is a counterexample to the obligation over the reals."""
import math
import numpy as np
from alg import *
import alg

NUMDIM = {}


class NoNum(Exception):
    pass


class Inst:
    def __init__(self, rt, seed):
        self.rt = rt
        self.rng = np.random.default_rng(seed)
        self.seed = seed
        self.av = {}
        self.sv = {}
        self.eps = None

    # ---- scalars
    def s(self, x):
        x = S.of(x)

        def poly(p):
            r = 0.0
            for m, c in p.items():
                t = float(c)
                for k, e in m:
                    v = self.atom(k)
                    if v == 0 and e < 0:
                        raise NoNum("division by zero")
                    t *= v ** e
                r += t
            return r
        d = poly(x.d)
        if d == 0:
            raise NoNum("division by zero")
        return poly(x.n) / d

    def atom(self, k):
        if k in self.av:
            return self.av[k]
        a = C().atoms[k]
        v = self.atom0(a)
        self.av[k] = v
        return v

    def atom0(self, a):
        if a.kind == "var":
            if a.sq is not None and not a.sq:
                return 0.0 if self.eps is None else self.eps
            if a.num is not None:
                return a.num(self)
            if a.isint:
                raise NoNum("no value for " + a.name)
            if a.pos or a.nonneg:
                return float(self.rng.uniform(0.3, 2.0))
            return float(self.rng.uniform(-1.5, 1.5))
        if a.kind == "tr":
            w = a.args[0]
            m = None
            for l in w:
                x = self.letter(l)
                m = x if m is None else m @ x
            return float(np.trace(m))
        if a.kind == "fn":
            ar = [self.s(x) if isinstance(x, S) else x for x in a.args]
            f = {"sqrt": lambda x: math.sqrt(x) if x > -1e-12 and x >= 0 else (0.0 if x > -1e-9 else _no("sqrt of negative")),
                 "sin": math.sin, "cos": math.cos, "exp": math.exp,
                 "log": lambda x: math.log(x) if x > 0 else _no("log"),
                 "acos": lambda x: math.acos(x) if abs(x) <= 1 else _no("acos"),
                 "pow": lambda x, y: x ** y, "floor": math.floor,
                 "idiv": lambda x, y: int(x) // int(y), "imod": lambda x, y: int(x) % int(y),
                 "toint": lambda x: int(x)}.get(a.name)
            if f is None:
                if a.num is not None:
                    return a.num(self, *ar)
                raise NoNum("no value for " + a.name)
            return f(*ar)
        raise NoNum("no value for " + a.name)

    # ---- matrices
    def letter(self, l):
        s = C().syms[l >> 1]
        m = self.symv(s)
        return m.T if l & 1 else m

    def symv(self, s):
        if s.id in self.sv:
            return self.sv[s.id]
        v = self.sym0(s)
        r, c = int(round(self.s(s.r))), int(round(self.s(s.c)))
        v = np.asarray(v, dtype=float)
        if v.shape != (r, c):
            raise NoNum("shape of %s" % s.name)
        self.sv[s.id] = v
        return v

    def sym0(self, s):
        if s.num is not None:
            return s.num(self)
        if s.defn:
            f = DEFS.get(s.defn[0])
            if f is None and str(s.defn[0]).startswith(("pk", "upk", "seg")):
                raise NoNum("packing")
            if f is None:
                raise NoNum("no value for " + s.name)
            return f(self, s, *s.defn[1:])
        r, c = int(round(self.s(s.r))), int(round(self.s(s.c)))
        g = self.rng.standard_normal((r, c))
        if s.symm == 1:
            g = (g + g.T) / 2
        if s.symm == -1:
            g = (g - g.T) / 2
        if "garbage" in s.name or "diag" not in s.tags:
            return g
        return np.diag(np.abs(self.rng.standard_normal(r)) + 0.5)

    def m(self, x):
        r, c = int(round(self.s(x.r))), int(round(self.s(x.c)))
        out = np.zeros((r, c))
        for w, s in x.t.items():
            t = np.eye(r) if not w else None
            for l in w:
                y = self.letter(l)
                t = y if t is None else t @ y
            if t.shape != out.shape:
                raise NoNum("shape")
            out = out + self.s(s) * t
        return out


def _no(m):
    raise NoNum(m)


def _qr(I, A):
    a = I.m(A)
    key = ("qr", id(A))
    q, r = np.linalg.qr(a, mode="complete")
    # random signs are irrelevant: any sign choice satisfies the contract
    k = a.shape[1]
    # a product of orthonormal columns and an upper triangular letter keeps the letter as its factor (elemapi.qr)
    if len(A.t) == 1:
        (w, cf), = A.t.items()
        if len(w) == 2 and not (w[1] & 1) and "upper" in C().syms[w[1] >> 1].tags:
            t = I.symv(C().syms[w[1] >> 1])
            sg = np.where(np.diag(t) * np.diag(r[:k]) < 0, -1.0, 1.0)
            q = q.copy()
            q[:, :k] = q[:, :k] * sg
            r = r.copy()
            r[:k] = sg[:, None] * r[:k]
    return q[:, :k], r[:k, :], q


def _svd(I, A):
    u, s, v = np.linalg.svd(I.m(A), full_matrices=False)
    return u, np.diag(s), v


def _eig(I, A):
    a = I.m(A)
    w, v = np.linalg.eigh((a + a.T) / 2)
    return v, np.diag(w)


def _fun(f):
    def g(I, s, A):
        v, w = _eig(I, A)
        d = np.diag(w)
        if f is np.log and (d <= 0).any():
            raise NoNum("log of indefinite")
        return v @ np.diag(f(d)) @ v.T
    return g


def _sel(I, s, n, a, b):
    n, a, b = (int(round(I.s(x))) for x in (n, a, b))
    return np.eye(n)[:, a:b + 1]


def _inv(I, s, A):
    a = I.m(A)
    if a.shape[0] and abs(np.linalg.det(a)) < 1e-9:
        raise NoNum("singular")
    return np.linalg.inv(a)


def _syl(I, s, A, B, Cm):
    a, b, c = I.m(A), I.m(B), I.m(Cm)
    n, m = a.shape[0], b.shape[0]
    K = np.kron(np.eye(m), a) + np.kron(b.T, np.eye(n))
    if abs(np.linalg.det(K)) < 1e-9:
        raise NoNum("singular Sylvester")
    return np.linalg.solve(K, c.flatten("F")).reshape((n, m), order="F")


def _chol(I, s, A):
    try:
        return np.linalg.cholesky(I.m(A))
    except np.linalg.LinAlgError:
        raise NoNum("not positive definite")


def _dsqrt(I, s, D):
    d = np.diag(I.m(D))
    if (d < -1e-12).any():
        raise NoNum("sqrt of negative")
    return np.diag(np.sqrt(np.abs(d)))


DEFS = {
    "inv": _inv, "SYL": _syl, "sel": _sel, "chol": _chol, "dsqrt": _dsqrt,
    "Q": lambda I, s, A: _qr(I, A)[0], "R": lambda I, s, A: _qr(I, A)[1], "Qfull": lambda I, s, A: _qr(I, A)[2],
    "sgnD": lambda I, s, A: np.diag(np.where(np.diag(I.m(A)) < 0, -1.0, 1.0)),
    "sgnR": lambda I, s, A: np.diag(np.where(np.diag(_qr(I, A)[1]) < 0, -1.0, 1.0)),
    "svdU": lambda I, s, A: _svd(I, A)[0], "svdS": lambda I, s, A: _svd(I, A)[1], "svdVt": lambda I, s, A: _svd(I, A)[2],
    "eigV": lambda I, s, A: _eig(I, A)[0], "eigD": lambda I, s, A: _eig(I, A)[1],
    "expm": _fun(np.exp), "logm": _fun(np.log),
    "Lo": lambda I, s, A: np.tril(I.m(A), -1), "Di": lambda I, s, A: np.diag(np.diag(I.m(A))),
    "Diag": lambda I, s, A: np.diag(I.m(A).flatten("F")),
    "reshape": lambda I, s, A, r, c: I.m(A).reshape((int(round(I.s(r))), int(round(I.s(c)))), order="F"),
    "orth": lambda I, s, A: (lambda u: u[0] @ u[2])(_svd(I, A)),
}


def holds(I, c):
    """path condition at the instance: True/False/None"""
    if c.op in ("<", "<=", "==", "!=") and isinstance(c.a, S):
        a, b = I.s(c.a), I.s(c.b)
        t = 1e-12
        return {"<": a < b, "<=": a <= b + t, "==": abs(a - b) <= t, "!=": abs(a - b) > t}[c.op]
    return None


def instances(rt, n=12):
    for seed in range(n):
        I = Inst(rt, seed)
        try:
            ok = True
            for c in list(getattr(rt, "dimfacts", [])) + rt.pc:
                h = holds(I, c)
                if h is False:
                    ok = False
                    break
        except (NoNum, np.linalg.LinAlgError, ValueError, OverflowError):
            continue
        if ok:
            yield I


def feasible(rt):
    """a path with only undetermined boolean conditions counts as feasible"""
    if not rt.pc:
        return True
    for I in instances(rt):
        return True
    return False


def epscoef(x, k):
    """coefficient of eps^k in a scalar or matrix"""
    ids = [a.id for a in C().atoms if a.sq is not None and not a.sq]
    if isinstance(x, M):
        t = {}
        for w, s in x.t.items():
            v = epscoef(s, k)
            if v.n:
                t[w] = v
        return M(x.r, x.c, t)
    for m in x.d:
        if any(i in dict(m) for i in ids):
            raise NoNum("eps in denominator")
    n = {}
    for m, c in x.n.items():
        e = sum(v for i, v in m if i in ids)
        if e == k:
            n[tuple((i, v) for i, v in m if i not in ids)] = c
    return S(n, x.d)


def refute(rt, res):
    """('fail', text) when the residual is numerically non-zero, else ('unproved', text)"""
    tried = 0
    small = 0.0
    try:
        parts = [epscoef(res, 0), epscoef(res, 1)]
    except NoNum as e:
        return "unproved", " (not evaluated: %s)" % e
    err = ""
    for I in instances(rt):
        try:
            tot, scale = 0.0, 1.0
            for p in parts:
                if isinstance(p, M):
                    if not p.t:
                        continue
                    v = np.abs(I.m(p)).max(initial=0.0)
                    scale = max([scale] + [abs(I.s(s)) for s in p.t.values()])
                else:
                    v = abs(I.s(p))
                    scale = max(scale, 1.0)
                tot = max(tot, v)
        except (NoNum, np.linalg.LinAlgError, ValueError, OverflowError, ZeroDivisionError) as e:
            err = str(e)
            continue
        tried += 1
        if not math.isfinite(tot):
            continue
        if tot > 1e-6 * scale:
            dims = {a.name: I.atom(a.id) for a in C().atoms if a.kind == "var" and a.isint and a.num is not None}
            return "fail", " [residual %.3g at instance seed %d, %s]" % (tot, I.seed, dims)
        small = max(small, tot)
    return "unproved", " (numerically zero on %d instances%s)" % (tried, "; " + err if err else "")


def dims_differ(rt, a, b):
    for I in instances(rt):
        try:
            if abs(I.s(a) - I.s(b)) > 1e-9:
                return True
        except NoNum:
            pass
    return False
