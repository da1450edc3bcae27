"""Shared vocabulary of the manifold specifications: points, tangent vectors, metrics, contracts of the virtual operations."""
import numpy as np
import alg
from alg import *
from sx import *
from ob import eq, need, ob, reach, defmk, Pair


def dim(name, f):
    v = var(name, isint=True)
    C().atoms[-1 if not C().bykind.get(("var", name, 0)) else C().bykind[("var", name, 0)][0].id].num = f
    return v


def setnum(v, f):
    """numeric instance of a scalar variable"""
    (m, c), = v.n.items()
    C().atoms[m[0][0]].num = f
    return v


def newdim(name, f):
    return setnum(var(name, isint=True), f)


def eps():
    return var("eps", sq={})


def pick(xs):
    """numeric instance of a dimension: depends on the instance's seed only"""
    return lambda I: xs[I.seed % len(xs)]


def elem(m, name="", cplx=False):
    e = Elem(m.r, m.c, 1, cplx, m)
    e.name = name
    return e


def out(r, c, name="result", cplx=False):
    e = Elem(r, c, 1, cplx)
    e.name = name
    return e


def prob(rt, **kw):
    o = Obj("Problem", rt, **kw)
    o.contracts["GetUseHess"] = lambda r, ob_, a: kw.get("usehess", batom("prob.UseHess"))
    return o


def coeff(x, k):
    """coefficient of eps^k (matrix or scalar)"""
    import num
    return num.epscoef(x, k)


def d0d1(rt, y, x, eta, what):
    """y = x + eps*eta exactly to first order: value at eps=0 is x and the derivative is eta"""
    eq(rt, y, x + eta.scale(eps()), what)


def linmap(rt, m, table, r, c, name):
    """image of the matrix m under a linear map given by its values on letters: table(word)->M"""
    t = M(r, c)
    for w, s in normal(m).t.items():
        t = t + table(w).scale(s)
    return t
