"""C19: SetParams of every class. The map is an arbitrary sequence of (name, value) pairs with distinct names; the loop over it is
cut with the invariant "every documented option that was met has its converted value, everything else is as before"."""
from world import *
from spec_ls import mkworld, keep, frame

IDS = {}


def sid(s):
    return S.of(IDS.setdefault(s, len(IDS) + 1))


class Key:
    """name of the entry at a position: an integer; string literals are interned"""

    def __init__(self, rt, pos):
        self.rt, self.pos = rt, pos

    def id(self):
        return fn("mapkey", self.pos, isint=True)

    def cmp(self, op, b):
        if isinstance(b, (Cell, FieldCell)):
            b = b.get()
        if isinstance(b, str):
            return Cond(op, self.id(), sid(b))
        if isinstance(b, Key):
            return Cond(op, self.id(), b.id())
        raise Unsupported("comparison of a name with %r" % (b,))

    def rcmp(self, op, a):
        return self.cmp(op, a)

    def method(self, rt, name, a):
        if name == "compare" and len(a) == 1:
            c = self.cmp("==", a[0])
            return rt.ite(c, S.of(0), S.of(1), True)
        raise Unsupported("string method " + name)


class Entry:
    def __init__(self, rt, pos):
        self.rt, self.pos = rt, pos

    def member(self, nm):
        return Key(self.rt, self.pos) if nm == "first" else Cell(fn("mapval", self.pos))

    def copyiter(self):
        return self


class MapIter:
    def __init__(self, rt, mp, pos):
        self.rt, self.mp, self.pos = rt, mp, pos

    def copyiter(self):
        return self

    def advance(self, k):
        p = self.pos + k
        self.rt.goal(And(le(0, p), le(p, self.mp.n)), "map iterator stays in range")
        return MapIter(self.rt, self.mp, p)

    def deref(self):
        self.rt.goal(And(le(0, self.pos), lt(self.pos, self.mp.n)), "map iterator dereferenced inside the map")
        return Entry(self.rt, self.pos)

    def cmp(self, op, b):
        return Cond(op, self.pos, b.pos)

    def havoc(self, rt, nm):
        return MapIter(rt, self.mp, var(rt.newname(nm), isint=True))

    def snapkey(self):
        return ("mapit", self.pos)


class PMap:
    def __init__(self, rt, n):
        self.rt, self.n = rt, n

    def method(self, rt, name, a):
        if name in ("begin", "cbegin"):
            return MapIter(rt, self, S.of(0))
        if name in ("end", "cend"):
            return MapIter(rt, self, self.n)
        if name == "size":
            return self.n
        if name == "empty":
            return eqc(self.n, 0)
        raise Unsupported("map method " + name)

    def copyiter(self):
        return self

    def snapkey(self):
        return ("map",)


def conv(rt, v, kind):
    return v if kind == "r" else rt.toint(v)


def boolean(rt, v):
    return Not(eqc(rt.toint(v), 0))


def setto(rt, seen, v, kind, old):
    """value of the field after the option was met (seen) with value v"""
    if kind == "b":
        return Or(And(seen, boolean(rt, v)), And(Not(seen), rt.tocond(old)))
    return rt.ite(seen, conv(rt, v, kind), old, kind != "r")


def setset(rt, seen, v, K, old):
    """K sets; an index outside 1..K changes nothing, or (K negative, as documented by the warning) chooses the first set"""
    i = rt.toint(v)
    ok = And(le(1, i), le(i, abs(K)))
    r = rt.ite(And(seen, ok), i, old, True)
    return rt.ite(And(seen, Not(ok)), S.of(1), r, True) if K < 0 else r


R, I, B, E = "rib" + "e"
SOLV = [("Tolerance", R), ("TimeBound", R), ("Max_Iteration", I), ("Min_Iteration", I), ("OutputGap", I), ("Verbose", E)]
QN = [("isconvex", B), ("nu", R), ("mu", R)]
OPT = {
    "Solvers": (None, SOLV),
    "SolversSM": ("Solvers", [("Stop_Criterion", E), ("Accuracy", R)]),
    "SolversSMLS": ("SolversSM", [("LineSearch_LS", E), ("IsPureLSInput", B), ("LS_alpha", R), ("LS_beta", R), ("Minstepsize", R),
                                  ("Maxstepsize", R), ("LS_ratio1", R), ("LS_ratio2", R), ("Initstepsize", R), ("Finalstepsize", R),
                                  ("Num_pre_BB", I), ("BBratio", R), ("Num_pre_funs", I), ("PreFunsAccuracy", R), ("InitSteptype", E)]),
    "SolversSMTR": ("SolversSM", [("Acceptence_Rho", R), ("Shrinked_tau", R), ("Magnified_tau", R), ("minimum_Delta", R), ("maximum_Delta", R),
                                  ("useRand", B), ("Max_Inner_Iter", I), ("Min_Inner_Iter", I), ("theta", R), ("kappa", R), ("initial_Delta", R)]),
    "SolversNSM": ("Solvers", [("Stop_Criterion", E)]),
    "SolversNSMSub": ("SolversNSM", [("Diffx", R), ("NumExtraGF", I)]),
    "SolversNSMSubLS": ("SolversNSMSub", [("Eps", R), ("Theta_eps", R), ("Min_Eps", R), ("Del", R), ("Theta_del", R), ("LS_alpha", R), ("LS_beta", R),
                                          ("Minstepsize", R), ("Maxstepsize", R), ("lambdaLower", R), ("lambdaUpper", R)]),
    "SolversNSMPGLS": ("SolversNSM", [(("RPGLSVariant", "Variant"), E), (("RPGVariant", "Variant"), E), ("LS_ratio", R), ("LS_alpha", R), ("Minstepsize", R)]),
    "RNewton": ("SolversSMLS", [("useRand", B), ("Max_Inner_Iter", I), ("Min_Inner_Iter", I), ("theta", R), ("kappa", R)]),
    "RCG": ("SolversSMLS", [("RCGmethod", E)]),
    "RBroydenFamily": ("SolversSMLS", QN), "RWRBFGS": ("SolversSMLS", QN), "RBFGS": ("SolversSMLS", QN),
    "LRBFGS": ("SolversSMLS", QN + [("LengthSY", I), ("LMrestart", B)]),
    "LRTRSR1": ("SolversSMTR", [("LengthSY", I), ("LMrestart", B)]),
    "LRBFGSSub": ("SolversNSMSubLS", [("LengthSY", I)]),
    "AManPG": ("SolversNSMPGLS", [("SGIterGap", I)]),
    "Manifold": (None, [("HasHHR", B)]),
    "Stiefel": ("Manifold", [("ParamSet", 5)]), "Sphere": ("Stiefel", [("ParamSet", 4)]), "CStiefel": ("Manifold", [("ParamSet", 4)]),
    "SymFixedRankQ": ("Manifold", [("ParamSet", -6)]), "CSymFixedRankQ": ("Manifold", [("ParamSet", -4)]),
}


def nf(o):
    return o if isinstance(o, tuple) else (o, o)


def chain(c):
    out = []
    while c:
        out.append(c)
        c = OPT[c][0]
    return out


def apply(rt, w, cls, seen, val):
    """effect of SetParams of cls on the fields, given which options are in the map (seen) and their values"""
    f, g = w.this.f, rt.ghosts
    for c in reversed(chain(cls)):
        for o, k in OPT[c][1]:
            nm, fld = nf(o)
            if nm == "ParamSet":
                g["pset"] = setset(rt, seen(nm), val(nm), k, g["pset"])
            else:
                f[fld] = setto(rt, seen(nm), val(nm), k, f[fld])


def par_inv(cls):
    own = OPT[cls][1]

    def entry(rt):
        g = rt.ghosts
        rt.base = {}
        f = rt.w.this.f
        for o, k in own:
            nm, fld = nf(o)
            g["seen:" + nm], g["val:" + nm] = False, S.of(0)
            rt.base[nm] = g["pset"] if nm == "ParamSet" else f[fld]

    def conds(rt):
        return [("position", And(le(0, rt.L("iter").pos), le(rt.L("iter").pos, rt.map.n)))]

    def defs(rt):
        g = rt.ghosts
        out = {}
        for o, k in own:
            nm, fld = nf(o)
            loc = ("g", "pset") if nm == "ParamSet" else ("f", fld)
            out.setdefault(loc, []).append((nm, k))

        def value(rt, loc):
            v = rt.base[out[loc][0][0]]
            for nm, k in out[loc]:
                v = (setset if nm == "ParamSet" else setto)(rt, rt.tocond(g["seen:" + nm]), g["val:" + nm], k, v)
            return v
        return [(loc, lambda rt, loc=loc: value(rt, loc)) for loc in out]

    def ghost(rt):
        g = rt.ghosts
        p = rt.L("iter").pos - 1
        key = fn("mapkey", p, isint=True)
        for o, k in own:
            nm, fld = nf(o)
            c = eqc(key, sid(nm))
            v = rt.fold(c)
            if v is None:
                v = rt.solver.entailed(rt, c)
            if v is False:
                continue
            c = v if v is not None else c
            g["seen:" + nm] = Or(rt.tocond(g["seen:" + nm]), c)
            g["val:" + nm] = rt.ite(c, fn("mapval", p), g["val:" + nm])

    def assume(rt):
        """names in a map are distinct: an option met before is not met again"""
        key = fn("mapkey", rt.L("iter").pos, isint=True)
        for o, k in own:
            nm, fld = nf(o)
            for o2, k2 in own:          # (two spellings of one option: at most one of them is given)
                if nf(o2)[1] == fld:
                    rt.fact(Imp(rt.tocond(rt.ghosts["seen:" + nm]), Not(eqc(key, sid(nf(o2)[0])))))
    return {(cls, "SetParams", 0): Inv(conds, defs, ghost=ghost, entry=entry, assume=assume)}


def par_ob(cls):
    group = "mani" if "Manifold" in chain(cls) else "solv"
    base, own = OPT[cls]

    @dvob("C19", "%s::SetParams: exactly the options named in the map are set" % cls, group=group, invs=par_inv(cls))
    def go(rt):
        if not rt.prog.lookup(cls, "SetParams") or rt.prog.lookup(cls, "SetParams")[0].cls != cls:
            raise Unsupported("%s has no SetParams of its own" % cls)
        w = mkworld(rt, cls)
        f, g = w.this.f, rt.ghosts
        rt.map = PMap(rt, var("map.n", isint=True, nonneg=True))
        g["pset"] = S.of(0)
        rt.ghost_ty["pset"] = "integer"
        for o, k in own:
            rt.ghost_ty["seen:" + nf(o)[0]] = "bool"
            rt.ghost_ty["val:" + nf(o)[0]] = "double"
            g["seen:" + nf(o)[0]], g["val:" + nf(o)[0]] = False, S.of(0)
        rt.based = 0
        has = lambda nm: batom("map has " + nm)
        get = lambda nm: fn("mapget", sid(nm))

        def basecall(rt_, o, a):
            rt.based += 1
            m = a[0].get() if isinstance(a[0], (Cell, FieldCell)) else a[0]
            if m is not rt.map:
                raise Fail("the base class gets another map")
            apply(rt, w, base, has, get)
        if base:
            w.this.contracts[base + "::SetParams"] = basecall

        def choose(k):
            def c(rt_, o, a):
                g["pset"] = S.of(k)
            return c
        for k in range(1, 7):
            w.this.contracts["ChooseParamsSet%d" % k] = choose(k)
        was = keep(w)
        reach(rt, w.this, "SetParams", rt.map)
        fields = {nf(o)[1] for c in chain(cls) for o, k in OPT[c][1]}
        frame(rt, w, was, fields)
        # the loop has run to the end; own options by the entries met, inherited ones by the base class's contract
        now = {k: f[k] for k in fields if k in f}
        pnow = g["pset"]
        for k in fields:
            if k in f:
                f[k] = was[k]
        g["pset"] = S.of(0)
        if base:
            apply(rt, w, base, has, get)
        for o, k in own:
            nm, fld = nf(o)
            seen, v = rt.tocond(g["seen:" + nm]), g["val:" + nm]
            if nm == "ParamSet":
                g["pset"] = setset(rt, seen, v, k, g["pset"])
            else:
                f[fld] = setto(rt, seen, v, k, f[fld])
        for k in now:
            rt.goaleq(now[k], f[k], "option %s" % k)
        rt.goaleq(pnow, g["pset"], "parameter set chosen")
    return go


for c_ in OPT:
    par_ob(c_)


# ------------------------------------------------------------------ documented meaning of the parameter sets
SETS = {
    ("Stiefel", 1): dict(metric="STIE_EUCLIDEAN", retraction="STIE_QF", VecTran="STIE_PARALLELIZATION", IsIntrApproach=True),
    ("Stiefel", 2): dict(metric="STIE_EUCLIDEAN", retraction="STIE_QF", VecTran="STIE_PROJECTION", IsIntrApproach=False),
    ("Stiefel", 3): dict(metric="STIE_EUCLIDEAN", retraction="STIE_POLAR", VecTran="STIE_PARALLELIZATION", IsIntrApproach=True),
    ("Stiefel", 4): dict(metric="STIE_EUCLIDEAN", retraction="STIE_POLAR", VecTran="STIE_PROJECTION", IsIntrApproach=False),
    ("Stiefel", 5): dict(retraction="STIE_CAYLEYR", VecTran="STIE_CAYLEYVT", IsIntrApproach=False),
    ("Sphere", 1): dict(metric="STIE_EUCLIDEAN", retraction="STIE_QF", VecTran="STIE_PARALLELIZATION", IsIntrApproach=True),
    ("Sphere", 2): dict(metric="STIE_EUCLIDEAN", retraction="STIE_EXP", VecTran="STIE_PARALLELTRANSLATION", IsIntrApproach=False),
    ("Sphere", 3): dict(metric="STIE_EUCLIDEAN", retraction="STIE_QF", VecTran="STIE_PARALLELTRANSLATION", IsIntrApproach=False),
    ("Sphere", 4): dict(metric="STIE_EUCLIDEAN", retraction="STIE_QF", VecTran="STIE_PARALLELTRANSLATION", IsIntrApproach=False),
    ("CStiefel", 1): dict(metric="CSTIE_EUCLIDEAN", retraction="CSTIE_QF", VecTran="CSTIE_PARALLELIZATION", IsIntrApproach=True),
    ("CStiefel", 2): dict(metric="CSTIE_EUCLIDEAN", retraction="CSTIE_QF", VecTran="CSTIE_PROJECTION", IsIntrApproach=False),
    ("CStiefel", 3): dict(metric="CSTIE_EUCLIDEAN", retraction="CSTIE_POLAR", VecTran="CSTIE_PARALLELIZATION", IsIntrApproach=True),
    ("CStiefel", 4): dict(metric="CSTIE_EUCLIDEAN", retraction="CSTIE_POLAR", VecTran="CSTIE_PROJECTION", IsIntrApproach=False),
}
for i_, m_ in enumerate(("SFRANKQEUC", "SFRANKQHGZ", "SFRANKQQEUC")):
    SETS["SymFixedRankQ", i_ + 1] = dict(metric=m_, VecTran="SFRANKQPARALLELIZATION")
    SETS["SymFixedRankQ", i_ + 4] = dict(metric=m_, VecTran="SFRANKQPROJECTION")
for i_, m_ in enumerate(("CSFRANKQEUC", "CSFRANKQHGZ")):
    SETS["CSymFixedRankQ", i_ + 1] = dict(metric=m_, VecTran="CSFRANKQPARALLELIZATION")
    SETS["CSymFixedRankQ", i_ + 3] = dict(metric=m_, VecTran="CSFRANKQPROJECTION")


def set_ob(cls, k):
    @dvob("C19", "%s::ChooseParamsSet%d: the documented options" % (cls, k), group="mani")
    def go(rt):
        w = mkworld(rt, cls)
        was = keep(w)
        reach(rt, w.this, "ChooseParamsSet%d" % k)
        f = w.this.f
        frame(rt, w, was, {"metric", "retraction", "VecTran", "IsIntrApproach", "HasHHR"})
        for n, v in SETS[cls, k].items():
            rt.goaleq(f[n], v if isinstance(v, bool) else w.E(v), "%s is %s" % (n, v))
        if cls in ("SymFixedRankQ", "CSymFixedRankQ"):
            frame(rt, w, was, {"metric", "VecTran"})
    return go


for c_, k_ in SETS:
    set_ob(c_, k_)
