"""Registry and runner of proof obligations.

An obligation is a named proof task over the extracted source: its body runs one symbolic path of the functions under
contract and states equalities/inequalities (eq, need, ...); the runner explores every path."""
import os
import sys
import time
import json
import signal
import select
import traceback
from alg import *
import sx
from sx import *
from elemapi import ElemAPI
from loops import LoopRT, BLAS

OBS = {}          # property -> list of Obl


SLOW = [1]      # factor on the solver's time limits (second attempts)


class Obl:
    def __init__(self, prop, oid, group, body, mk=None, rtcls=LoopRT, maxpaths=200, timeout=120, expect="", minok=1, custom=None):
        self.prop, self.oid, self.group, self.body = prop, oid, group, body
        self.mk, self.rtcls, self.maxpaths, self.timeout, self.expect, self.minok = mk, rtcls, maxpaths, timeout, expect, minok
        self.custom = custom


def ob(prop, oid, group="mani", **kw):
    """decorator: registers the function as the body of an obligation"""
    def deco(f):
        for p in ([prop] if isinstance(prop, str) else prop):
            OBS.setdefault(p, []).append(Obl(p, oid, group, f, **kw))
        return f
    return deco


def defmk(rt):
    rt.elemapi = ElemAPI()
    rt.free.update(BLAS)
    rt.nob = 0


# ------------------------------------------------------------------ goals
class Pair:
    """value of a product element"""

    def __init__(self, *c):
        self.c = list(c)

    @staticmethod
    def of(e):
        return Pair(*[x.val() for x in e.elements]) if isinstance(e, Elem) and e.elements is not None else e.val() if isinstance(e, Elem) else e

    def scale(self, s):
        return Pair(*[x.scale(s) for x in self.c])

    def __add__(self, o):
        return Pair(*[x + y for x, y in zip(self.c, o.c)])

    def __sub__(self, o):
        return Pair(*[x - y for x, y in zip(self.c, o.c)])

    def __neg__(self):
        return Pair(*[-x for x in self.c])

    def __iter__(self):
        return iter(self.c)


def eq(rt, a, b, what):
    """a == b for all entries (matrices) or for all values (scalars)"""
    if isinstance(a, Elem) and a.elements is not None:
        a = Pair.of(a)
    if isinstance(b, Elem) and b.elements is not None:
        b = Pair.of(b)
    if isinstance(a, Pair) and isinstance(b, Pair):
        if len(a.c) != len(b.c):
            raise Fail(what + ": different number of components")
        for i, (x, y) in enumerate(zip(a.c, b.c)):
            eq(rt, x, y, "%s [component %d]" % (what, i))
        return
    rt.nob += 1
    if isinstance(a, Elem):
        a = a.val()
    if isinstance(b, Elem):
        b = b.val()
    if isinstance(a, M) and isinstance(b, M):
        if not (a.r.eq(b.r) and a.c.eq(b.c)):
            raise ShapeError("%s: shapes %sx%s and %sx%s" % (what, a.r, a.c, b.r, b.c), a.r * 1000003 + a.c, b.r * 1000003 + b.c)
        d = a - b
        if not d.iszero():
            f = Fail(what + ": residual " + str(d)[:600])
            f.residual = d
            raise f
        return
    a, b = S.of(a), S.of(b)
    d = a - b
    if not d.iszero():
        f = Fail(what + ": residual " + str(d)[:600])
        f.residual = d
        raise f


def need(rt, c, what):
    rt.nob += 1
    if not c:
        if hasattr(rt, "goal"):
            rt.goal(False, what)        # refuted when the path is possible
            return
        raise Fail(what)


def reach(rt, o, name, *args, cls=None, sig=None):
    """run the source of o.name(args)"""
    fns = rt.prog.lookup(cls or o.cls, name)
    if not fns:
        raise Unsupported("no source for %s::%s" % (cls or o.cls, name))
    m = [f for f in fns if len(f.params) >= len(args) and (sig is None or sig in f.sig)]
    if not m:
        raise Unsupported("no overload of %s" % name)
    return rt.run(m[0], o, list(args))


# ------------------------------------------------------------------ runner
def summarise(rs, minok):
    out = {"msg": ""}
    st = [r.status for r in rs]
    out["paths"] = len(rs)
    out["ok"] = st.count("ok")
    out["goals"] = sum(r.nob for r in rs if r.status == "ok")
    used, inl, con = set(), set(), set()
    for r in rs:
        used |= set(map(str, r.used))
        inl |= set(map(str, r.inlined))
        con |= set(getattr(r, "contracts", ()))
    out["used"], out["inlined"], out["contracts"] = sorted(used), sorted(inl), sorted(con)
    bad = [r for r in rs if r.status == "fail"]
    und = [r for r in rs if r.status in ("unsupported", "unproved")]
    if bad:
        out["status"] = "refuted"
        out["msg"] = bad[0].msg + (" on path " + bad[0].pc if bad[0].pc else "")
    elif und:
        out["status"] = "undecided"
        out["msg"] = und[0].msg + (" on path " + und[0].pc if und[0].pc else "")
    elif out["ok"] < minok or out["goals"] < 1:
        out["status"] = "undecided"
        out["msg"] = "vacuous: no feasible path reached a goal"
    else:
        out["status"] = "discharged"
    return out


def run_one(prog, o):
    t = time.time()
    out = {"id": o.oid, "paths": 0, "ok": 0, "goals": 0, "used": [], "inlined": [], "contracts": [], "msg": ""}
    try:
        if o.custom:
            out.update(o.custom(prog))
            out["t"] = round(time.time() - t, 3)
            return out
        rs = explore(prog, o.body, maxpaths=o.maxpaths, mk=o.mk or defmk, rtcls=o.rtcls)
    except Exception as e:      # a crash of the verifier is never a verdict
        out["status"] = "undecided"
        out["msg"] = "verifier: %s: %s" % (type(e).__name__, e)
        out["trace"] = traceback.format_exc()[-1500:]
        out["t"] = round(time.time() - t, 3)
        return out
    out.update(summarise(rs, o.minok))
    out["t"] = round(time.time() - t, 3)
    return out


def run_all(prog_of, obls, jobs=None, deadline=None, verbose=False):
    """prog_of(group) -> Program. Each obligation runs in a forked child with its own time limit."""
    jobs = jobs or min(8, os.cpu_count() or 4)
    todo = list(obls)
    for o in todo:
        prog_of(o.group)
    run = {}
    res = []
    again = []      # undecided for want of solver time: tried once more when the others are done
    while todo or run or again:
        now = time.time()
        if not todo and not run:
            todo, again = again, []
            jobs = max(1, jobs // 2)
        while todo and len(run) < jobs:
            o = todo.pop(0)
            if deadline and now > deadline:
                res.append({"id": o.oid, "status": "undecided", "msg": "time budget of the check", "t": 0, "paths": 0, "ok": 0,
                            "goals": 0, "used": [], "inlined": [], "contracts": []})
                continue
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    import resource
                    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
                    resource.setrlimit(resource.RLIMIT_STACK, (resource.RLIM_INFINITY, resource.RLIM_INFINITY)) if False else None
                    if getattr(o, "retried", False):
                        SLOW[0] = 4
                    x = run_one(prog_of(o.group), o)
                    with os.fdopen(w, "w") as f:
                        f.write(json.dumps(x))
                except BaseException as e:
                    try:
                        with os.fdopen(w, "w") as f:
                            f.write(json.dumps({"id": o.oid, "status": "undecided", "msg": "verifier: %r" % e, "paths": 0, "ok": 0,
                                                "goals": 0, "used": [], "inlined": [], "contracts": [], "t": 0}))
                    except BaseException:
                        pass
                finally:
                    os._exit(0)
            os.close(w)
            run[r] = (pid, o, time.time(), [])
        rd, _, _ = select.select(list(run), [], [], 0.5)
        for fd in rd:
            pid, o, t0, buf = run[fd]
            b = os.read(fd, 1 << 16)
            if b:
                buf.append(b)
                continue
            os.close(fd)
            os.waitpid(pid, 0)
            del run[fd]
            try:
                x = json.loads(b"".join(buf).decode())
            except ValueError:
                x = {"id": o.oid, "status": "undecided", "msg": "verifier process died", "paths": 0, "ok": 0, "goals": 0,
                     "used": [], "inlined": [], "contracts": [], "t": round(time.time() - t0, 2)}
            if x["status"] == "undecided" and "no answer" in x["msg"] and not getattr(o, "retried", False) and (not deadline or time.time() < deadline - 60):
                o.retried = True
                o.timeout *= 2
                again.append(o)
                continue
            res.append(x)
            if verbose:
                print("%-11s %6.2fs %3d paths %3d goals  %s  %s" % (x["status"], x["t"], x["paths"], x["goals"], x["id"], x["msg"][:900]), flush=True)
        now = time.time()
        for fd in list(run):
            pid, o, t0, buf = run[fd]
            if now - t0 > o.timeout or (deadline and now > deadline + 20):
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(fd)
                del run[fd]
                res.append({"id": o.oid, "status": "undecided", "msg": "timeout %ds" % o.timeout, "paths": 0, "ok": 0, "goals": 0,
                            "used": [], "inlined": [], "contracts": [], "t": round(now - t0, 2)})
                if verbose:
                    print("timeout     %s" % o.oid, flush=True)
    res.sort(key=lambda x: x["id"])
    return res


GROUPS = {
    "elem": lambda repo: ["Manifolds/Element.cpp", "Manifolds/SmartSpace.cpp"],
    "mani": lambda repo: ["Manifolds/" + f for f in sorted(os.listdir(repo + "/Manifolds")) if f.endswith(".cpp")],
    "solv": lambda repo: ["Manifolds/Element.cpp", "Manifolds/Manifold.cpp"] +
    ["Solvers/" + f for f in sorted(os.listdir(repo + "/Solvers")) if f.endswith(".cpp")] +
    ["Problems/Problem.cpp"],
    "prob": lambda repo: ["Manifolds/Element.cpp", "Manifolds/Manifold.cpp"] +
    ["Problems/" + f for f in sorted(os.listdir(repo + "/Problems")) if f.endswith(".cpp") and f not in ("mexProblem.cpp", "juliaProblem.cpp")],
    "sparse": lambda repo: ["Others/SparseBLAS/nist_spblas.cpp"],
    "other": lambda repo: ["Others/" + f for f in ("MinPNormConHull.cpp", "SparseMatrix.cpp", "Spline.cpp", "randgen.cpp", "BlasLapackCppWrapper.cpp", "wavelet/wavelet.cpp")],
}
_progs = {}


def prog_of(group):
    import cxx
    if group not in _progs:
        _progs[group] = cxx.Program(GROUPS[group](cxx.REPO))
    return _progs[group]


def main():
    if os.environ.get("PYTHONHASHSEED") != "0":
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable] + sys.argv)
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="*")
    ap.add_argument("--only", default="")
    ap.add_argument("--trace", action="store_true")
    a = ap.parse_args()
    import specs
    specs.load()
    obls = [o for p, l in OBS.items() for o in l if (not a.prop or p in a.prop) and a.only in o.oid]
    t = time.time()
    res = run_all(prog_of, obls, verbose=True)
    if a.trace:
        for x in res:
            if x.get("trace"):
                print(x["id"], x["trace"])
    c = {}
    for x in res:
        c[x["status"]] = c.get(x["status"], 0) + 1
    print(c, "%.1fs" % (time.time() - t))


if __name__ == "__main__":
    sys.modules["ob"] = sys.modules["__main__"]
    main()
