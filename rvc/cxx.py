"""Mechanical extraction of the real ROPTLIB sources.

clang 18 parses each translation unit with the flags of the project's own build and dumps its AST as JSON;
this module turns the JSON into compact trees. Nothing is written by hand: the bodies that the verification
conditions are generated from are the bodies the compiler sees. What is dropped: source locations,
implicit value-category casts, template bodies of the standard library."""
import hashlib
import json
import os
import subprocess
import sys
from concurrent.futures import ProcessPoolExecutor

REPO = os.environ.get("RVC_REPO", "/repo")
INCS = ["", "Manifolds", "Others", "Others/SparseBLAS", "Others/fftw", "Others/wavelet", "Problems", "Solvers",
        "cwrapper", "cwrapper/blas", "cwrapper/lapack", "test"]
FLAGS = ["-std=c++11", "-w", "-DDRIVERCPP", "-DROPTLIB_WITH_FFTW"]


class ExtractError(Exception):
    pass


class N:
    """AST node"""
    __slots__ = ("k", "name", "ty", "ch", "op", "val", "ref", "x", "line")

    def __init__(self, k):
        self.k = k
        self.name = None
        self.ty = None
        self.ch = []
        self.op = None
        self.val = None
        self.ref = None
        self.x = None
        self.line = None

    def __repr__(self):
        return "<%s %s %s>" % (self.k, self.name or self.op or self.val or "", self.ty)

    def walk(self):
        yield self
        for c in self.ch:
            yield from c.walk()


class Fn:
    __slots__ = ("cls", "name", "params", "body", "ret", "const", "static", "inits", "file", "line", "sig", "virtual")

    def __repr__(self):
        return "%s::%s%s" % (self.cls, self.name, self.sig)

    def key(self):
        return "%s::%s(%s)" % (self.cls, self.name, ",".join(t for _, t, _ in self.params))


SKIP = {"ImplicitCastExpr": 0, "ParenExpr": 0, "ExprWithCleanups": 0, "MaterializeTemporaryExpr": 0,
        "CXXBindTemporaryExpr": 0, "ConstantExpr": 0, "CXXFunctionalCastExpr": 1, "FullComment": -1,
        "SubstNonTypeTemplateParmExpr": 0}


def conv(j):
    k = j.get("kind")
    if k is None:
        return N("Null")
    inner = j.get("inner", [])
    if k in ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ConstantExpr",
             "SubstNonTypeTemplateParmExpr"):
        return conv(inner[0])
    if k == "ImplicitCastExpr":
        ck = j.get("castKind")
        if ck in ("IntegralToFloating", "FloatingToIntegral", "FloatingCast", "IntegralCast", "PointerToBoolean",
                  "IntegralToBoolean", "FloatingToBoolean", "DerivedToBase", "UncheckedDerivedToBase",
                  "UserDefinedConversion", "ConstructorConversion", "NullToPointer"):
            if ck in ("DerivedToBase", "UncheckedDerivedToBase", "UserDefinedConversion", "ConstructorConversion",
                      "NullToPointer"):
                return conv(inner[0])
            n = N("Cast")
            n.op = ck
            n.ty = j["type"]["qualType"]
            n.ch = [conv(inner[0])]
            return n
        return conv(inner[0])
    n = N(k)
    n.name = j.get("name")
    t = j.get("type")
    if t:
        n.ty = t.get("qualType")
    n.op = j.get("opcode")
    if "value" in j:
        n.val = j["value"]
    if k == "UnaryOperator":
        n.x = j.get("isPostfix", False)
    if k == "MemberExpr":
        n.x = j.get("isArrow", False)
        n.ref = ("member", j.get("referencedMemberDecl"))
        rg = j.get("range", {})
        b, e = rg.get("begin", {}), rg.get("end", {})
        b, e = b.get("expansionLoc", b), e.get("expansionLoc", e)
        if "offset" in b and "offset" in e and inner and _isimpl(inner[0]) and b["offset"] != e["offset"]:
            n.val = True   # written with a class qualifier: Base::f(...)
    r = j.get("referencedDecl")
    if r:
        n.ref = (r.get("kind"), r.get("id"), r.get("name"), r.get("type", {}).get("qualType"))
    if "castKind" in j:
        n.op = j["castKind"]
    if k == "VarDecl":
        n.ref = j.get("id")
        n.x = j.get("init")
        if j.get("storageClass"):
            n.op = j.get("storageClass")
    if k == "CXXConstructExpr":
        n.x = j.get("ctorType", {}).get("qualType")
    if k == "IfStmt":
        n.x = {"else": j.get("hasElse", False), "init": j.get("hasInit", False), "var": j.get("hasVar", False)}
    if k == "CXXDeleteExpr" or k == "CXXNewExpr":
        n.x = j.get("isArray", False)
        if k == "CXXNewExpr":
            n.op = j.get("initStyle")
    if k == "CXXCtorInitializer":
        a = j.get("anyInit")
        n.name = a.get("name") if a else None
        b = j.get("baseInit")
        n.ty = b.get("qualType") if b else None
    if k == "CXXDefaultArgExpr":
        n.ch = []
        return n
    if k == "ForStmt":
        # init, condvar, cond, inc, body (clang emits {} for missing)
        n.ch = [conv(c) if c else N("Null") for c in inner]
        return n
    n.ch = [conv(c) if c else N("Null") for c in inner if not (c and c.get("kind", "").endswith("Comment"))]
    return n


def _isimpl(j):
    while j.get("kind") == "ImplicitCastExpr":
        j = j["inner"][0]
    return j.get("kind") == "CXXThisExpr" and j.get("implicit", False)


class TU:
    def __init__(self):
        self.byid = {}
        self.fns = []      # Fn with bodies
        self.classes = {}  # name -> dict(bases, fields: name->type, methods)
        self.enums = {}    # enumerator name -> int
        self.globals = {}


def _fn(j, cls):
    f = Fn()
    f.cls = cls
    f.name = j["name"]
    f.sig = j.get("type", {}).get("qualType", "")
    f.ret = f.sig.split("(")[0].strip()
    f.const = f.sig.rstrip().endswith("const")
    f.static = j.get("storageClass") == "static"
    f.virtual = j.get("virtual", False)
    f.params = []
    f.inits = []
    f.body = None
    for c in j.get("inner", []):
        if c.get("kind") == "ParmVarDecl":
            init = None
            if c.get("inner"):
                init = conv(c["inner"][0])
            f.params.append((c.get("name"), c["type"]["qualType"], (c.get("id"), init)))
        elif c.get("kind") == "CompoundStmt":
            f.body = conv(c)
        elif c.get("kind") == "CXXCtorInitializer":
            f.inits.append(conv(c))
    return f


def _collect_ids(j, ids, path):
    k = j.get("kind")
    if k == "ClassTemplateDecl":
        for c in j.get("inner", []):
            if c.get("kind") == "ClassTemplateSpecializationDecl":
                arg = [a["type"]["qualType"] for a in c.get("inner", []) if a.get("kind") == "TemplateArgument" and "type" in a]
                ids[c["id"]] = "%s<%s>" % (j.get("name"), ",".join(arg))
    if k in ("CXXRecordDecl", "NamespaceDecl", "EnumDecl"):
        nm = j.get("name", "")
        ids[j["id"]] = nm
    if k in ("CXXRecordDecl", "NamespaceDecl", "LinkageSpecDecl"):
        for c in j.get("inner", []):
            _collect_ids(c, ids, path)


def _scan(j, tu, cls, ids):
    k = j.get("kind")
    if k in ("NamespaceDecl", "LinkageSpecDecl"):
        for c in j.get("inner", []):
            _scan(c, tu, cls, ids)
    elif k == "CXXRecordDecl":
        if not j.get("completeDefinition"):
            return
        nm = j.get("name", "")
        d = tu.classes.setdefault(nm, {"bases": [], "fields": {}, "methods": {}, "order": []})
        d["bases"] = [b["type"]["qualType"].replace("ROPTLIB::", "") for b in j.get("bases", [])]
        for c in j.get("inner", []):
            if c.get("kind") == "FieldDecl":
                tu.byid[c["id"]] = (nm, c["name"], None)
                d["fields"][c["name"]] = c["type"]["qualType"]
                d["order"].append(c["name"])
            elif c.get("kind") in ("CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl"):
                f = _fn(c, nm)
                tu.byid[c["id"]] = (nm, c["name"], f.sig)
                d["methods"].setdefault(f.name, []).append((f.sig, f.virtual, [(p[0], p[1], p[2][1]) for p in f.params]))
                if f.body is not None:
                    tu.fns.append(f)
            elif c.get("kind") in ("CXXRecordDecl", "EnumDecl"):
                _scan(c, tu, cls, ids)
    elif k == "ClassTemplateDecl":
        for c in j.get("inner", []):
            if c.get("kind") == "ClassTemplateSpecializationDecl":
                arg = [a["type"]["qualType"] for a in c.get("inner", []) if a.get("kind") == "TemplateArgument" and "type" in a]
                _scan(dict(c, kind="CXXRecordDecl", name="%s<%s>" % (j.get("name"), ",".join(arg))), tu, cls, ids)
    elif k == "EnumDecl":
        v = 0
        for c in j.get("inner", []):
            if c.get("kind") == "EnumConstantDecl":
                if c.get("inner"):
                    def fv(n):
                        if "value" in n:
                            return int(n["value"])
                        for q in n.get("inner", []):
                            r = fv(q)
                            if r is not None:
                                return r
                        return None
                    r = fv(c["inner"][0])
                    if r is not None:
                        v = r
                tu.enums[c["name"]] = v
                v += 1
    elif k in ("CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "FunctionDecl"):
        c = cls
        pid = j.get("parentDeclContextId")
        if pid in ids:
            c = ids[pid]
        if c == "ROPTLIB":
            c = ""
        f = _fn(j, c or "")
        tu.byid[j["id"]] = (c or "", f.name, f.sig)
        if f.body is not None:
            tu.fns.append(f)
    elif k == "VarDecl":
        if j.get("inner"):
            try:
                tu.globals[j["name"]] = conv(j["inner"][0])
            except Exception:
                pass


def dump(path, flt="ROPTLIB"):
    cmd = ["clang", "-x", "c++"] + FLAGS + ["-I" + os.path.join(REPO, i) for i in INCS] + \
          ["-fsyntax-only", "-Xclang", "-ast-dump=json"]
    if flt:
        cmd += ["-Xclang", "-ast-dump-filter=" + flt]
    cmd.append(path)
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
    if p.returncode != 0:
        raise ExtractError("clang failed on %s: %s" % (path, p.stderr.decode()[:800]))
    return p.stdout.decode()


def load(path):
    """parse one file of /repo (path relative to REPO)"""
    full = os.path.join(REPO, path)
    if not os.path.exists(full):
        raise ExtractError("no such file " + full)
    txt = dump(full, "haar" if path.endswith("wavelet.cpp") else "NIST_SPBLAS" if path.endswith("nist_spblas.cpp") else "ROPTLIB")
    dec = json.JSONDecoder()
    docs = []
    pos = 0
    L = len(txt)
    while pos < L:
        b = txt.find("{", pos)
        if b < 0:
            break
        o, e = dec.raw_decode(txt, b)
        docs.append(o)
        pos = e
    tu = TU()
    ids = {}
    for d in docs:
        _collect_ids(d, ids, [])
    seen = set()
    for d in docs:
        if d.get("id") in seen:
            continue
        seen.add(d.get("id"))
        _scan(d, tu, "", ids)
    for f in tu.fns:
        f.file = path
        for root in [f.body] + f.inits:
            for n in root.walk():
                if n.k == "MemberExpr" and n.ref and n.ref[0] == "member":
                    n.ref = tu.byid.get(n.ref[1])
    return tu


def header_enums():
    """enumerations declared outside the namespace (the AST dump is restricted to ROPTLIB)"""
    import re, glob
    out = {}
    for d in ("Manifolds", "Solvers", "Problems", "Others", "Others/SparseBLAS"):
        for p in glob.glob(os.path.join(REPO, d, "*.h")):
            t = open(p, errors="replace").read()
            t = re.sub(r"/\*.*?\*/|//[^\n]*", " ", t, flags=re.S)
            for m in re.finditer(r"\benum\s+\w*\s*\{([^}]*)\}", t):
                v = 0
                for it in m.group(1).split(","):
                    it = it.strip()
                    if not it:
                        continue
                    if "=" in it:
                        it, e = [q.strip() for q in it.split("=", 1)]
                        if not re.fullmatch(r"-?\d+", e):
                            break
                        v = int(e)
                    out.setdefault(it, v)
                    v += 1
    return out


class Program:
    """Union of translation units"""

    def __init__(self, files):
        self.files = list(files)
        self.fns = {}       # (cls,name) -> list of Fn
        self.classes = {}
        self.enums = {}
        self.globals = {}
        if len(self.files) > 2:
            with ProcessPoolExecutor(min(8, len(self.files))) as ex:
                tus = list(ex.map(load, self.files))
        else:
            tus = [load(f) for f in self.files]
        for tu in tus:
            for f in tu.fns:
                lst = self.fns.setdefault((f.cls, f.name), [])
                if not any(g.sig == f.sig for g in lst):
                    lst.append(f)
            for c, d in tu.classes.items():
                self.classes.setdefault(c, d)
            self.enums.update(tu.enums)
            self.globals.update(tu.globals)
        for k, v in header_enums().items():
            self.enums.setdefault(k, v)

    def bases(self, cls):
        """linearised base chain, most derived first"""
        out = [cls]
        d = self.classes.get(cls)
        if d:
            for b in d["bases"]:
                for x in self.bases(b):
                    if x not in out:
                        out.append(x)
        return out

    def lookup(self, cls, name, nargs=None):
        for c in self.bases(cls):
            l = self.fns.get((c, name))
            if l:
                if nargs is None:
                    return l
                m = [f for f in l if len(f.params) >= nargs]
                if m:
                    return m
        return []

    def fields(self, cls):
        out = {}
        for c in self.bases(cls):
            d = self.classes.get(c)
            if d:
                for k, v in d["fields"].items():
                    out.setdefault(k, v)
        return out


if __name__ == "__main__":
    import time
    t = time.time()
    P = Program(sys.argv[1:])
    print(time.time() - t, len(P.fns))
    for k, v in P.fns.items():
        print(k, [f.sig for f in v])
