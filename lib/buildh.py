"""Build the harness from the current sources of /repo (content-hashed objects in /verif/build/obj)."""
import os, sys, glob, hashlib, subprocess, concurrent.futures as cf
REPO = os.environ.get("RVC_REPO", "/repo")
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(V, "build")
INCD = ["", "Manifolds", "Others", "Others/SparseBLAS", "Others/fftw", "Others/wavelet", "Problems", "Solvers", "cwrapper", "cwrapper/blas", "cwrapper/lapack"]
FLAGS = ["-std=c++11", "-O1", "-w", "-DROPTLIB_WITH_FFTW", "-fno-access-control", "-fwrapv"]


def repo_sources():
    s = []
    for d in ("Manifolds", "Solvers", "Problems", "Others", "Others/wavelet", "Others/SparseBLAS", "Others/fftw"):
        for e in ("*.cpp", "*.c"):
            s += glob.glob(os.path.join(REPO, d, e))
    return sorted(x for x in s if not any(k in os.path.basename(x).lower() for k in ("mex", "julia", "driver")))


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def rd(f):
    with open(f, "rb") as h:
        return h.read()


def build(log=None, extra_flags=(), tag=""):
    """returns (ok, path or error text)"""
    os.makedirs(os.path.join(OUT, "obj"), exist_ok=True)
    inc = ["-I" + os.path.join(REPO, d) for d in INCD] + ["-I" + os.path.join(V, "harness")]
    heads = sorted(sum([glob.glob(os.path.join(REPO, d, "*.h")) for d in INCD], []))
    hh = sha(*[rd(f) for f in heads])
    vh = sha(*[rd(f) for f in sorted(glob.glob(os.path.join(V, "harness", "*.h")))])
    jobs = []
    for f in repo_sources():
        jobs.append((f, os.path.join(OUT, "obj", sha(f, rd(f), hh, " ".join(FLAGS + list(extra_flags))) + ".o")))
    for f in sorted(glob.glob(os.path.join(V, "harness", "*.cpp"))):
        jobs.append((f, os.path.join(OUT, "obj", sha(f, rd(f), hh, vh, " ".join(FLAGS + list(extra_flags))) + ".o")))

    def one(j):
        f, o = j
        if os.path.exists(o):
            return None
        t = o + ".%d.tmp" % os.getpid()
        r = subprocess.run(["g++"] + FLAGS + list(extra_flags) + inc + ["-c", f, "-o", t], capture_output=True, text=True)
        if r.returncode:
            return f + "\n" + r.stderr[-3000:]
        os.rename(t, o)
        return None
    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        # biggest first
        errs = [e for e in ex.map(one, sorted(jobs, key=lambda j: -os.path.getsize(j[0]))) if e]
    if errs:
        return False, "\n".join(errs)
    exe = os.path.join(OUT, "harness" + tag + "-" + sha(*[j[1] for j in jobs]))
    if not os.path.exists(exe):
        t = exe + ".%d.tmp" % os.getpid()
        r = subprocess.run(["g++"] + list(extra_flags) + [j[1] for j in jobs] + ["-o", t, "-llapack", "-lblas", "-lfftw3", "-lm"], capture_output=True, text=True)
        if r.returncode:
            return False, r.stderr[-3000:]
        os.rename(t, exe)
    return True, exe


if __name__ == "__main__":
    ok, x = build()
    print(x)
    sys.exit(0 if ok else 2)
