#!/opt/veriftools/pyvenv/bin/python3
"""check.py PROPERTY [--thorough]: proves the obligations of one property on /repo's current source; replays refuted ones
against the compiled library; bounded stand-ins for what is out of the prover's reach. Exit 0 held, 1 violation."""
import traceback, json
import os
import re
import subprocess
import sys
import time
import threading

if os.environ.get("PYTHONHASHSEED") != "0":     # the order of facts given to the solver is the same on every run
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "rvc"))
sys.path.insert(0, os.path.join(V, "lib"))
sys.setrecursionlimit(20000)


def known(prop):
    """entries of known-findings.txt: (kind regex, text)"""
    out = []
    for ln in open(os.path.join(V, "known-findings.txt")):
        m = re.match(r"KNOWN property=(\S+) match=(\S+) (.*)$", ln.strip())
        if m and m.group(1) == prop:
            out.append((re.compile(m.group(2)), m.group(3)))
    return out


def main():
    prop = sys.argv[1]
    thorough = "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough"
    tier = "thorough" if thorough else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    import buildh
    hres = {}

    def hb():
        try:
            hres["ok"], hres["exe"] = buildh.build()
        except Exception as e:      # noqa
            hres["ok"], hres["exe"] = False, repr(e)
    th = threading.Thread(target=hb)
    th.start()
    th.join()      # forked provers must not inherit a half-built pool
    tb = time.time() - t0

    # ---- proofs
    import ob
    import specs
    import cxx
    res, perr = [], ""
    t1 = time.time()
    try:
        specs.load()
        obls = ob.OBS.get(prop, [])
        res = ob.run_all(ob.prog_of, obls, deadline=time.time() + (500 if not thorough else 650))
    except Exception as e:      # extraction failed, or the prover itself: nothing is proved, the bounded check decides
        perr = "%s: %s" % ("extraction failed" if isinstance(e, cxx.ExtractError) else "prover " + type(e).__name__, e)
        sys.stderr.write(traceback.format_exc())
        obls = ob.OBS.get(prop, [])
        res = [{"id": o.oid, "status": "undecided", "msg": perr, "paths": 0, "ok": 0, "goals": 0, "used": [], "inlined": [],
                "contracts": [], "t": 0} for o in obls]
    tp = time.time() - t1
    dis = [r for r in res if r["status"] == "discharged"]
    ref = [r for r in res if r["status"] == "refuted"]
    und = [r for r in res if r["status"] == "undecided"]

    # ---- the real code: replay and bounded stand-ins
    fails, groups, checks, herr = [], {}, 0, ""
    t2 = time.time()
    hprops = []
    for k in range(5):
        try:
            hprops = subprocess.run([hres["exe"], "--list"], capture_output=True, text=True).stdout.split() if hres["ok"] else []
            break
        except OSError as e:        # e.g. the file just linked is still held open
            herr = repr(e)
            time.sleep(1 + k)
    if not hres["ok"]:
        herr = "harness does not build: " + hres["exe"][-800:]
    elif prop in hprops:
        budget = max(60, (840 if thorough else 700) - (time.time() - t0))
        try:
            cmd = [hres["exe"], prop, "--seed", str(seed)] + (["--thorough"] if thorough else [])
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=budget, errors="replace")
            for ln in r.stdout.splitlines():
                if ln.startswith("FAIL "):
                    fails.append(ln[5:])
                elif ln.startswith("GROUP "):
                    k, c = ln[6:].rsplit(" ", 1)
                    k = re.sub(r"#\d+", "", k)
                    groups[k] = groups.get(k, 0) + int(c)
                elif ln.startswith("CHECKS "):
                    checks = int(ln.split()[1])
            if r.returncode not in (0, 1):
                herr = "harness exit %d: %s" % (r.returncode, r.stderr[-500:])
        except subprocess.TimeoutExpired:
            herr = "harness time limit"
        except OSError as e:
            herr = repr(e)
    th_ = time.time() - t2

    kn = known(prop)
    news, olds = [], {}
    for f in fails:
        m = [t for rx, t in kn if rx.search(f)]
        if m:
            olds.setdefault(m[0], []).append(f)
        else:
            news.append(f)
    refnew = []
    for r in ref:
        m = [t for rx, t in kn if rx.search(r["id"])]
        if m:
            olds.setdefault(m[0], []).append("obligation " + r["id"])
        else:
            refnew.append(r)

    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    viol = []
    rc = 0
    for t in olds:
        print("KNOWN-FINDING: property=%s %s" % (prop, t))
    if news or refnew:
        rc = 1
        rp = os.path.join(V, "evidence", "replay-%s.json" % prop)
        viol = [r["id"] for r in refnew] + news[:40]
        first = news[0].split(" ")[0] if news else ""
        with open(rp, "w") as f:
            json.dump({"property": prop,
                       "failed_obligations": [{"obligation": r["id"], "verifier_output": r["msg"]} for r in refnew],
                       "undischarged_obligations": [{"obligation": r["id"], "verifier_output": r["msg"]} for r in und],
                       "failing_inputs": news[:200],
                       "replay_cmd": "python3 %s/lib/buildh.py && <printed executable> %s --seed %d%s   # case id: %s" %
                       (V, prop, seed, " --thorough" if thorough else "", first)}, f, indent=1)
        for r in refnew[:10]:
            print("OBLIGATION FAILED: %s: %s" % (r["id"], r["msg"][:400]))
        for n in news[:10]:
            print("FAILING INPUT: " + n[:400])
        print("VIOLATION property=%s replay=%s%s" % (prop, rp, "" if news else " no-failing-input-found"))
    for r in und:
        print("undischarged (bounded check decides): %s: %s" % (r["id"], r["msg"][:300]))

    used = sorted(set(u for r in dis for u in r["used"]))
    ev = {
        "property": prop, "tier": tier, "seed": seed,
        "level": "proof" if obls else "exploration",
        "coverage": {
            "obligations": len(res),
            "discharged": len(dis),
            "goals_discharged": sum(r["goals"] for r in dis),
            "paths": sum(r["paths"] for r in res),
            "checker_cmd": "python3-vt /verif/rvc/ob.py %s" % prop,
            "backend": "rvc: symbolic execution of the clang AST of /repo's sources; goals closed by exact rewriting in the "
                       "*-algebra of the contracts (rationals), index arithmetic and path conditions by z3",
            "solver_seconds": round(sum(r["t"] for r in res), 2),
            "functions_under_contract": used,
            "trusted_base": sorted(set(c for r in res for c in r["contracts"])) + [
                "real arithmetic instead of IEEE double", "clang 18 AST", "rvc verifier (python)", "z3 4.x"],
            "obligation_list": [{"id": r["id"], "status": r["status"], "goals": r["goals"], "paths": r["paths"], "s": r["t"]} for r in res],
            "undischarged": [{"id": r["id"], "why": r["msg"][:300]} for r in und],
            "bounded_standin": {"label": "bounded, never counted as proved", "checks": checks, "groups": groups,
                                "error": herr, "seconds": round(th_, 2)},
            "evaluations": checks,
            "distinct_nontrivial": len(groups),
            "rule": "bounded cases run the compiled sources on random sizes/points/vectors per configuration; a group is one "
                    "configuration of one class",
            "samples": (sorted(groups)[:5] + [r["id"] for r in dis[:3]]) or ["none"],
        },
        "assumptions": specs.assumptions(prop) if hasattr(specs, "assumptions") else [],
        "violations": len(viol), "violation_list": viol[:60],
        "known_findings": sorted(olds),
        "times": {"build": round(tb, 2), "proof": round(tp, 2), "harness": round(th_, 2)},
        "wall_s": round(time.time() - t0, 2),
    }
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if rc == 0 and not dis and not checks:
        print("no obligation discharged and no bounded check ran: %s %s" % (perr, herr))
        return 2
    print("%s: %d/%d obligations discharged (%d goals), bounded checks %d, %.1fs%s" %
          (prop, len(dis), len(res), sum(r["goals"] for r in dis), checks, time.time() - t0, " " + herr if herr else ""))
    return rc


if __name__ == "__main__":
    sys.exit(main())
