"""python3-vt check.py C04          decide one property of /repo's current tree
   python3-vt check.py --replay F   run the input of a replay file against the current tree again
   python3-vt check.py --selftest [N [SEED]]   compare the evaluator with CPython on N generated programs

Exit status: 0 the property held on everything explored; 1 with a VIOLATION line; anything else is an error of the check."""
import hashlib
import json
import os
import sys
import time

sys.dont_write_bytecode = True
sys.setrecursionlimit(6000)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

CROSS = {"quick": 8.0, "thorough": 90.0}       # seconds of bounded cross-check when everything is discharged
STANDIN = {"quick": 45.0, "thorough": 400.0}   # seconds of bounded search when something is not discharged
PROVE = {"quick": 420.0, "thorough": 2400.0}   # budget of the prover


def known_findings(pid):
    d = json.load(open(os.path.join(HERE, "known_findings.json"), encoding="utf-8"))
    return [k for k in d["findings"] if k["property"] == pid]


def write_replay(pid, data):
    d = os.path.join(HERE, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    text = json.dumps(data, indent=1, ensure_ascii=False, default=str)
    p = os.path.join(d, "%s-%s.json" % (pid, hashlib.sha1(text.encode("utf-8", "surrogatepass")).hexdigest()[:10]))
    with open(p, "w", encoding="utf-8", errors="surrogatepass") as f:
        f.write(text)
    return p


def write_evidence(pid, data):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w", encoding="utf-8", errors="replace") as f:
        json.dump(data, f, indent=1, ensure_ascii=False, default=str)


def main(pid, tier, seed):
    t0 = time.monotonic()
    known = known_findings(pid)
    try:
        from pyvc import properties as P
        results, info = P.decide(pid, tier, seed, PROVE[tier])
    except Exception as e:  # noqa: B902  (the prover failed, not the code: nothing is discharged, the bounded search stands in)
        import traceback
        traceback.print_exc()
        results, info = [{"name": "prover", "status": "unknown", "detail": "error of the prover: %s: %s" % (type(e).__name__, e)}], {}
    t_prove = time.monotonic() - t0
    finding = [r for r in results if r["status"] == "known finding"]
    open_ = [r for r in results if r["status"] not in ("proved", "known finding")]
    witness = None
    for r in open_:
        if r.get("witness"):
            witness = r["witness"]
            break
    stats = {}
    if witness is None:
        from search import run
        witness, stats = run.run(pid, (STANDIN if open_ or not results else CROSS)[tier], seed, known,
                                names=[r["name"] for r in open_])
    from search import report
    for k in report.present_findings(pid, known):
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    refuted = [r for r in open_ if r["status"] == "refuted"]
    level = "proof" if results else "exploration"
    cov = {
        "obligations": len(results), "discharged": len(results) - len(open_) - len(finding),
        "known_findings": [r["name"] for r in finding],
        "checker_cmd": "python3-vt /verif/check.py %s" % pid,
        "trusted_base": info.get("trusted_base", []),
        "not_discharged": [{k: r.get(k) for k in ("name", "status", "detail")} for r in open_],
        "functions_under_contract": info.get("functions", []),
        "by_backend": info.get("by_backend", {}),
        "solver": info.get("solver", {}),
        "obligation_list": [r["name"] for r in results][:400],
        "bounded_cross_check": stats,
        "evaluations": stats.get("evaluations", 0),
        "distinct_nontrivial": stats.get("distinct_nontrivial", 0),
        "rule": "cases from the generators of search/ for this property; distinct by their text",
        "samples": stats.get("samples", []),
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": info.get("assumptions", []), "wall_s": 0, "violations": 0}
    code = 0
    if witness is not None:
        path = write_replay(pid, {"property": pid, "kind": "failing input", "witness": witness,
                                  "failed_obligations": cov["not_discharged"]})
        print("%s: %s" % (pid, json.dumps(witness, ensure_ascii=True, default=str)[:1500]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        code = 1
    elif refuted:
        path = write_replay(pid, {"property": pid, "kind": "failed obligation", "failed_obligations": refuted})
        for r in refuted:
            print("%s: obligation %s failed: %s" % (pid, r["name"], str(r.get("detail"))[:600]))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, path))
        code = 1
    ev["violations"] = code
    ev["wall_s"] = round(time.monotonic() - t0, 2)
    cov["prover_wall_s"] = round(t_prove, 2)
    write_evidence(pid, ev)
    if not code:
        print("%s: %d obligations, %d discharged, %d cases of the bounded cross-check, %.1f s"
              % (pid, len(results), cov["discharged"], stats.get("evaluations", 0), ev["wall_s"]))
        for r in open_:
            print("  not discharged (bounded stand-in only): %s: %s" % (r["name"], str(r.get("detail"))[:200]))
    return code


if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        from search import report
        sys.exit(report.replay(sys.argv[2]))
    if sys.argv[1] == "--selftest":
        from search import real
        real.module("converter")
        import z3
        print("ready: z3", z3.get_version_string())
        from pyvc import selftest
        try:
            r = selftest.run(int(sys.argv[2]) if len(sys.argv) > 2 else 160, int(sys.argv[3]) if len(sys.argv) > 3 else 1)
        except Exception as e:      # a tree the evaluator cannot be set up for: the checks say so themselves
            print("self-test not run: %s: %s" % (type(e).__name__, e))
            sys.exit(0)
        print("evaluator against CPython: %d programs agree, %d refused, %d differ" % (r["ok"] + r["weak"], r["refused"], len(r["wrong"])))
        for src, why in r["wrong"]:
            print(why)
            print(src)
        sys.exit(1 if r["wrong"] else 0)
    tier = os.environ.get("VERIF_TIER", "quick")
    code = 3
    try:
        code = main(sys.argv[1], tier if tier in PROVE else "quick", int(os.environ.get("VERIF_SEED", "1") or 1))
    finally:
        sys.stdout.flush()
        if code == 3:
            import traceback
            traceback.print_exc()
    os._exit(code)
