"""check.py C01 : decide one property on the current /repo tree.  Exit 0 / 1 (VIOLATION) / 3 (machinery)."""
import importlib
import json
import os
import sys
import time

os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True
REPO = os.environ.get("SPGREP_REPO", "/repo")
SRC = os.path.join(REPO, "src")
os.environ["PYTHONPATH"] = SRC
sys.path.insert(0, SRC)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

import runner  # noqa: E402


def known_findings(prop):
    try:
        data = json.load(open(os.path.join(runner.VERIF, "KNOWN_FINDINGS.json")))
    except FileNotFoundError:
        return []
    return [f for f in data["findings"] if f["property"] == prop and f["status"] == "known"]


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"):
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    modname = "check_" + prop.lower()
    mod = importlib.import_module(modname)
    design = []
    try:
        import spgrep
        assert os.path.realpath(spgrep.__file__).startswith(os.path.realpath(SRC)), spgrep.__file__
        for d in getattr(mod, "DESIGN", []):
            if d.get("tier", tier) != tier:
                continue
            out, st = runner.tlc(d["module"], d.get("cfg"), workers=8, heap="6g", extra=d.get("extra", ()), env=d.get("env"))
            if st["rc"] != 0 or "No error has been found" not in out:
                raise runner.Machinery("design model %s failed:\n%s" % (d, out[-3000:]))
            design.append({"module": d["module"], "cfg": d.get("cfg", d["module"] + ".cfg"), "states": st["states"], "transitions": st["transitions"]})
        if hasattr(mod, "main"):
            results, stats, times = mod.main(tier, seed)
        else:
            results, stats, times = runner.run(prop, modname, tier, seed)
    except runner.Machinery as e:
        print("MACHINERY-ERROR %s: %s" % (prop, e))
        sys.exit(3)
    os.makedirs(os.environ.get("VERIF_EVIDENCE", os.path.join(runner.VERIF, "evidence")), exist_ok=True)
    bad_cases = [r for r in results if r[1].startswith("BAD")]
    viol = [r for r in results if r[1] != "ok" and not r[1].startswith("BAD") and not r[1].startswith("KNOWN")]
    known = [r for r in results if r[1].startswith("KNOWN")]
    if bad_cases:
        p = os.path.join(os.environ.get("VERIF_EVIDENCE", os.path.join(runner.VERIF, "evidence")), "bad_%s.json" % prop)
        json.dump(bad_cases[0], open(p, "w"))
        # a stray illegal request (a borderline random draw) is left out and reported; more are an error of the machinery
        fatal = len(bad_cases) > max(1, len(results) // 1000)
        print("MACHINERY-%s %s: %d illegal cases, first %s %s" % ("ERROR" if fatal else "NOTE", prop, len(bad_cases), bad_cases[0][1], bad_cases[0][2]))
    kf = {f["signature"]: f for f in known_findings(prop)}
    real_known = {}
    for r in known:
        sig = r[1].split(":", 1)[1]
        if sig in kf:
            real_known.setdefault(sig, []).append(r)
        else:
            viol.append(r)
    for sig, rs in sorted(real_known.items()):
        print("KNOWN-FINDING: property=%s %s (%d cases, e.g. %s)" % (prop, kf[sig]["what"], len(rs), rs[0][2].get("id")))
    outdir = os.environ.get("VERIF_EVIDENCE", os.path.join(runner.VERIF, "evidence"))
    os.makedirs(outdir, exist_ok=True)
    nontriv = [r for r in results if r[2].get("nontrivial", True)]
    clauses = {}
    for r in results:
        clauses[r[1]] = clauses.get(r[1], 0) + 1
    cov = {
        "states": stats["states"] + sum(d["states"] for d in design),
        "transitions": stats["transitions"] + sum(d["transitions"] for d in design),
        "traces_validated_against_impl": len(results) - len(bad_cases),
        "distinct_cases": len({r[4] for r in results}),
        "distinct_nontrivial": len({r[4] for r in nontriv}),
        "evaluations": len(results),
        "illegal_requests": len(bad_cases),
        "rule": getattr(mod, "RULE", ""),
        "verdicts": clauses,
        "kinds": {k: sum(1 for r in results if r[2].get("kind") == k) for k in sorted({r[2].get("kind", "") for r in results})},
        "design_models": design,
        "samples": [{"info": r[2], "verdict": r[1]} for r in results[:: max(1, len(results) // 6)]][:8],
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": getattr(mod, "ASSUMES", []), "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    json.dump(ev, open(os.path.join(outdir, prop + ".json"), "w"), indent=1)
    if viol:
        rd = os.path.join(outdir, "replay")
        os.makedirs(rd, exist_ok=True)
        p = os.path.join(rd, "%s.json" % prop)
        json.dump([{"spec": r[0], "clause": r[1], "info": r[2], "case": r[3]} for r in viol[:20]], open(p, "w"))
        for r in viol[:8]:
            print("  clause %s : %s" % (r[1], json.dumps(r[2])[:300]))
        print("VIOLATION property=%s replay=%s" % (prop, p))
        sys.exit(1)
    if bad_cases and fatal:
        sys.exit(3)
    print("OK %s: %d cases (%d distinct), %d states, design %s, %.1fs (gen %.1f, total %.1f per shard)" % (
        prop, len(results), cov["distinct_cases"], cov["states"], [d["states"] for d in design], time.time() - t0, max(t[0] for t in times), max(t[1] for t in times)))


if __name__ == "__main__":
    main()
