"""Writes MANIFEST.json from properties.jsonl and the checks present."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
SPEC = {"C01": "SmallReps, LawModel", "C02": "SmallReps", "C03": "SmallReps", "C04": "SmallReps", "C05": "Primitive", "C06": "Tables, GroupRep", "C07": "RealReps",
        "C08": "SpinCover", "C09": "SmallReps, SpinCover", "C10": "SmallReps, SpinCover, LawModel", "C11": "SmallReps, SpinCover", "C12": "Projection", "C13": "Projection",
        "C14": "Tensors", "C15": "Tensors", "C16": "Tables", "C17": "Intertwine", "C18": "Frames, FramesModel", "C19": "Session", "C20": "RetryModel, Retry", "C21": "Predicates", "C22": "Numeric", "C23": "Projective, ChainModel"}
TRUST = "Bounded: decides every case explored (counts in the evidence), not all inputs. Trusts TLC, the projection of floats to fixed point (8192ths; thresholds 0.3-5%), and numpy/spglib as input sources whose output TLC re-verifies where it defines the oracle."
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if os.path.exists(os.path.join(V, "harness", "check_%s.py" % p.lower())):
        c = "/opt/venv/bin/python harness/check.py " + p
        checks.append({"property": p, "quick_cmd": c + " quick", "thorough_cmd": c + " thorough", "evidence_file": "evidence/%s.json" % p,
                       "technique": "TLA+ specification (%s) checked with TLC; trace validation of recorded executions of the real code%s" % (SPEC[p], "; replay of TLC-generated behaviours" if p in ("C18", "C19", "C20", "C23") else ""),
                       "level": "model_checking", "level_note": TRUST})
    else:
        na.append({"property": p, "reason": "check under construction (the specification applies; see DESIGN.md)"})
json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python harness/selftest.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the public API exposes the abstract state. Genuine defects were repaired with fix: commits, see KNOWN_FINDINGS.json."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
