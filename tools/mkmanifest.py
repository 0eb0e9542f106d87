"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"))]
NOTE = ("Bounded: the TLA+ specification is checked exhaustively by TLC over small universes, and the real code is bound to it by "
        "replaying the model's cases and validating recorded executions (exact results) with TLC; inputs beyond the ones "
        "enumerated and generated are not covered. Trusts TLC, Python and the recording harness.")
checks = []
for p in props:
    i = p["id"]
    checks.append({
        "property": i,
        "quick_cmd": f"bash check.sh {i}",
        "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {i}",
        "evidence_file": f"evidence/{i}.json",
        "technique": "TLA+ specification model-checked with TLC; conformance by replay of model cases and TLC validation of traces recorded from the real code",
        "level": "model_checking",
        "level_note": NOTE,
    })
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": [],
           "notes": "No hooks in /repo: every observation goes through the public API. Genuine defects: KNOWN_FINDINGS.txt."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
