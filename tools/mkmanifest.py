#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
NOTE = ("Random search over generated cases against an independent oracle, run on the code of /repo's working tree under "
        "AddressSanitizer with fresh memory filled with eight different patterns; no failure found means none among the cases "
        "counted in the evidence file. ")
m = dict(version=1, setup_cmd="python3 run.py setup",
         checks=[dict(property=p, quick_cmd="python3 run.py check %s --tier quick" % p,
                      thorough_cmd="python3 run.py check %s --tier thorough" % p,
                      evidence_file="evidence/%s.json" % p,
                      technique=CHECKS[p].get("technique", "property-based testing: generated inputs against a reference model, with shrinking"),
                      level="exploration", level_note=NOTE + CHECKS[p].get("trust", "Trusted: the reference model in harness/%s.cpp and the stated input domain." % p))
                 for p in ids if p in CHECKS],
         not_applicable=[dict(property=p, reason="the check is not built yet") for p in ids if p not in CHECKS],
         notes="No hooks: the checks use the public interface only. One engine (engine/pbt*.h), one harness per property (harness/), one runner (run.py).")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
