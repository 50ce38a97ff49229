#!/usr/bin/env python3
"""Regenerates MANIFEST.json from specs.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import specs
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    s = specs.SPECS.get(i)
    if not s:
        na.append({"property": i, "reason": specs.NOT_APPLICABLE.get(i, "no check built yet")})
        continue
    b = "; ".join("%s: %s" % (j["name"], j.get("bounds", "")) for j in s["jobs"])
    checks.append({"property": i, "quick_cmd": "bin/check %s --tier quick" % i,
                   "thorough_cmd": "bin/check %s --tier thorough" % i,
                   "technique": "bounded symbolic execution of the compiled C sources with CBMC, decided by SAT (CaDiCaL); counterexamples replayed natively",
                   "level": "model_checking",
                   "level_note": ("Holds for every value within the bounds; nothing is claimed outside them. Bounds: " + b)[:1800]})
m = {"version": 1, "setup_cmd": "bin/setup", "hooks": {"guard": "NUM_SYNTH_CHANNELS, UNASSIGNED_SYNTH_CHANNEL (overridable defaults, like the existing MAX_SYNTH_VOICES)",
     "enable": "the voice-manager jobs compile with -DNUM_SYNTH_CHANNELS=2 -DUNASSIGNED_SYNTH_CHANNEL=16", "source_commits": ["d9b91d2"]},
     "checks": checks, "not_applicable": na,
     "notes": "Every check compiles /repo's current sources (flags from its own CMake configuration) with goto-cc, links a harness from harness/, and lets CBMC decide it. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
