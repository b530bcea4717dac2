"""Writes MANIFEST.json."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import parts
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
TRACE = ("TLA+ specification of the AgentSpeak machine; TLC trace validation of recorded executions of the real "
         "interpreter against it")
NOTE = ("Every recorded execution (random programs and schedules) was checked by TLC to be a behaviour of the "
        "specification, over all resolutions of its nondeterminism. Sampled, not exhaustive, over programs; trusts "
        "TLC, the encoding of terms and the virtual clock.")
checks = []
for i in ids:
    if i in parts.PARTS:
        tech, note = parts.TECH.get(i, (TRACE, NOTE))
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
                       "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "technique": tech, "level": "model_checking", "level_note": note})
m = {"version": 1, "setup_cmd": "true", "checks": checks,
     "not_applicable": [{"property": i, "reason": parts.NOT_APPLICABLE.get(i, "check still under construction")}
                        for i in ids if i not in parts.PARTS]}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
