#!/usr/bin/env python3
# Regenerates MANIFEST.json from properties.jsonl and specs.py (run by hand; checks never run it).
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT); sys.dont_write_bytecode = True
import specs
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in specs.SPECS:
        s = specs.SPECS[i]
        checks.append({"property": i, "quick_cmd": "python3 run.py check " + i, "thorough_cmd": "VERIF_TIER=thorough python3 run.py check " + i,
                       "evidence_file": "evidence/%s.json" % i, "technique": s["technique"], "level": s.get("level", "exploration"), "level_note": s["level_note"]})
    else:
        na.append({"property": i, "reason": getattr(specs, "NOT_APPLICABLE", {}).get(i, "The check for this property is not built yet.")})
m = {"version": 1, "setup_cmd": "python3 run.py setup",
     "hooks": {"guard": "none", "enable": "No hooks: checks observe the library through its public interface, instrumented element, iterator, comparator and allocator types, sanitizers, and the library's own CPPSORT_ENABLE_AUDITS assertions.", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "run.py compiles each harness against /repo/include in a scratch directory, runs it on all cores, and judges what the monitors report. VERIF_SEED selects the random inputs."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
