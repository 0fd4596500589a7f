"""Writes MANIFEST.json: every property that has a check module is claimed."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C06": "runtime monitoring: save/copy/convert histories against the original model's recorded outputs",
 "C10": "runtime monitoring: every optimizer step of recorded histories replayed by an independent reference optimizer",
 "C17": "runtime monitoring: forward-call traces of the running network checked against the composition its configuration promises",
 "C18": "runtime monitoring: forward-call traces and sizes of the running network checked against its configuration",
 "C20": "runtime monitoring: returned alignments and contexts checked by invariants and a reference model",
 "C22": "runtime monitoring: state guards, batch metamorphic oracles and multi-threaded stress with delay injection",
 "C23": "runtime monitoring: rejection oracle over hostile arguments, target state guarded",
}
DEF = "runtime monitoring: the running library's results checked online against a float64 reference model with a rounding bound"
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(ROOT, "hol", "checks", i.lower() + ".py")):
        cmd = f"/opt/venv/bin/python run.py {i} --tier "
        checks.append(dict(property=i, quick_cmd=cmd + "quick", thorough_cmd=cmd + "thorough",
            evidence_file=f"evidence/{i}.json", technique=TECH.get(i, DEF), level="exploration",
            level_note="Oracles watch executions of the real code on generated hostile workloads; nothing is enumerated to exhaustion except the small-configuration grids, so the result covers what was executed, recorded in the evidence file."))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
    notes="No hooks were added to /repo: all instrumentation is attached from outside (module forward hooks, state guards). /repo has only fix: commits, listed in known_findings.json.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
