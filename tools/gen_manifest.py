import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
NA = {
 "F01": "Pure function of its operands: no thread, clock, I/O, randomness or failure for a simulation to schedule or fault; deciding it is input exploration or proof, not deterministic simulation.",
 "F02": "Pure arithmetic conversion of one value; nothing nondeterministic to simulate.",
 "F03": "Pure mathematical functions; nothing nondeterministic to simulate.",
 "F04": "Pure function from text to parse tree; nothing nondeterministic to simulate (the effects of scripts are covered by I01 and I02).",
}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 /verif/tools/setup.py",
     "checks": [], "not_applicable": []}
if CHECKS.get("hooks"): m["hooks"] = CHECKS["hooks"]
for p in props:
    i = p["id"]
    if i in CHECKS["properties"]:
        s = CHECKS["properties"][i]
        m["checks"].append({"property": i, "quick_cmd": "python3 /verif/check.py %s --tier quick" % i, "thorough_cmd": "python3 /verif/check.py %s --tier thorough" % i,
            "technique": s.get("technique", "deterministic simulation with fault injection: seeded search over plans (inputs, I/O splits, faults, crash points) against a reference model"),
            "level": s.get("level", "exploration"), "level_note": s["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "No check built yet.")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "n/a")
