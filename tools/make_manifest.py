"""Writes /verif/MANIFEST.json from the property modules present in sim/props."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
NA = {
    "C20": "a pure function of its input: no schedule, clock, fault or interleaving for a simulation to decide (what streams do with encoded data is checked in C01)",
    "C21": "pure formulas on one array: nothing nondeterministic, stateful or faulty for a simulation to control",
}
have = {}
d = os.path.join(V, "sim", "props")
for n in sorted(os.listdir(d)):
    if n[0] == "c" and n[1:3].isdigit():
        have[n.split("_")[0].upper()] = n
props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p["id"] in have:
        meta = {}
        for node in ast.parse(open(os.path.join(d, have[p["id"]])).read()).body:
            if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
                try:
                    meta[node.targets[0].id] = ast.literal_eval(node.value)
                except ValueError:
                    pass
        checks.append({
            "property": p["id"],
            "quick_cmd": f"{PY} -m sim check {p['id']} --tier quick",
            "thorough_cmd": f"{PY} -m sim check {p['id']} --tier thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": "deterministic simulation with fault injection: seeded search over " + meta.get("SEARCH", "schedules, inputs and fault sequences") + ", judged by a reference model and invariants",
            "level": "exploration",
            "level_note": f"{meta['RUNS']['quick']} (quick) / {meta['RUNS']['thorough']} (thorough) simulated runs, each one exactly repeatable from its seed; evidence, not proof. Assumes: " + ("; ".join(meta.get("ASSUMPTIONS", [])) or "nothing beyond the oracle in the module") + ".",
        })
    else:
        na.append({"property": p["id"], "reason": NA.get(p["id"], "check not built yet")})
m = {"version": 1, "setup_cmd": f"{PY} -m sim selftest", "checks": checks, "not_applicable": na,
     "notes": "One seed decides everything; replay any reported file with: /opt/venv/bin/python -m sim replay FILE (add --log for the event log). No hooks were needed in /repo: all seams are installed from outside before wax is imported."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
