"""Writes MANIFEST.json from properties.jsonl and the checks themselves."""
import importlib, json, pathlib, sys
ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT)); sys.dont_write_bytecode = True
TECH = {
 "C01": "stateful property-based testing (operation histories against a reference model), shrinking",
 "C02": "property-based testing with generated thread schedules (harness-owned scheduler), shrinking",
 "C03": "property-based testing: reference model, text/file differential, argument-contract enumeration by generation",
 "C05": "metamorphic property-based testing (join and permutation relations between real results)",
 "C17": "property-based testing with a position-recording renderer as oracle, metamorphic relation without line numbers",
 "C18": "metamorphic property-based testing (layout variation) plus reference model",
 "C19": "property-based testing of structural invariants over results",
 "C20": "fuzzing: random text, token soup, mutation of valid documents and constructed ill-formed documents against an outcome contract",
 "C21": "metamorphic property-based testing (tree equality across layouts, additivity, completeness)",
 "C22": "property-based testing with generated process environments, differential against the reference model",
 "C23": "property-based testing with size and depth generators, pumped-fragment fuzzing under a CPU bound",
 "C25": "property-based testing with generated interleavings and crash points of file operations (harness-owned scheduler, recorded-operation replay), differential against the reference model",
 "C24": "property-based testing: differential between generated documents' results and the shapes declared in pycep.typing",
}
DEF = "property-based testing: grammar-based document generation against an independent reference model, shrinking"
checks = []
for line in (ROOT / "properties.jsonl").read_text().splitlines():
    pid = json.loads(line)["id"]
    c = importlib.import_module(f"checks.{pid.lower()}").CHECK
    note = f"Searched, not proved: {c.quick_cases} generated cases (thorough: {c.thorough_cases}) in {c.shards} shards, a pure function of VERIF_SEED{' (what concurrent processes write also depends on their memory layout)' if pid == 'C25' else ''}. Assumes: " + ("; ".join(c.assumptions) or "nothing beyond the harness itself") + "."
    checks.append({"property": pid, "quick_cmd": f"/opt/venv/bin/python run.py {pid}", "thorough_cmd": f"VERIF_TIER=thorough /opt/venv/bin/python run.py {pid}",
                   "evidence_file": f"evidence/{pid}.json", "technique": TECH.get(pid, DEF), "level": "exploration", "level_note": note})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -c \"import sys; sys.dont_write_bytecode=True; import lark, regex; import vlib.engine\"",
     "checks": checks, "not_applicable": [],
     "notes": "No hooks: the checks call only the public API of the working tree in /repo, in their own processes; byte code, grammar cache and scratch files go to a temporary directory removed at the end."}
(ROOT / "MANIFEST.json").write_text(json.dumps(m, indent=1, ensure_ascii=False) + "\n")
