"""Write MANIFEST.json: a check is claimed as soon as vsa/checks/<id>.py exists."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
NA = {
    "C26": "Equality of the floating-point results of two independent implementations (Numba and Rust) quantifies over runtime values; the parts of it that are visible in the source (both engines are handed the same arguments) are decided under C05. The Rust crate cannot be compiled here either.",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    if os.path.exists(os.path.join(V, "vsa", "checks", pid.lower() + ".py")):
        m = importlib.import_module(f"vsa.checks.{pid.lower()}")
        checks.append(dict(property=pid, quick_cmd=f"./check {pid}", thorough_cmd=f"./check {pid} --thorough",
                           evidence_file=f"evidence/{pid}.json", technique=m.TECHNIQUE, level="other",
                           level_note=m.LEVEL_NOTE))
    else:
        na.append(dict(property=pid, reason=NA.get(pid, "No static check built yet.")))
json.dump(dict(version=1, setup_cmd="python3 -B -c 'import ast, json'", checks=checks, not_applicable=na,
               notes="All checks read /repo's working tree with a pure-stdlib Python analyser (vsa/); nothing of /repo is executed."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
