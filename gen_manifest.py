"""Regenerates MANIFEST.json from properties.jsonl and checks/ (run by hand)."""
import json, os, ast
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
na = json.load(open(os.path.join(here, "not_applicable.json")))
checks, nas = [], []
TECH = "translation validation by symbolic execution of the compiled UPLC and of the Python source, decided by z3"
for p in props:
    f = os.path.join(here, "checks", p["id"].lower() + ".py")
    if os.path.exists(f):
        consts = {}
        for n in ast.parse(open(f).read()).body:
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
                try:
                    consts[n.targets[0].id] = ast.literal_eval(n.value)
                except Exception:
                    pass
        checks.append(dict(
            property=p["id"],
            quick_cmd=f"bash checks/run.sh {p['id']} --quick",
            thorough_cmd=f"bash checks/run.sh {p['id']} --thorough",
            technique=consts.get("TECHNIQUE", TECH),
            level=consts["LEVEL"],
            level_note=consts.get("LEVEL_NOTE", consts["EXPLANATION"])[:1800],
        ))
    else:
        nas.append(dict(property=p["id"], reason=na.get(p["id"], "check not built yet")))
json.dump(dict(version=1, setup_cmd="bash checks/setup.sh", checks=checks, not_applicable=nas,
  notes="No hooks in /repo are needed; the checks import the compiler from /repo's working tree and compile the corpus afresh on every run."),
  open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(nas), "not applicable")
