"""Writes /verif/MANIFEST.json from properties.jsonl and the checks that exist."""
import ast, json, os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{here}/properties.jsonl")]
NA: dict[str, str] = {}
checks, na = [], []
for p in props:
    id = p["id"]
    path = f"{here}/mc/checks/{id.lower()}.py"
    if os.path.exists(path):
        doc = " ".join(ast.get_docstring(ast.parse(open(path).read())).split())
        checks.append({
            "property": id,
            "quick_cmd": f"./run.sh {id} --tier quick",
            "thorough_cmd": f"./run.sh {id} --tier thorough",
            "technique": "model checking: exhaustive bounded enumeration of the real code's executions against an independent reference model",
            "level": "model_checking",
            "level_note": doc,
        })
    else:
        na.append({"property": id, "reason": NA.get(id, "the check is not built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
open(f"{here}/MANIFEST.json", "w").write(json.dumps(m, indent=1, ensure_ascii=False) + "\n")
print(len(checks), "claimed,", len(na), "not")
