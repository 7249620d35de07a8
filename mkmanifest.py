"""Writes MANIFEST.json from the checks present in mc/ (run after adding a check)."""
import importlib, json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for pid in ids:
    if os.path.exists(os.path.join(here, "mc", pid.lower() + ".py")):
        src = open(os.path.join(here, "mc", pid.lower() + ".py")).read()
        ns = {}
        # technique and level_note are plain class attributes; read them without importing the code under test
        import ast
        for node in ast.parse(src).body:
            if isinstance(node, ast.ClassDef):
                for st in node.body:
                    if isinstance(st, ast.Assign) and getattr(st.targets[0], "id", "") in ("technique", "level_note"):
                        ns[st.targets[0].id] = ast.literal_eval(st.value)
        checks.append({"property": pid, "quick_cmd": "./run.sh %s quick" % pid, "thorough_cmd": "./run.sh %s thorough" % pid,
                       "technique": ns["technique"], "level": "model_checking", "level_note": ns["level_note"]})
    else:
        na.append({"property": pid, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: checks drive the public API of the package imported from /repo's working tree."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
