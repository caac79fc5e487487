"""Writes /verif/MANIFEST.json from the check modules present (mc/cNN.py) and the notes below."""
import ast, json, pathlib

root = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in (root / "properties.jsonl").read_text().splitlines()]
NA = {}
exec((root / "tools" / "manifest_notes.py").read_text())
checks, na = [], []
for p in props:
    f = root / "mc" / f"{p['id'].lower()}.py"
    if f.exists() and p["id"] in NOTES:
        tech, note = NOTES[p["id"]]
        level = next(ast.literal_eval(l.split("=", 1)[1].strip())[1] for l in f.read_text().splitlines() if l.startswith("PROPERTY, LEVEL"))
        checks.append({"property": p["id"], "quick_cmd": f"./check.sh {p['id']} quick", "thorough_cmd": f"./check.sh {p['id']} thorough",
                       "evidence_file": f"evidence/{p['id']}.json", "technique": tech, "level": level, "level_note": note})
    else:
        na.append({"property": p["id"], "reason": NA.get(p["id"], "No check has been built for it yet in this framework.")})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "hooks": {"guard": "none", "enable": "no hooks are needed: checks drive the public API and backend objects of /repo directly", "source_commits": []},
           "notes": "Each check enumerates a bounded space completely on the code in /repo/src (editable install) and compares with a reference model; see DESIGN.md."},
          open(root / "MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed;", [n["property"] for n in na])
