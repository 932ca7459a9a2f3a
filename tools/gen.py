#!/opt/venv/bin/python
"""Regenerates properties.jsonl and MANIFEST.json from tools/spec.py (one entry per property)."""
import json, pathlib, sys
here = pathlib.Path(__file__).resolve().parent
sys.path.insert(0, str(here))
from spec import PROPS, NOT_APPLICABLE
root = here.parent
with open(root / "properties.jsonl", "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p.get("over", ["inputs"]), text=p["text"]),
                why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=[dict(name=p["mechanism"], where=", ".join(p["files"]))]))) + "\n")
checks = []
for p in PROPS:
    if not list((root / "pbt" / "props").glob(p["id"].lower() + "_*.py")):
        continue
    checks.append(dict(property=p["id"], quick_cmd=f"./run.sh {p['id']} quick", thorough_cmd=f"./run.sh {p['id']} thorough",
                       technique="property-based testing (Hypothesis): " + p["tech"], level="exploration",
                       level_note=p.get("note", "Generated-input search against an explicit oracle: no violation among the cases listed in the evidence; trusts numpy/scipy reference arithmetic and the stated tolerances, does not establish absence.")))
json.dump(dict(version=1, setup_cmd="./run.sh --setup", checks=checks, not_applicable=NOT_APPLICABLE), open(root / "MANIFEST.json", "w"), indent=1)
print(len(PROPS), "properties", len(checks), "checks")
