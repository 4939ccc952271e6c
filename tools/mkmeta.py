"""writes properties.jsonl and MANIFEST.json from props/meta.py"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from props.meta import PROPS, NA

with open(H + "/properties.jsonl", "w") as f:
    for p in PROPS + NA:
        d = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
m = dict(version=1, setup_cmd="true", checks=[], not_applicable=[dict(property=p["id"], reason=p["reason"]) for p in NA])
for p in PROPS:
    m["checks"].append(dict(
        property=p["id"],
        quick_cmd="python3-vt check.py %s --tier quick" % p["id"],
        thorough_cmd="python3-vt check.py %s --tier thorough" % p["id"],
        technique="bounded symbolic execution of the real Python code with SMT (z3) discharge of every assertion; counterexamples replayed on the unmodified package",
        level="other",
        level_note=p["note"],
    ))
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
