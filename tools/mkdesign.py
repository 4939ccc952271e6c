"""regenerates the per-property part of DESIGN.md from props/meta.py and the
docstrings, bounds and parameters of the harnesses (run with python3-vt)"""
import ast, json, os, sys

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from props.meta import PROPS, NA

BEG, END = "<!-- generated: per property -->", "<!-- end generated -->"


def harnesses(path):
    t = ast.parse(open(path).read())
    doc = (ast.get_docstring(t) or "").replace("\n", " ")
    bounds = ""
    out = []
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "BOUNDS":
            bounds = ast.literal_eval(n.value)
        if isinstance(n, ast.FunctionDef) and any(isinstance(d, ast.Call) and getattr(d.func, "id", "") == "harness" for d in n.decorator_list):
            out.append((n.name, " ".join((ast.get_docstring(n) or "").split())))
    return doc, bounds, out


seeds = {}
for d in ("seeded", "seeded_more"):
    sd = os.path.join(H, d)
    if not os.path.isdir(sd):
        continue
    for s in sorted(os.listdir(sd)):
        m = json.load(open(os.path.join(sd, s, "meta.json")))
        seeds.setdefault(m["property"], []).append((s, m))
kf = json.load(open(H + "/known_findings.json"))
L = [BEG, ""]
for p in sorted(PROPS, key=lambda p: p["id"]):
    i = p["id"]
    f = "%s/props/%s.py" % (H, i.lower())
    doc, bounds, hs = harnesses(f)
    L += ["### %s %s" % (i, p["title"]), ""]
    L += ["*Code executed symbolically:* " + "; ".join("%s (%s)" % (m["name"], m["where"]) for m in p["anchors"]["mechanism"]) + ".", ""]
    L += ["*Symbolic:* " + p["quantifier"]["text"] + ". *Bounds:* " + (bounds or "see below").rstrip(".") + ". " + p["note"], ""]
    L += ["*Why beyond the tests:* " + p["why_tests_cant"], ""]
    L += ["*Assertions* (`props/%s.py`):" % i.lower(), ""]
    for n, d in hs:
        L.append("- `%s`%s" % (n, ": " + d if d else ""))
    L.append("")
    if i in seeds:
        L.append("*Planted changes:* " + "; ".join("`%s` (%s)" % (s, m.get("what_it_breaks", "")) for s, m in seeds[i]) + ".")
        L.append("")
for p in NA:
    L += ["### %s %s (not applicable)" % (p["id"], p["title"]), "", p["reason"], ""]
L += ["### Defects repaired in /repo", ""]
L += ["- " + x.replace("fixed: property=", "") for x in kf["fixed"]]
L += ["", END]
src = open(H + "/DESIGN.md").read()
if BEG in src:
    a, b = src.index(BEG), src.index(END) + len(END)
    src = src[:a] + "\n".join(L) + src[b:]
else:
    src = src.rstrip() + "\n\n## Properties\n\n" + "\n".join(L) + "\n"
open(H + "/DESIGN.md", "w").write(src)
