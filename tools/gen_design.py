"""DESIGN.md = design_head.md + per-property sections (from the checks themselves) + design_tail.md + table of planted bugs."""
import ast, glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
notes = json.load(open(V + "/tools/design_notes.json"))
out = [open(V + "/tools/design_head.md").read()]
for p in props:
    i = p["id"]
    f = V + "/checks/%s.py" % i.lower()
    if not os.path.exists(f):
        out.append("### %s %s\n\nNot applicable: %s\n" % (i, p["title"], notes[i]["why"]))
        continue
    d = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("LEVEL", "RULE", "ASSUMPTIONS"):
            d[n.targets[0].id] = ast.literal_eval(n.value)
    n = notes[i]
    out.append("### %s %s\n\n- *Explored* (%s): %s.\n- *Oracle*: %s.\n- *Bounds and assumptions*: %s. Quick: %s.\n- *Beyond tests*: %s.\n" % (
        i, p["title"], d["LEVEL"], d["RULE"], n["oracle"], "; ".join(d["ASSUMPTIONS"]), n["cost"], n["why"]))
out.append(open(V + "/tools/design_tail.md").read())
out.append("\n## 6. Planted bugs\n\nEach in `seeded/<id>/`; all pass the 257 stable tests. \"Caught by\" is the result of running the quick checks.\n\n"
           "| change | property | needs | caught by |\n|---|---|---|---|\n")
caught = json.load(open(V + "/tools/caught.json"))
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    k = os.path.basename(os.path.dirname(m)); j = json.load(open(m))
    out.append("| %s | %s | %s | %s |\n" % (k, j["property"], j["needs"].replace("|", "/"), caught.get(k, "")))
open(V + "/DESIGN.md", "w").write("\n".join(out[:-1 - len(glob.glob(V + "/seeded/*/meta.json"))]) + "".join(out[-1 - len(glob.glob(V + "/seeded/*/meta.json")):]))
