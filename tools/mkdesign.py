"""Regenerates DESIGN.md: the prose in design_head.md and design_tail.md around the per-property and per-change tables."""
import ast, glob, json, os, sys
H = os.path.dirname(os.path.abspath(__file__)); R = os.path.dirname(H)
sys.path.insert(0, H)
from seeds_list import SEEDS
docs = {}
for f in glob.glob(R + "/sa/checks/*.py"):
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.FunctionDef) and n.name[0] == "c" and n.name[1:].isdigit():
            docs[n.name.upper()] = (os.path.basename(f), " ".join((ast.get_docstring(n) or "").split()))
out = [open(H + "/design_head.md").read()]
for l in open(R + "/properties.jsonl"):
    p = json.loads(l)
    f, d = docs[p["id"]]
    out.append("* **%s %s** (`sa/checks/%s`): %s\n" % (p["id"], p["title"], f, d.rstrip(".") + "."))
out.append(open(H + "/design_tail.md").read())
out.append("\n| change | caught by | needs | effect |\n|---|---|---|---|\n")
for k, s in SEEDS.items():
    out.append("| %s | %s | %s | %s |\n" % (k, s["property"], s["needs"], s["breaks"]))
open(R + "/DESIGN.md", "w").write("".join(out))
