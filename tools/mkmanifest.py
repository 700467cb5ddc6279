import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "lib"))
from plans import PLANS, NOTES, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PLANS:
        checks.append(dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="env VERIF_TIER=thorough python3 check.py %s" % i,
            evidence_file="evidence/%s.json" % i,
            technique="TLA+ specification model-checked with TLC; traces of the real code validated against it by TLC",
            level="model_checking", level_note=NOTES.get(i, "")))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="sh setup.sh", checks=checks, not_applicable=na,
         notes="No hooks in /repo: every check observes the public API of a scratch copy of /repo's working tree.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", len(na), "not")
