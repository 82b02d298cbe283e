"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py (run from anywhere)"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path[:0] = [HERE, V]
from props import PROPS, NOT_APPLICABLE
from vmc.registry import CHECKS
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        f.write(json.dumps(q) + "\n")
checks = []
for p in PROPS:
    if p["id"] not in CHECKS:
        continue
    checks.append({"property": p["id"], "quick_cmd": "bash run.sh %s --tier quick" % p["id"],
                   "thorough_cmd": "bash run.sh %s --tier thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"],
                   "technique": p["technique"], "level": "model_checking", "level_note": p["note"]})
na = list(NOT_APPLICABLE)
json.dump({"version": 1, "setup_cmd": "bash setup.sh",
           "hooks": {"guard": "none", "enable": "no hooks: the checks drive the public API of /repo as it is", "source_commits": []},
           "checks": checks, "not_applicable": na,
           "notes": "Every check enumerates a bounded space exhaustively; VERIF_SEED changes nothing. DESIGN.md has the bounds."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
ids = [p["id"] for p in PROPS]
assert len(set(ids)) == len(ids)
missing = [i for i in ids if i not in CHECKS and i not in [n["property"] for n in na]]
assert not missing, missing
assert not [i for i in CHECKS if i not in ids], "unlisted checks"
for p in PROPS:
    assert len(p["title"]) <= 80, p["title"]
    for fn in p["anchors"]["files"]:
        assert os.path.exists(os.path.join("/repo", fn)), fn
