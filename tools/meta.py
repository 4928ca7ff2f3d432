#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props/*.py (run by hand after an edit; the results are committed)."""
import glob
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, f"{V}/tools")
import jsonschema  # noqa
from registry import CHECKS  # noqa

props, na = [], []
for f in sorted(glob.glob(f"{V}/tools/props/*.py")):
    ns = {}
    exec(open(f).read(), ns)
    props += ns["PROPS"]
    na += ns.get("NOT_APPLICABLE", [])
props.sort(key=lambda p: p["id"])
assert len({p["id"] for p in props}) == len(props)
checks = []
ps = json.load(open("/root/.vp/PROPERTIES.schema.json"))
with open(f"{V}/properties.jsonl", "w") as out:
    for p in props:
        c = p.pop("check", None)
        jsonschema.validate(p, ps)
        for x in p["anchors"]["files"]:
            assert os.path.exists(f"/repo/{x}"), x
        assert p["statement"].count(". ") <= 2, p["id"]
        out.write(json.dumps(p) + "\n")
        if p["id"] in CHECKS and c:
            checks.append(dict(property=p["id"], quick_cmd=f"VERIF_TIER=quick ./check {p['id']}", thorough_cmd=f"VERIF_TIER=thorough ./check {p['id']}",
                               evidence_file=f"evidence/{p['id']}.json",
                               technique="TLA+ specification checked by TLC; spec-generated behaviours replayed on the real code and recorded executions validated against the spec",
                               level="model_checking", level_note=c))
        elif not any(n["property"] == p["id"] for n in na):
            na.append(dict(property=p["id"], reason="no check yet"))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="Specifications in spec/ (TLA+, TLC). Checks: ./check ID. See DESIGN.md and known_findings.txt. No hooks in /repo are needed.")
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(props), "properties", len(checks), "checks", len(na), "not applicable")
