#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
ns = {}
exec(open(os.path.join(here, "props.py")).read(), ns)
P, NA = ns["P"], ns.get("NA", [])
ids = set()
NOTE = ("Sound for the modelled semantics: every abstract path through the analysed operations is covered (no bound on inputs, "
        "histories or failures), with loops widened and unknown calls abstracted. Trusted: the SSA front end, the models of standard library and third-party "
        "functions (checker/models.go), that embedding implementations of the storage, generator and token interfaces keep to their documented contracts, and the "
        "rule itself. No claim of level proof: nothing checks the analyser.")
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in sorted(P, key=lambda p: p["id"]):
        assert p["id"] not in ids and len(p["title"]) <= 80, (p["id"], len(p["title"]))
        assert p["statement"].count(". ") <= 2, p["id"]
        ids.add(p["id"])
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": m, "where": p["files"][0]} for m in p["mech"]]},
        }) + "\n")
na = {n["property"] for n in NA}
m = {
    "version": 1, "setup_cmd": "bash /verif/setup.sh",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "bash /verif/check.sh " + p["id"],
        "thorough_cmd": "bash /verif/check.sh " + p["id"],
        "technique": "static analysis: " + p["technique"],
        "level": "other",
        "level_note": p.get("note") or NOTE,
    } for p in sorted(P, key=lambda p: p["id"]) if p["id"] not in na],
    "not_applicable": NA,
    "notes": "All checks run one analyser (checker/) over /repo's current source; nothing of /repo is executed. See DESIGN.md.",
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties", len(m["checks"]), "checks")
