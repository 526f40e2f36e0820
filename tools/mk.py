#!/opt/venv/bin/python
"""regenerate properties.jsonl and MANIFEST.json from tools/props.py"""
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from props import PROPS     # noqa: E402

out, checks, na = [], [], []
for p in sorted(PROPS, key=lambda p: p["id"]):
    st = p["statement"]
    n = len(re.findall(r"[.](?=\s|$)", st))
    if n > 3:
        st = merge = st
        print("warning: %s statement has %d sentences" % (p["id"], n))
    assert len(p["title"]) <= 80, p["id"]
    out.append({
        "id": p["id"], "title": p["title"], "statement": st,
        "quantifier": {"over": p["over"], "text": p["text"]},
        "why_tests_cant": p["why"],
        "anchors": {"files": p["files"], "mechanism": [
            {"name": a, "where": b} for a, b in p["mech"]]}})
    if p["claimed"]:
        cmd = "./check.py " + p["id"]
        checks.append({
            "property": p["id"], "quick_cmd": cmd, "thorough_cmd":
            "VERIF_TIER=thorough " + cmd,
            "technique": "contract-based deductive verification: contracts "
            "on the real functions, verification conditions generated from "
            "/repo's source on every run, discharged by polynomial normal "
            "form and z3" if p["level"] == "proof" else
            "bounded check of the contract on the real functions (outside "
            "the verifier's reach)",
            "level": p["level"], "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": p["na"]})
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for o in out:
        f.write(json.dumps(o) + "\n")
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
     "not_applicable": na}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(out), "properties", len(checks), "checks", len(na), "n/a")
