#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (both committed) from one table."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from sa.registry import RULES  # noqa: E402
from tools.props import NA, PROPS  # noqa: E402


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["forall"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            "observe_at": p.get("observe", []), "hook_needed": None},
            }, ensure_ascii=False) + "\n")
    checks = [{
        "property": p["id"],
        "quick_cmd": f"python3 -m sa.check {p['id']}",
        "thorough_cmd": f"python3 -m sa.check {p['id']} --thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": p["technique"],
        "level": "other",
        "level_note": p["note"],
    } for p in PROPS if p["id"] in RULES]
    missing = [p["id"] for p in PROPS if p["id"] not in RULES and p["id"] not in NA]
    na = [{"property": k, "reason": v} for k, v in NA.items()]
    na += [{"property": k, "reason": "no check registered yet"} for k in missing]
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "python3 -m compileall -q sa", "checks": checks, "not_applicable": na,
                   "notes": "All checks read /repo's sources and artifacts only; clubs is never imported or executed."}, f, indent=1, ensure_ascii=False)
        f.write("\n")
    print(len(checks), "checks;", len(na), "not applicable;", "unclaimed:", missing)


main()
