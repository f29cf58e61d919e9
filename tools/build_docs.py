#!/usr/bin/env python3
"""Regenerate properties.jsonl, MANIFEST.json and the per-property part of DESIGN.md from tools/props.py."""
import importlib.util
import json
import sys
from pathlib import Path

V = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V / "tools"))
from props import PROPS, NOT_APPLICABLE  # noqa: E402

lines, checks, design = [], [], []
for p in sorted(PROPS, key=lambda p: p["id"]):
    assert len(p["title"]) <= 80, p["id"]
    lines.append(json.dumps({
        "id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
        "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                    "observe_at": p.get("observe", []), "hook_needed": None}}))
    if p["id"] in NOT_APPLICABLE:
        continue
    checks.append({"property": p["id"], "quick_cmd": f"VERIF_TIER=quick ./run.sh {p['id']}",
                   "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {p['id']}", "technique": p["technique"],
                   "level": p.get("level", "model_checking"), "level_note": p["note"]})
    design.append(f"### {p['id']} {p['title']}\n\n{p['design']}\n\nQuick bound: {p['bounds']}. Cost: {p['cost']}.\n")
(V / "properties.jsonl").write_text("\n".join(lines) + "\n")
(V / "MANIFEST.json").write_text(json.dumps({
    "version": 1, "setup_cmd": "./setup.sh", "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NOT_APPLICABLE.items())],
    "notes": "Every check explores the real code under /repo/src and /repo/bench directly; see DESIGN.md."}, indent=1) + "\n")
d = (V / "tools" / "design_head.md").read_text() + "\n" + "\n".join(design) + "\n" + (V / "tools" / "design_tail.md").read_text()
(V / "DESIGN.md").write_text(d)
print(len(lines), "properties", len(checks), "checks")
