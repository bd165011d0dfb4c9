"""Write properties.jsonl and MANIFEST.json from tools/meta.py."""
import json
import sys
from pathlib import Path

root = Path(__file__).parent.parent
sys.path.insert(0, str(root))
from tools.meta import NA, P  # noqa: E402
from vf.checks import REGISTRY  # noqa: E402

rows, checks = [], []
for pid, p in P.items():
    assert len(p["title"]) <= 80, (pid, len(p["title"]))
    rows.append({
        "id": pid, "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["text"]},
        "why_tests_cant": p["why"],
        "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"], "hook_needed": None},
    })
    if pid in NA:
        continue
    assert pid in REGISTRY, pid
    checks.append({
        "property": pid, "quick_cmd": f"bash check.sh {pid} quick", "thorough_cmd": f"bash check.sh {pid} thorough",
        "technique": "solver-based checking of the real code: " + p["technique"], "level": "other", "level_note": p["note"],
    })
assert set(REGISTRY) == {c["property"] for c in checks}, set(REGISTRY) ^ {c["property"] for c in checks}
(root / "properties.jsonl").write_text("".join(json.dumps(r, ensure_ascii=False) + "\n" for r in rows))
(root / "MANIFEST.json").write_text(json.dumps({
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
    "notes": "Bounds, oracles and known findings: DESIGN.md; known findings and repairs: known-findings.txt",
}, indent=1, ensure_ascii=False) + "\n")
print(len(rows), "properties,", len(checks), "checks")
