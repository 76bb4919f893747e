#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and checks.conf."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(V, "tools"))
from props import P
CHECKS = {}
exec(open(os.path.join(V, "checks.conf")).read())
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        assert p["statement"].count(". ") <= 2, p["id"]
        for x in p["files"] + [w for _, w in p["mech"]]:
            if not os.path.exists(os.path.join("/repo", x)):
                print("missing anchor", p["id"], x)
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "state": [{"name": a, "meaning": b} for a, b in p["state"]],
                        "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None},
        }) + "\n")
checks, na = [], []
for p in P:
    i = p["id"]
    if i in CHECKS:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
                       "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": p["technique"],
                       "level": "exploration", "level_note": p["note"] or "Generated-input search; no exhaustiveness."})
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py",
           "hooks": {"guard": "none", "enable": "no hooks are needed: the checks use the public API only", "source_commits": []},
           "checks": checks, "not_applicable": na,
           "notes": "Every check is check.py <id>; it builds /repo's working tree through a private ccache (build.py) and runs harness/<id>.cpp. Replay a failure with check.py <id> --replay FILE."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "pending")
