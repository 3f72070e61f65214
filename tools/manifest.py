#!/usr/bin/env python3
"""Write MANIFEST.json; a property is claimed iff it has a harness."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "default": "explicit-state bounded model checking: exhaustive enumeration "
    "of the operation alphabet executed on the real code, every step compared "
    "with a reference model",
}
NOTE = {
    "default": "Every case within the stated bounds is executed on the code "
    "built from /repo and compared with an independently written reference "
    "semantics; nothing outside the bounds is covered.",
}
NA = {}
exec(open(os.path.join(ROOT, "tools", "manifest_notes.py")).read())
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if os.path.exists(f"{ROOT}/harness/{i}.cpp") or os.path.exists(
        f"{ROOT}/harness/{i}.py"
    ):
        checks.append(
            {
                "property": i,
                "quick_cmd": f"python3 tools/check.py {i} quick",
                "thorough_cmd": f"python3 tools/check.py {i} thorough",
                "evidence_file": f"evidence/{i}.json",
                "technique": TECH.get(i, TECH["default"]),
                "level": "model_checking",
                "level_note": NOTE.get(i, NOTE["default"]),
            }
        )
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump(
    {
        "version": 1,
        "setup_cmd": "true",
        "hooks": {
            "guard": "none",
            "enable": "no hooks: the checks compile /repo's sources unchanged",
            "source_commits": [],
        },
        "checks": checks,
        "not_applicable": na,
    },
    open(f"{ROOT}/MANIFEST.json", "w"),
    indent=1,
)
print(len(checks), "checks;", len(na), "not applicable")
