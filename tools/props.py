"""Write properties.jsonl and MANIFEST.json from the list of properties below.

A property is claimed as soon as checks/pNN_*.py exists.
"""

import json
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
PY = "python/moz/l10n/"
PROPS = []
NOTES = {}


def prop(id, title, statement, over, text, why, files, mechanism, note, observe=None):
    assert len(title) <= 80, (id, len(title))
    PROPS.append(
        {
            "id": id,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {
                "files": [PY + f if not f.startswith(("schemas", "js")) else f for f in files],
                "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                "observe_at": observe or ["return values, raised exceptions"],
                "hook_needed": None,
            },
        }
    )
    NOTES[id] = note


exec((Path(__file__).with_name("props_data.py")).read_text("utf8"))

props = sorted(PROPS, key=lambda p: p["id"])
(VERIF / "properties.jsonl").write_text(
    "".join(json.dumps(p, ensure_ascii=False) + "\n" for p in props), "utf8"
)
checks = []
missing = []
PYTHON = "/opt/venv/bin/python"
for p in props:
    pid = p["id"]
    if list((VERIF / "checks").glob(f"{pid.lower()}_*.py")):
        checks.append(
            {
                "property": pid,
                "quick_cmd": f"{PYTHON} verify.py {pid} --tier quick",
                "thorough_cmd": f"{PYTHON} verify.py {pid} --tier thorough",
                "evidence_file": f"evidence/{pid}.json",
                "technique": "property-based testing (Hypothesis): generated inputs, shrinking, " + NOTES[pid][0],
                "level": "exploration",
                "level_note": "Sampled, not exhaustive: "
                + NOTES[pid][1]
                + " Trusts Hypothesis, the Python runtime, and the oracle in the check module.",
            }
        )
    else:
        missing.append({"property": pid, "reason": "the check is not built yet"})
manifest = {
    "version": 1,
    "setup_cmd": f"{PYTHON} verify.py setup",
    "checks": checks,
    "not_applicable": missing,
    "notes": "No hooks: everything is observed through the public API, in-process."
    " Every check imports moz.l10n from /repo/python, so it always sees the current tree.",
}
(VERIF / "MANIFEST.json").write_text(json.dumps(manifest, indent=1, ensure_ascii=False) + "\n", "utf8")
print(len(checks), "claimed,", len(missing), "missing")
