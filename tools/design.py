"""Write DESIGN.md and the list of repaired defects from the check modules, tools/design_intro.md and tools/fixes.json.

Run with the Python of the checks: /opt/venv/bin/python tools/design.py
"""

import importlib
import json
import subprocess
import sys
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(VERIF))
sys.path.insert(0, "/repo/python")
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

fixes = json.loads((VERIF / "tools/fixes.json").read_text())
log = dict(
    line.split(" ", 1)
    for line in subprocess.run(["git", "-C", "/repo", "log", "--abbrev=7", "--format=%h %s"], capture_output=True, text=True, check=True).stdout.splitlines()
)
known_path = VERIF / "known-findings.json"
known = json.loads(known_path.read_text())
known["fixed"] = [f"fixed: property={p} {c} {log[c].removeprefix('fix: ')}" for p, cs in fixes.items() for c in cs]
known_path.write_text(json.dumps(known, indent=1, ensure_ascii=False) + "\n")

out = [(VERIF / "tools/design_intro.md").read_text().rstrip() + "\n"]
props = [json.loads(line) for line in (VERIF / "properties.jsonl").read_text().splitlines()]
manifest = {c["property"]: c for c in json.loads((VERIF / "MANIFEST.json").read_text())["checks"]}
out.append("## The properties, one by one\n")
for p in props:
    pid = p["id"]
    path = next((VERIF / "checks").glob(f"{pid.lower()}_*.py"))
    mod = importlib.import_module(f"checks.{path.stem}")
    out.append(f"### {pid}: {p['title']}\n")
    out.append(p["statement"] + "\n")
    out.append(f"- **Over** {p['quantifier']['text']}.")
    out.append(f"- **Decided by** `checks/{path.name}`: {manifest[pid]['technique'].split('shrinking, ')[1]}. {mod.RULE}")
    out.append("- **Bounds** " + manifest[pid]["level_note"].split(": ", 1)[1].split(" Trusts")[0] + " Cases per run: " + ", ".join(f"{s.name} {s.quick} (thorough {s.count('thorough')})" for s in mod.SUBS) + ".")
    assumptions = getattr(mod, "ASSUMPTIONS", [])
    if assumptions:
        out.append("- **Takes as given** " + "; ".join(assumptions) + ".")
    if fixes.get(pid):
        out.append(f"- **Defects found and repaired** ({len(fixes[pid])}): " + "; ".join(f"{log[c].removeprefix('fix: ')} ({c})" for c in fixes[pid]) + ".")
    bugs = []
    for meta in sorted((VERIF / "seeded").glob("*/meta.json")):
        m = json.loads(meta.read_text())
        if m["property"] == pid:
            bugs.append(f"`{meta.parent.name}` ({m['needs']})")
    if bugs:
        out.append("- **Planted bugs caught** " + "; ".join(bugs) + ".")
    out.append("")
(VERIF / "DESIGN.md").write_text("\n".join(out).rstrip() + "\n")
