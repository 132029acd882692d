"""Plants a bug: builds seeded/<id>/ from edits, and confirms it in a scratch copy.

Used from small scripts (see DESIGN.md):
    seed("p01-x", "P01", [("formats/properties/parse.py", old, new)], demo, needs, breaks)
`demo` is Python source that exits nonzero when the bug is there.
"""

import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BASE = "e8c389b"
PY = "/opt/venv/bin/python"
NOXML = "/opt/venv-noxml/bin/python"


def run(args, **kw):
    return subprocess.run(args, capture_output=True, text=True, **kw)


def original_lines(path):
    """The lines of a file of /repo that were there in the base commit."""
    out = run(["git", "-C", REPO, "blame", "-l", "-s", "HEAD", "--", path]).stdout
    base = run(["git", "-C", REPO, "rev-parse", BASE]).stdout.strip()
    res = set()
    for i, line in enumerate(out.splitlines(), 1):
        if line.split(" ", 1)[0].lstrip("^") in (base, base[:39]):
            res.add(i)
    return res


def seed(id, prop, edits, demo, needs, breaks, check=True, files={}):
    work = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    try:
        shutil.copytree(REPO, f"{work}/repo", symlinks=True, ignore=shutil.ignore_patterns("node_modules"))
        for rel, old, new in edits:
            path = f"{work}/repo/" + (rel if rel.startswith("js/") else f"python/moz/l10n/{rel}")
            src = open(path).read()
            assert src.count(old) == 1, (rel, src.count(old), old)
            open(path, "w").write(src.replace(old, new))
        diff = run(["git", "-C", f"{work}/repo", "diff"]).stdout
        assert diff
        # which original lines change
        changed = 0
        fn, n, orig = None, 0, set()
        for line in diff.splitlines():
            if line.startswith("--- "):
                fn = line[6:]
                orig = original_lines(fn)
            elif line.startswith("@@"):
                n = int(line.split()[1].split(",")[0][1:])
            elif line.startswith("+") or line.startswith("\\"):
                pass
            elif line.startswith("-"):
                if n in orig:
                    changed += 1
                else:
                    print(f"  {id}: line {fn}:{n} is not an original line")
                n += 1
            else:
                n += 1
        if not changed:
            print(f"{id}: REJECTED, changes no original line")
            return False
        env = dict(os.environ, PYTHONPATH=f"{work}/repo/python", PYTHONDONTWRITEBYTECODE="1")
        for py, want in ((PY, "256 passed"), (NOXML, "201 passed")):
            r = run([py, "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests"], cwd=f"{work}/repo/python", env=env)
            if want not in r.stdout:
                print(f"{id}: REJECTED, tests fail:", [x for x in r.stdout.splitlines() if x.startswith("FAILED")][:3])
                return False
        dst = f"{VERIF}/seeded/{id}"
        os.makedirs(dst, exist_ok=True)
        open(f"{dst}/patch.diff", "w").write(diff)
        open(f"{dst}/demo.py", "w").write(demo.strip("\n") + "\n")
        for name, text in files.items():
            open(f"{dst}/{name}", "w").write(text)
        open(f"{dst}/demo.sh", "w").write(f'#!/bin/bash\nexec {PY} -B "$(dirname "$0")/demo.py"\n')
        os.chmod(f"{dst}/demo.sh", 0o755)
        json.dump(
            {"property": prop, "needs": needs, "what_it_breaks": breaks},
            open(f"{dst}/meta.json", "w"),
            indent=1,
        )
        good = run(["bash", f"{dst}/demo.sh"], cwd=REPO)
        bad = run(["bash", f"{dst}/demo.sh"], cwd=f"{work}/repo", env=env)
        if good.returncode or not bad.returncode:
            print(f"{id}: REJECTED, demo exits {good.returncode} unchanged, {bad.returncode} changed")
            print(good.stdout[-800:], good.stderr[-800:], bad.stdout[-300:], bad.stderr[-300:])
            shutil.rmtree(dst)
            return False
        if check:
            r = run([PY, f"{VERIF}/verify.py", prop], env=dict(os.environ, VERIF_REPO=f"{work}/repo"), cwd=VERIF)
            v = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
            print(f"{id}: kept; check exits {r.returncode}", v[:1], "CAUGHT" if r.returncode == 1 and v else "MISSED")
            if not v:
                print(r.stdout[-500:], r.stderr[-500:])
        else:
            print(f"{id}: kept")
        return True
    finally:
        shutil.rmtree(work)


def recheck(ids=None):
    """Runs each planted bug's check against a scratch copy with the bug."""
    for id in sorted(os.listdir(f"{VERIF}/seeded")):
        if ids and id not in ids:
            continue
        d = f"{VERIF}/seeded/{id}"
        prop = json.load(open(f"{d}/meta.json"))["property"]
        work = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
        try:
            shutil.copytree(REPO, f"{work}/repo", symlinks=True, ignore=shutil.ignore_patterns("node_modules"))
            r = run(["git", "-C", f"{work}/repo", "apply", f"{d}/patch.diff"])
            if r.returncode:
                print(id, "DOES NOT APPLY", r.stderr)
                continue
            r = run([PY, f"{VERIF}/verify.py", prop], env=dict(os.environ, VERIF_REPO=f"{work}/repo"), cwd=VERIF)
            v = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
            print(id, prop, r.returncode, "CAUGHT" if r.returncode == 1 and v else "MISSED", flush=True)
        finally:
            shutil.rmtree(work)


if __name__ == "__main__":
    recheck(sys.argv[1:])
