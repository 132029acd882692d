"""Measure how sensitive the checks are: small random changes of the code which the tests do not notice.

    mutate.py survivors OUT.json [-n COUNT] [--seed N] [--files GLOB]   which changes pass the tests
    mutate.py check OUT.json [--scale X]                                which of these the checks detect

Works on scratch copies under /tmp only; the checks are run with VERIF_REPO. Not a part of any check.
"""

from __future__ import annotations

import argparse
import ast
import fnmatch
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path
from queue import Queue

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
PKG = "python/moz/l10n"

PROPS = [
    ("formats/properties/*", "P01 P29 P28"),
    ("formats/dtd/*", "P02 P29"),
    ("formats/inc/*", "P03 P29"),
    ("formats/ini/*", "P04 P29"),
    ("formats/plain_json/*", "P05 P29"),
    ("formats/webext/*", "P06 P29 P15"),
    ("formats/gettext/*", "P07 P29"),
    ("formats/fluent/*", "P08 P29 P15"),
    ("formats/android/*", "P09 P29 P15 P18"),
    ("formats/xliff/*", "P10 P11 P29 P15"),
    ("formats/mf2/*", "P12 P13 P14 P15"),
    ("formats/__init__.py", "P16 P17 P22 P29 P28"),
    ("message/*", "P13 P14 P15 P16 P23"),
    ("resource/*", "P16 P17 P18 P19 P29"),
    ("paths/*", "P20 P21 P22"),
    ("util/*", "P05 P06 P15 P20 P22 P23 P16 P21"),
    ("migrate/*", "P24 P25"),
    ("bin/build*", "P26"),
    ("bin/compare*", "P27"),
    ("bin/fix*", "P28"),
    ("bin/lint*", "P28"),
    ("bin/utils*", "P28"),
    ("bin/migrate*", "P24"),
    ("model.py", "P15 P16 P19 P13 P12"),
    ("*", "P16 P29"),
]


def props_for(file):
    return next(p.split() for pat, p in PROPS if fnmatch.fnmatch(file, pat))


class Finder(ast.NodeVisitor):
    def __init__(self, src):
        self.src = src
        self.data = src.encode()
        self.starts = [0]
        for line in self.data.splitlines(keepends=True):
            self.starts.append(self.starts[-1] + len(line))
        self.out = []  # (start, end, new text)

    def span(self, n):
        return self.starts[n.lineno - 1] + n.col_offset, self.starts[n.end_lineno - 1] + n.end_col_offset

    def text(self, n):
        a, b = self.span(n)
        return self.data[a:b].decode()

    def add(self, n, new):
        a, b = self.span(n)
        if self.data[a:b].decode() != new:
            self.out.append((a, b, new))

    def visit(self, n):
        if isinstance(n, ast.Assign) and self.text(n).startswith("__all__"):
            return
        if isinstance(n, (ast.Raise, ast.Import, ast.ImportFrom, ast.Assert)):
            return
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            for d in n.body:
                if isinstance(d, ast.Expr) and isinstance(d.value, ast.Constant):
                    continue
                self.visit(d)
            if isinstance(n, ast.FunctionDef):
                for d in n.args.defaults + n.args.kw_defaults:
                    if d:
                        self.visit(d)
            return
        if isinstance(n, ast.AnnAssign):
            if n.value:
                self.visit(n.value)
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.Expr) and re.match(r"(self\.)?log(ger)?\.|print\(", self.text(n)):
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            ops = {"Eq": ["!="], "NotEq": ["=="], "Lt": ["<=", ">="], "LtE": ["<", ">"], "Gt": [">=", "<="], "GtE": [">", "<"], "In": ["not in"], "NotIn": ["in"], "Is": ["is not"], "IsNot": ["is"]}
            for op in ops[type(n.ops[0]).__name__]:
                self.add(n, f"{self.text(n.left)} {op} {self.text(n.comparators[0])}")
        elif isinstance(n, ast.BoolOp):
            op, other = (" and ", " or ") if isinstance(n.op, ast.And) else (" or ", " and ")
            vals = [f"({self.text(v)})" for v in n.values]
            self.add(n, "(" + other.join(vals) + ")")
            for i in range(len(vals)):
                self.add(n, "(" + op.join(vals[:i] + vals[i + 1 :]) + ")")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            self.add(n, f"({self.text(n.operand)})")
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            if not (isinstance(n, ast.If) and "__name__" in self.text(n.test)):
                self.add(n.test, f"(({self.text(n.test)}) and False)")
                if not isinstance(n, ast.While):
                    self.add(n.test, f"(({self.text(n.test)}) or True)")
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Continue, ast.Break)):
            if not (isinstance(n, ast.Expr) and isinstance(n.value, (ast.Yield, ast.YieldFrom))) or True:
                if not (isinstance(n, ast.Assign) and n.col_offset == 0):
                    self.add(n, "pass")
        elif isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                self.add(n, str(not v))
            elif isinstance(v, int):
                self.add(n, str(v + 1))
                self.add(n, str(v - 1))
            elif isinstance(v, str) and len(v) > 0 and not isinstance(n, ast.JoinedStr):
                t = self.text(n)
                m = re.match(r"^([rRbBuU]*)(['\"]{1,3})(.*)\2$", t, re.S)
                # not the texts of messages
                if m and len(v) <= 200 and not re.search(r"[a-z] [a-z]", v):
                    if len(v) <= 12:
                        self.add(n, '""')
                    for i in range(len(m[3])) if len(v) > 1 else ():
                        new = m[1] + m[2] + m[3][:i] + m[3][i + 1 :] + m[2]
                        if "\\" not in m[3][max(i - 1, 0) : i + 1] or "r" in m[1].lower():
                            self.add(n, new)
        elif isinstance(n, ast.Call):
            for kw in n.keywords:
                if kw.arg:
                    a, b = self.span(kw)
                    # together with a comma before or after
                    rest = self.data[b:].decode()
                    m = re.match(r"\s*,", rest)
                    self.out.append((a, b + (len(m[0].encode()) if m else 0), ""))
        elif isinstance(n, ast.JoinedStr):
            return
        for child in ast.iter_child_nodes(n):
            if not isinstance(child, (ast.expr_context, ast.operator)):
                self.visit(child)


def mutations(rel):
    path = REPO / PKG / rel
    src = path.read_text()
    f = Finder(src)
    f.visit(ast.parse(src))
    out = []
    for a, b, new in sorted(set(f.out)):
        res = f.data[:a] + new.encode() + f.data[b:]
        try:
            compile(res, "x", "exec")
        except (SyntaxError, ValueError):
            continue
        line = f.data[:a].count(b"\n") + 1
        out.append({"file": rel, "line": line, "start": a, "end": b, "old": f.data[a:b].decode(), "new": new})
    return out


def apply(root, m):
    path = Path(root) / PKG / m["file"]
    data = (REPO / PKG / m["file"]).read_bytes()
    old = m["old"].encode()
    if data[m["start"] : m["end"]] != old:
        # the file has changed since
        found = [x.start() for x in re.finditer(re.escape(old), data)]
        if not found:
            return False
        m["start"] = min(found, key=lambda x: abs(x - m["start"]))
        m["end"] = m["start"] + len(old)
    path.write_bytes(data[: m["start"]] + m["new"].encode() + data[m["end"] :])
    return True


def restore(root, m):
    shutil.copy(REPO / PKG / m["file"], Path(root) / PKG / m["file"])


def copy_repo(to):
    shutil.copytree(REPO, to, ignore=shutil.ignore_patterns(".git", "node_modules", "__pycache__", "js"))
    return to


def tests_pass(root):
    env = {**os.environ, "PYTHONPATH": f"{root}/python", "PYTHONDONTWRITEBYTECODE": "1"}
    for venv in ("venv", "venv-noxml"):
        try:
            r = subprocess.run([f"/opt/{venv}/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=f"{root}/python", env=env, capture_output=True, timeout=60)
        except subprocess.TimeoutExpired:
            return False
        if r.returncode:
            return False
    return True


def survivors(args):
    files = sorted(str(p.relative_to(REPO / PKG)) for p in (REPO / PKG).rglob("*.py"))
    files = [f for f in files if any(fnmatch.fnmatch(f, g) for g in args.files.split(","))]
    rnd = random.Random(args.seed)
    todo = []
    for f in files:
        ms = mutations(f)
        rnd.shuffle(ms)
        todo += ms[: max(3, int(len(ms) * args.rate))] if args.rate else ms
    rnd.shuffle(todo)
    todo = todo[: args.n]
    print(len(todo), "changes")
    with tempfile.TemporaryDirectory(dir="/tmp/w") as tmp:
        pool = Queue()
        for i in range(8):
            pool.put(copy_repo(f"{tmp}/{i}"))

        def one(m):
            root = pool.get()
            try:
                apply(root, m)
                m["survives"] = tests_pass(root)
                restore(root, m)
            finally:
                pool.put(root)
            return m

        with ThreadPoolExecutor(8) as ex:
            done = list(ex.map(one, todo))
    out = [m for m in done if m["survives"]]
    print(len(out), "pass the tests")
    Path(args.out).write_text(json.dumps(out, indent=1))


def check(args):
    ms = json.loads(Path(args.out).read_text())
    with tempfile.TemporaryDirectory(dir="/tmp/w") as tmp:
        root = copy_repo(f"{tmp}/r")
        for i, m in enumerate(ms):
            if "by" in m and not args.again:
                continue
            if m.get("by") and args.again:
                continue
            if not apply(root, m):
                continue
            m["by"] = None
            for p in props_for(m["file"]):
                env = {**os.environ, "VERIF_REPO": root, "VERIF_SEED": "1"}
                try:
                    r = subprocess.run(["/opt/venv/bin/python", "verify.py", p, "--scale", str(args.scale)], cwd=VERIF, env=env, capture_output=True, text=True, timeout=300)
                    code = r.returncode
                except subprocess.TimeoutExpired:
                    code = "timeout"
                if code:
                    m["by"] = p if code == 1 else f"{p} ({code})"
                    break
            restore(root, m)
            Path(args.out).write_text(json.dumps(ms, indent=1))
            if not m["by"]:
                print(f"{i}/{len(ms)} MISSED {m['file']}:{m['line']} {m['old']!r} -> {m['new']!r}", flush=True)
    n = sum(bool(m.get("by")) for m in ms)
    print(f"{n} of {len(ms)} detected")


def show(args):
    for m in json.loads(Path(args.out).read_text()):
        if not m.get("by"):
            print(f"{m['file']}:{m['line']} {m['old']!r} -> {m['new']!r}")


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd", choices=["survivors", "check", "show"])
    ap.add_argument("out")
    ap.add_argument("-n", type=int, default=400)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--rate", type=float, default=0)
    ap.add_argument("--files", default="*")
    ap.add_argument("--scale", type=float, default=0.5)
    ap.add_argument("--again", action="store_true")
    args = ap.parse_args()
    sys.exit({"survivors": survivors, "check": check, "show": show}[args.cmd](args))
