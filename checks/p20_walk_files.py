"""P20: walking the files of a directory tree."""

from __future__ import annotations

import os
import re

from hypothesis import strategies as st

from lib import gen
from lib.harness import Sub, Violation
from moz.l10n.util import walk_files

PROPERTY = "P20"
RULE = (
    "walk: directory trees of up to ~20 files (hidden ones, empty directories, links to files and directories) with ignore files of up to 6 patterns (names, * and ?, leading and trailing"
    " slashes, anchored paths, negations, comments, blank lines), in the root, elsewhere, missing or disabled, with and without a choice of directories, and absolute and relative roots;"
    " the oracle is a matcher written from the gitignore documentation; non-trivial = a pattern changes the result."
)
ASSUMPTIONS = [
    "patterns with a slash in their middle start with a slash, and ** is not used (the gitignorant package does not support the rest)",
    "the given directories are distinct and do not contain each other",
]

names = st.sampled_from(["a", "b", "ab", "c.ftl", "d.ftl", "a.ini", ".h", ".git", "x y", "é", "A", "ab.ftl", "b.d"])


@st.composite
def trees(draw, depth=0):
    out = {}
    for nm in draw(st.lists(names, min_size=1 if depth else 3, max_size=5 if depth else 8, unique=True)):
        k = draw(st.integers(0, 9))
        if k < 5 or depth == 3:
            out[nm] = None
        elif k == 5:
            out[nm] = draw(st.sampled_from(["->file", "->dir", "->none"]))
        else:
            out[nm] = draw(trees(depth + 1))
    return out


seg = st.sampled_from(["a", "b", "ab", "c.ftl", "*.ftl", "*.ini", "?", "a*", "*b", "*", "[ab]", "[a-c].ftl", ".h", "é", "x y", "b.d", "??.ftl", "a.*", "A"])


@st.composite
def pattern(draw):
    k = draw(st.integers(0, 9))
    if k < 4:
        p = draw(seg)
    else:
        p = "/" + "/".join(draw(st.lists(seg, min_size=1, max_size=3)))
    if draw(st.integers(0, 3)) == 0:
        p += "/"
    if draw(st.integers(0, 3)) == 0:
        p = "!" + p
    return p


line = gen.weighted((6, pattern()), (1, st.sampled_from(["", "# a", "#*", "  "])), (1, pattern().map(lambda s: s + "  ")))
ignore = st.lists(line, min_size=1, max_size=6)


def seg_re(s):
    out = ""
    i = 0
    while i < len(s):
        c = s[i]
        if c == "*":
            out += "[^/]*"
        elif c == "?":
            out += "[^/]"
        elif c == "[":
            j = s.index("]", i)
            out += s[i : j + 1]
            i = j
        else:
            out += re.escape(c)
        i += 1
    return re.compile(out)


def parse_rules(lines):
    rules = [(False, False, False, [seg_re(".*")])]
    for ln in lines:
        ln = ln.rstrip()
        if not ln or ln.startswith("#"):
            continue
        neg = ln.startswith("!")
        if neg:
            ln = ln[1:]
        dironly = ln.endswith("/")
        ln = ln.rstrip("/")
        anchored = ln.startswith("/")
        rules.append((neg, dironly, anchored, [seg_re(s) for s in ln.lstrip("/").split("/")]))
    return rules


def ignored(rules, rel, is_dir):
    parts = rel.split("/")
    for neg, dironly, anchored, segs in reversed(rules):
        if dironly and not is_dir:
            continue
        if anchored:
            hit = len(parts) == len(segs) and all(s.fullmatch(p) for s, p in zip(segs, parts))
        else:
            hit = bool(segs[0].fullmatch(parts[-1]))
        if hit:
            return not neg
    return False


def write(root, tree):
    for nm, v in tree.items():
        p = os.path.join(root, nm)
        if v is None:
            with open(p, "w") as f:
                f.write(nm)
        elif isinstance(v, dict):
            os.mkdir(p)
            write(p, v)
        else:
            os.symlink({"->file": "../target.txt", "->dir": ".", "->none": "nowhere"}[v], p)


def expected(tree, rules, rel="", start=""):
    for nm, v in tree.items():
        r = f"{rel}/{nm}" if rel else nm
        if isinstance(v, dict):
            if not ignored(rules, r, True):
                yield from expected(v, rules, r)
        elif v == "->dir":
            pass  # links to directories are not followed, and are not files
        elif not ignored(rules, r, False):
            yield r


def subdirs(tree, rel=""):
    for nm, v in tree.items():
        if isinstance(v, dict):
            r = f"{rel}/{nm}" if rel else nm
            yield r
            yield from subdirs(v, r)


def snapshot(root):
    return sorted((dp, sorted(dn), sorted(fn)) for dp, dn, fn in os.walk(root))


def check_walk(case, ctx):
    tree, lines, where, pick, relative = case
    top = ctx.fresh_dir()
    root = os.path.join(top, "r+(1) [x]")
    os.mkdir(root)
    with open(os.path.join(top, "outside.ftl"), "w"):
        pass
    write(root, tree)
    kw = {}
    text = "".join(x + "\n" for x in lines)
    active = lines
    if where == "default":
        path = os.path.join(root, ".l10n-ignore")
    elif where == "named":
        path = os.path.join(root, ".conf")
        kw["ignorepath"] = ".conf"
    elif where == "outside":
        path = os.path.join(top, "conf")
        kw["ignorepath"] = path
    elif where == "off":
        path, kw["ignorepath"], active = os.path.join(root, ".l10n-ignore"), None, []
    else:
        path, kw["ignorepath"], active = os.path.join(root, ".l10n-ignore"), "missing", []
    with open(path, "w", encoding="utf8") as f:
        f.write(text)
    rules = parse_rules(active)
    full = dict(tree)
    if os.path.dirname(path) == root:
        full[os.path.basename(path)] = None
    want = set(expected(full, rules))
    if want != set(expected(full, parse_rules([]))):
        ctx.nontrivial(case)
    if pick:
        all_dirs = sorted(subdirs(tree))
        dirs = []
        for i in pick:
            if all_dirs:
                d = all_dirs[i % len(all_dirs)]
                if not any(d == x or d.startswith(x + "/") or x.startswith(d + "/") for x in dirs):
                    dirs.append(d)
        if not dirs:
            dirs = ["not there"]
        kw["dirs"] = dirs
        want = {w for w in want if any(w.startswith(d + "/") for d in dirs)}
        ctx.label("dirs")
    before = snapshot(top)
    cwd = os.getcwd()
    try:
        os.chdir(top)
        r = "r+(1) [x]" if relative == 1 else root + "/" if relative == 2 else root
        if relative == 3:
            os.chdir(root)
            r = "."
        got = list(walk_files(r, **kw))
        absolute = [os.path.normpath(os.path.abspath(g)) for g in got]
        for g in got:
            if not g.startswith(r):
                raise Violation(f"{g!r} does not start with the root {r!r}")
    finally:
        os.chdir(cwd)
    rel = [os.path.relpath(a, root) for a in absolute]
    if len(set(rel)) != len(rel):
        raise Violation(f"files are given repeatedly: {sorted(rel)}\n{lines} {kw}")
    if set(rel) != want:
        raise Violation(f"missing {sorted(want - set(rel))}, extra {sorted(set(rel) - want)}\n{lines} {kw}\n{tree}")
    if snapshot(top) != before:
        raise Violation("the tree was changed")
    try:
        list(walk_files(os.path.join(root, "no such dir")))
    except ValueError:
        pass
    else:
        raise Violation("no error for a missing directory")


SUBS = [
    Sub(
        "walk",
        st.tuples(
            trees(),
            ignore,
            st.sampled_from(["default", "default", "named", "outside", "off", "missing"]),
            st.one_of(st.just([]), st.just([]), st.lists(st.integers(0, 30), min_size=1, max_size=3)),
            st.integers(0, 3),
        ),
        check_walk,
        7000,
    )
]
