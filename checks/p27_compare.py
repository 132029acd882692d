"""P27: comparisons."""

from __future__ import annotations

import json
import os
import re
from os.path import basename, dirname, exists, join

from click.testing import CliRunner
from hypothesis import strategies as st

from checks.p24_migrate import BROKEN, FILES, read_tree, resource, to_text
from checks.p26_build import OTHER, put
from lib import gen
from lib.harness import Sub, Violation
from moz.l10n.formats import Format
from moz.l10n.model import Entry
from moz.l10n.resource import parse_resource

PROPERTY = "P27"
RULE = (
    "compare: source trees (directory, configuration or JSON list) of up to 4 files of 8 formats and of unsupported kinds, and up to 3 localizations with files that are missing, partial, empty, malformed"
    " or of another format, with and without extension filters: the report in text at each verbosity and in JSON is compared to that of a reference; non-trivial = a localization has some of the"
    " messages of a source file, but not all."
)
ASSUMPTIONS = ["identifiers are compared as they are joined by dots, as in JSON sources", "the order of missing messages is not specified"]


@st.composite
def cases(draw):
    named = draw(st.lists(st.sampled_from(list(FILES)), min_size=1, max_size=4, unique=True))
    dash = draw(st.sampled_from(["", "", "x-", "a.b-"]))
    names = {join(dirname(n), dash + basename(n)): FILES[n] for n in named}
    others = draw(st.lists(st.sampled_from(["z.txt", "img/x.png"]), max_size=1))
    locales = draw(st.lists(st.sampled_from(["fr", "de-AT", "zh_Hant", "he"]), max_size=3, min_size=1, unique=True))

    def state(n):
        fmt = names[n]
        return gen.weighted((10, resource(fmt)), (3, st.none()), (1, st.just("")), (2, st.just(BROKEN[fmt])), (1, st.just(["dir"])))

    tree = {(n, lc): draw(state(n)) for n in names for lc in locales}
    return {
        "src": {n: draw(resource(fmt)) for n, fmt in names.items()},
        "dup": draw(st.booleans()),
        "others": others,
        "tree": tree,
        "extra": draw(st.booleans()),
        "kind": draw(st.sampled_from(["dir", "config", "json"])),
        "ext": draw(st.sampled_from([None, None, "ftl", ".ftl, .json", "!ftl", "'!.xml,!po'", "ini,!ini", ""])),
        "verbose": draw(st.integers(0, 2)),
        "json": draw(st.booleans()),
        "paths": draw(st.permutations(locales)),
        "missing_dir": draw(st.booleans()),
        "slash": draw(st.booleans()),
        "relative": draw(st.booleans()),
    }


def msg_ids(path):
    return {".".join((*s.id, *e.id)) for s in parse_resource(path).sections for e in s.entries if isinstance(e, Entry)}


def ext_match(ext, name):
    inc, exc = [], []
    for x in (ext or "").strip("'").split(","):
        x = x.strip()
        to = exc if x.startswith("!") else inc
        x = x.removeprefix("!")
        if x:
            to.append(x if x.startswith(".") else "." + x)
    return (not inc or name.endswith(tuple(inc))) and not name.endswith(tuple(exc) or ("\0",))


def check(c, ctx):
    top = os.path.realpath(ctx.fresh_dir())
    src_dir, base = join(top, "src", "en-US"), join(top, "l10n")
    for name, r in c["src"].items():
        put(join(src_dir, name), to_text(r))
    for name in c["others"]:
        put(join(src_dir, name), OTHER[name])
    for lc in c["paths"]:
        os.makedirs(join(base, lc))
        if c["extra"]:
            put(join(base, lc, "extra.ftl"), "extra = Extra\n")
    for (name, lc), r in c["tree"].items():
        if r == ["dir"]:
            os.makedirs(join(base, lc, name))
        elif r is not None:
            put(join(base, lc, name), to_text(r))
    data = {n: msg_ids(join(src_dir, n)) for n in c["src"]}
    if c["kind"] == "dir":
        source = src_dir
    elif c["kind"] == "config":
        source = join(top, "src", "l10n.toml")
        put(source, 'basepath = "."\nlocales = ["xx", "yy"]\n[[paths]]\n  reference = "en-US/**"\n  l10n = "{locale}/**"\n')
    else:
        source = join(top, "src", "msgs.json")
        put(source, json.dumps({k: sorted(v) for k, v in data.items()}))
    data = {k: v for k, v in data.items() if ext_match(c["ext"], k)}
    paths = [join(base, lc) + "/" * c["slash"] for lc in c["paths"]]
    if c["missing_dir"]:
        paths.insert(len(paths) // 2 + (len(paths) == 1), join(base, "none"))
    args = ["--source", source]
    cwd = os.getcwd()
    if c["relative"]:
        paths = [os.path.relpath(p, base) for p in paths]
        args[1] = os.path.relpath(source, base)
    if c["ext"] is not None:
        args += ["--ext", c["ext"]]
    args += ["-v"] * c["verbose"] + ["--json"] * c["json"] + paths
    before = read_tree(top)
    info = f"{c}\ncompare {args}\n{ {k[len(top) :]: v for k, v in before.items()} }"

    exp = {}
    for lc in c["paths"]:
        errors, missing = set(), {}
        for name, ids in data.items():
            if not ids:
                continue
            p = join(base, lc, name)
            if not exists(p):
                missing[name] = ids
                continue
            try:
                have = msg_ids(p)
            except Exception:
                errors.add(name)
                ctx.label("error")
                continue
            if ids - have:
                missing[name] = ids - have
                if ids & have:
                    ctx.nontrivial()
        exp[lc] = (errors, missing)
    total = sum(map(len, data.values()))

    from moz.l10n.bin.compare import cli

    if c["relative"]:
        os.chdir(base)
    try:
        r = CliRunner().invoke(cli, args)
    finally:
        os.chdir(cwd)
    if read_tree(top) != before:
        raise Violation(f"files changed\n{info}")
    if total == 0:
        if r.exit_code == 0:
            raise Violation(f"no error for an empty source: {r.output}\n{info}")
        return
    if r.exit_code:
        raise Violation(f"exit code {r.exit_code}: {r.exception!r} {r.output}\n{info}")
    if c["json"]:
        got = {}
        for lc, d in json.loads(r.output).items():
            if set(d) != {"errors", "missing"} or d["errors"] == {} or d["missing"] == {}:
                raise Violation(f"JSON: {r.output}\n{info}")
            missing = {}
            for k, v in (d["missing"] or {}).items():
                if len(v) != len(set(v)):
                    raise Violation(f"repeated: {r.output}\n{info}")
                missing[k] = set(v)
            got[lc] = (set(d["errors"] or ()), missing)
        if got != exp or list(got) != list(exp):
            raise Violation(f"expected {exp}\ngot {got}\n{info}")
        return
    lines = r.output.splitlines()
    if lines[0] != f"source: {total}":
        raise Violation(f"source count is not {total}: {r.output}\n{info}")
    got = {}
    for line in lines[1:]:
        if m := re.fullmatch(r"(\S+): (-?\d+)", line):
            cur = got[m[1]] = [int(m[2]), set(), {}]
        elif m := re.match(r"  !!! (\S+): ", line):
            cur[1].add(m[1])
        elif m := re.fullmatch(r"  (\S+): (-\d+)", line):
            cur[2][m[1]] = [int(m[2]), []]
            msgs = cur[2][m[1]][1]
        elif m := re.fullmatch(r"    (\S+)", line):
            msgs.append(m[1])
        # other lines continue an error message
    want = {}
    for lc, (errors, missing) in exp.items():
        files = {}
        if c["verbose"]:
            files = {k: [-len(v), sorted(v) if c["verbose"] > 1 else []] for k, v in missing.items()}
        want[lc] = [-sum(map(len, missing.values())), errors, files]
    for v in got.values():
        for f in v[2].values():
            f[1].sort()
    if got != want or list(got) != list(want):
        raise Violation(f"expected {want}\ngot {got}\n{r.output}\n{info}")


SUBS = [Sub("compare", cases, check, 3000)]
