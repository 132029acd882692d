"""P26: builds."""

from __future__ import annotations

import json
import os
from copy import deepcopy
from os.path import isfile, join

from click.testing import CliRunner
from hypothesis import strategies as st

from checks.p24_migrate import BROKEN, FILES, NAMED, lookup, read_tree, resource, to_text
from lib import gen
from lib.harness import Sub, Violation
from moz.l10n.formats import Format
from moz.l10n.model import Comment, Entry, Metadata, Resource, Section
from moz.l10n.resource import parse_resource, serialize_resource

PROPERTY = "P26"
RULE = (
    "build: source and localization trees of up to 4 files of 8 formats and of unsupported kinds, configured with globs, per-path locales and android_locale, for up to 3 locales, built into an empty"
    " or existing target directory or in place, with relative and absolute paths: every file of the target, the coverage files and the trees are compared to those of a reference; build-file:"
    " single files with missing, partial and empty localizations, with accumulated coverage; non-trivial = a source and a localization that share some messages but not all."
)
ASSUMPTIONS = [
    "entry and comment texts are simple words (what a serializer makes of other contents is that of the format properties)",
    "sources are valid and each names an entry once; a malformed localization may end the build with an error",
]

COMMENTS = ("A comment", "Standalone", "Group", "Top")


def full_resource(fmt):
    """With metadata of the resource and its sections, and a resource comment."""

    def add(r, on, top):
        r = deepcopy(r)
        if on and r.format == Format.xliff:
            for s in r.sections:
                s.meta = [Metadata("@source-language", "en"), Metadata("@datatype", "x")][: on + 1]
        elif on and r.format == Format.gettext:
            r.meta = [Metadata("Project-Id-Version", "x"), Metadata("Language", "fi"), Metadata("Content-Type", "text/plain; charset=UTF-8")][: on + 1]
        elif on and r.format == Format.android:
            r.meta = [Metadata("xmlns:tools", "http://schemas.android.com/tools")]
        if top and r.format in (Format.fluent, Format.properties, Format.ini, Format.android):
            r.comment = "Top"
        return r

    return st.builds(add, resource(fmt), st.integers(0, 2), st.booleans())


def state(fmt):
    bad = [(1, st.just("")), (1, st.just(BROKEN[fmt]))]
    return gen.weighted((60, full_resource(fmt)), (15, st.none()), *bad)


def entries(r):
    return [(s.id + e.id, e) for s in r.sections for e in s.entries if isinstance(e, Entry)]


def expected_build(src, l10n):
    """Expected resource, number of messages, and missing ids, in order."""
    fluent = src.format == Format.fluent
    out = deepcopy(src)
    if l10n is not None:
        out.meta = deepcopy(l10n.meta)
    total, missing = 0, []
    for s in out.sections:
        if l10n is not None:
            own = [t for t in l10n.sections if t.id == s.id]
            if own:
                s.meta = deepcopy(own[-1].meta)
        kept = []
        for e in s.entries:
            if isinstance(e, Comment):
                continue
            total += 1
            id = s.id + e.id
            loc = None if l10n is None else lookup(l10n, id)
            if loc is not None:
                loc = deepcopy(loc)
                loc.id = e.id
                if fluent and not id[0].startswith("-"):
                    if any(p not in loc.properties for p in e.properties):
                        loc = None
                    else:
                        loc.properties = {k: v for k, v in loc.properties.items() if k in e.properties}
            if loc is None:
                missing.append(id[0] if len(id) == 1 else list(id))
                if not fluent:
                    kept.append(e)
            else:
                kept.append(loc)
        s.entries = kept
    return out, total, missing


def check_trimmed(path, data, src, ctx, info):
    for word in COMMENTS:
        if word.encode() in data:
            raise Violation(f"{path} has comments: {data!r}\n{info}")
    got = parse_resource(path, data)
    if got.format != src.format:
        raise Violation(f"{path} has format {got.format}: {data!r}\n{info}")
    ids = {id for id, _ in entries(src)}
    if extra := [id for id, _ in entries(got) if id not in ids]:
        raise Violation(f"{path} has {extra}\n{info}")


OTHER = {"z.txt": b"text\xff", "img/x.png": b"\x89PNG\r\n\0", "odd.json": b"[1, 2", "deep/z.zip": b"PK"}


@st.composite
def cases(draw):
    names = draw(st.lists(st.sampled_from(list(FILES)), min_size=1, max_size=3, unique=True))
    others = draw(st.lists(st.sampled_from(["z.txt", "img/x.png", "deep/z.zip"]), max_size=1))
    # some locales are not built
    locales = draw(st.lists(st.sampled_from(["fr", "de-AT", "zh-Hant", "he"]), max_size=3, min_size=1, unique=True))
    built = draw(st.lists(st.sampled_from([*locales, "fr"]), min_size=1, unique=True))
    return {
        "src": {n: draw(full_resource(FILES[n])) for n in names},
        "others": others,
        "l10n": {(n, lc): draw(state(FILES[n])) for n in names for lc in locales},
        "l10n_others": draw(st.booleans()),
        "built": built,
        "style": draw(st.sampled_from(["{0}", "{0}", '"{0}"', " {0} ,", "'{0}'"])),
        "limit": draw(st.sampled_from([None, None, "fr", "he"])),
        "android": draw(st.integers(0, 4)) == 0,
        "target": draw(st.sampled_from(["new", "new", "existing", "in place"])),
        "relative": draw(st.booleans()),
        "coverage": draw(st.booleans()),
        "all_first": draw(st.booleans()),
    }


ANDROID = {"fr": "fr", "de-AT": "de-rAT", "zh-Hant": "b+zh+Hant", "he": "iw"}


def put(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data if isinstance(data, bytes) else data.encode())


def check_build(c, ctx):
    top = os.path.realpath(ctx.fresh_dir())
    src_dir, base = join(top, "src", "en-US"), join(top, "l10n")
    target = base if c["target"] == "in place" else join(top, "out", "build")
    os.makedirs(base)
    rel = lambda name, lc: join(ANDROID[lc] if c["android"] else lc, name)
    for name, r in c["src"].items():
        put(join(src_dir, name), to_text(r))
    for name in c["others"]:
        put(join(src_dir, name), OTHER[name])
    for (name, lc), r in c["l10n"].items():
        if r is not None:
            put(join(base, rel(name, lc)), to_text(r))
    if c["l10n_others"]:
        for name in c["others"]:
            put(join(base, rel(name, "fr")), b"localized")
    if c["target"] == "existing":
        for lc in c["built"]:
            put(join(target, lc, "old.ftl"), b"old = Old\n")
            for name in c["src"]:
                put(join(target, rel(name, lc)), b"to be replaced")
    toml = join(top, "l10n.toml")
    var = "{android_locale}" if c["android"] else "{locale}"
    limit = "" if c["limit"] is None else f'  locales = ["{c["limit"]}"]\n'
    put(toml, f'basepath = "src"\nlocales = ["fr", "de"]\n[[paths]]\n  reference = "en-US/**"\n  l10n = "{var}/**"\n{limit}')

    before = read_tree(top)
    expected = dict(before)
    coverage = {lc: {} for lc in c["built"]}
    may_fail = False
    for lc in c["built"]:
        if c["limit"] and c["limit"] != lc:
            ctx.label("limited")
            continue
        for name in [*c["src"], *c["others"]]:
            loc_path, tgt_path = join(base, rel(name, lc)), join(target, rel(name, lc))
            if name in c["others"]:
                expected[tgt_path] = before.get(loc_path, before[join(src_dir, name)])
                ctx.label("other")
                continue
            src = parse_resource(join(src_dir, name))
            loc = None
            if isfile(loc_path):
                try:
                    loc = parse_resource(loc_path)
                    assert loc.format == src.format
                except Exception:
                    may_fail = True
                    continue
            res, total, missing = expected_build(src, loc)
            try:
                expected[tgt_path] = "".join(serialize_resource(res, trim_comments=True)).encode()
            except Exception:
                may_fail = True
                continue
            if 0 < len(missing) < total:
                ctx.nontrivial()
            # the name of the file in its locale directory
            key = os.path.relpath(loc_path, join(base, lc))
            coverage[lc][key] = {"total": total, "missing": missing}
    args = [toml, base, target]
    cwd = os.getcwd()
    if c["relative"]:
        os.chdir(top)
        args = [os.path.relpath(a, top) for a in args]
        if c["target"] == "in place":
            args[2] = target
    args = ["--config", args[0], "--base", args[1], "--target", args[2], "--locales", c["style"].format(",".join(c["built"]))]
    if c["coverage"]:
        args.append("--coverage")
    info = f"{c}\nbuild {args}\n{ {k[len(top) :]: v for k, v in before.items()} }"
    from moz.l10n.bin.build import cli

    try:
        r = CliRunner().invoke(cli, args)
    finally:
        os.chdir(cwd)
    after = read_tree(top)
    if r.exit_code:
        if may_fail:
            ctx.label("malformed")
            if c["target"] != "in place" and (bad := [p for p in before if not p.startswith(join(top, "out")) and after.get(p) != before[p]]):
                raise Violation(f"build changed {bad}\n{info}")
            return
        raise Violation(f"exit code {r.exit_code}: {r.exception!r} {r.output}\n{info}")
    if may_fail:
        # what it makes of malformed files is not specified
        ctx.label("malformed, no error")
        return
    if c["coverage"]:
        for lc in c["built"]:
            p = join(target, lc, "coverage.json")
            got = json.loads(after.pop(p, b"null"))
            expected.pop(p, None)
            if got != coverage[lc]:
                raise Violation(f"coverage of {lc}: {got}, expected {coverage[lc]}\n{info}")
    for p in sorted({*after, *expected}):
        if after.get(p) != expected.get(p):
            raise Violation(f"{p}\nexpected {expected.get(p)!r}\ngot      {after.get(p)!r}\n{info}")
    for lc in c["built"]:
        if c["limit"] in (None, lc):
            for name in c["src"]:
                p = join(target, rel(name, lc))
                if after[p] or FILES[name] != Format.fluent:
                    check_trimmed(p, after[p], parse_resource(join(src_dir, name), before[join(src_dir, name)]), ctx, info)


@st.composite
def file_cases(draw):
    names = draw(st.lists(st.sampled_from([*FILES, "z.txt"]), min_size=1, max_size=3, unique=True))
    mk = lambda n, s: st.just("other") if n == "z.txt" else s(FILES[n])
    return {
        "files": [(n, draw(mk(n, full_resource)), draw(st.one_of(mk(n, state), st.just("none"))) if n != "z.txt" else draw(st.sampled_from([None, "none", "loc"]))) for n in names],
        "coverage": draw(st.sampled_from([None, "base", "target"])),
        "relative": draw(st.booleans()),
        "existing": draw(st.booleans()),
    }


def check_file(c, ctx):
    top = os.path.realpath(ctx.fresh_dir())
    out = join(top, "out")
    os.mkdir(out)
    coverage = {"old.ftl": {"total": 1, "missing": ["x"]}} if c["existing"] else {}
    cov_dir = {"base": join(top, "cov", "fr"), "target": out}.get(c["coverage"])
    if cov_dir and c["existing"]:
        put(join(cov_dir, "coverage.json"), json.dumps(coverage))
    from moz.l10n.bin.build_file import cli

    cwd = os.getcwd()
    for name, src, loc in c["files"]:
        sp, lp, tp = join(top, "en-US", name), join(top, "fr", name), join(out, name)
        put(sp, to_text(src))
        args = ["--source", sp, "--target", tp]
        if c["relative"]:
            os.makedirs(os.path.dirname(tp), exist_ok=True)
            args[3] = os.path.basename(name)
        if loc != "none":
            args += ["--l10n", lp]
            if loc is not None:
                put(lp, to_text(loc))
        if cov_dir:
            args += ["--coverage-base", cov_dir]
        before = read_tree(top)
        info = f"{c}\nbuild-file {args}\n{ {k[len(top) :]: v for k, v in before.items()} }"
        expected = dict(before)
        total, missing = 0, []
        may_fail = False
        srcr = None
        if name == "z.txt":
            expected[tp] = before[lp] if loc == "loc" else before[sp]
        else:
            srcr = parse_resource(sp)
            l10n = None
            if loc not in ("none", None):
                try:
                    l10n = parse_resource(lp)
                    assert l10n.format == srcr.format
                except Exception:
                    may_fail = True
            try:
                if loc == "none":
                    res, total, missing = srcr, len(entries(srcr)), []
                else:
                    res, total, missing = expected_build(srcr, l10n)
                expected[tp] = "".join(serialize_resource(res, trim_comments=True)).encode()
            except Exception:
                may_fail = True
            if 0 < len(missing) < total:
                ctx.nontrivial()
        try:
            if c["relative"]:
                os.chdir(os.path.dirname(tp))
            r = CliRunner().invoke(cli, args)
        finally:
            os.chdir(cwd)
        after = read_tree(top)
        if may_fail:
            ctx.label("malformed")
            bad = [p for p in before if p != tp and after.get(p) != before[p]]
            if r.exit_code and bad:
                raise Violation(f"{bad} changed\n{info}")
            return
        if r.exit_code:
            raise Violation(f"exit code {r.exit_code}: {r.exception!r} {r.output}\n{info}")
        if cov_dir:
            p = join(cov_dir, "coverage.json")
            coverage[os.path.relpath(tp, cov_dir)] = {"total": total, "missing": missing}
            got = json.loads(after.pop(p, b"null"))
            expected.pop(p, None)
            if got != coverage:
                raise Violation(f"coverage: {got}, expected {coverage}\n{info}")
        for p in sorted({*after, *expected}):
            if after.get(p) != expected.get(p):
                raise Violation(f"{p}\nexpected {expected.get(p)!r}\ngot      {after.get(p)!r}\n{info}")
        if srcr is not None and (after[tp] or srcr.format != Format.fluent):
            check_trimmed(tp, after[tp], srcr, ctx, info)


SUBS = [Sub("build", cases, check_build, 3000), Sub("file", file_cases, check_file, 2000)]
