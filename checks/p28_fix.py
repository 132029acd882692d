"""P28: fixing and linting files."""

from __future__ import annotations

import logging
import os
import re
from collections import Counter
from os.path import join, relpath

from click.testing import CliRunner
from hypothesis import strategies as st

from checks.p24_migrate import BROKEN, FILES, read_tree, resource, to_text
from checks.p26_build import OTHER, put
from checks.p29_robust import content, unusual
from lib import corpus, gen
from lib.harness import Sub, Violation
from moz.l10n.formats import Format, UnsupportedFormat
from moz.l10n.resource import parse_resource, serialize_resource

PROPERTY = "P28"
RULE = (
    "fix, lint: trees of up to 6 generated, real and edited files of all formats, valid, malformed, not decodable and of unsupported kinds, given as a directory, a configuration, globs or file names, with"
    " relative and absolute paths and other options: the files, the exit status, the log and the content of each fixed file are compared to a reference, and files are fixed and linted again;"
    " non-trivial = a file is fixed, for lint: good and bad files."
)
ASSUMPTIONS = [
    "files are fixed in any order; the content of a file is compared as in P29, with its assumptions",
    "a file that is not UTF-8 or not in a known format is skipped by fix, and an error for lint",
]

EXT = {"po": ["po", "pot"], "xliff": ["xliff", "xlf"]}


def good(fmt):
    return resource(fmt).map(to_text)


@st.composite
def files(draw):
    kind = draw(st.sampled_from("vvvefffbou"))
    dir = draw(st.sampled_from(["", "", "sub/", "sub/deep/", "é ü/"]))
    stem = draw(st.sampled_from(["a", "b", "messages", "x y", "strings"]))
    if kind == "v":
        name = draw(st.sampled_from(list(FILES)))
        ext, data, want = os.path.splitext(name)[1], draw(good(FILES[name])).encode(), "good"
    elif kind == "e":
        # still valid with other formatting
        ext, data = draw(
            st.sampled_from(
                [
                    (".ftl", b"a   =    b\n\n\n\nc={   $x   }\r\n"),
                    (".ftl", b""),
                    (".properties", b"a:b\r\nc   d\n"),
                    (".properties", "\ufeffé = \\u00e9".encode()),
                    (".ini", b"[A]\n\n\na: b\n"),
                    (".dtd", b"<!ENTITY   a 'b'  >"),
                    (".json", b'{"a":"b","c":{"d":"e"}}'),
                    (".json", b'//x\n{"a":{"message":"b"}}'),
                    (".inc", b"#define a b"),
                    # a lone surrogate cannot be written
                    (".json", b'{"a":"\\ud800","b":"c"}'),
                    (".FTL", b"a   =   b"),
                    (".po", b'msgid "a"\nmsgstr ""\n"b"'),
                    (".xml", b"<resources><string name='a'>b</string></resources>"),
                    (".xlf", b'<xliff xmlns="urn:oasis:names:tc:xliff:document:1.2" version="1.2"><file original="a" source-language="en" datatype="x"><body><trans-unit id="a"><source>b</source></trans-unit></body></file></xliff>'),
                ]
            )
        )
        want = "unsupported" if ext == ".FTL" else None if b"\\ud8" in data else "good"
    elif kind == "f":
        name, text = draw(corpus.sources(draw(st.sampled_from(list(corpus.TOKENS))), 2))
        ext, data, want = os.path.splitext(name)[1], text.encode("utf-8"), None
    elif kind == "b":
        fmt = draw(st.sampled_from(list(BROKEN)))
        ext = {v: os.path.splitext(k)[1] for k, v in FILES.items()}[fmt]
        data, want = BROKEN[fmt].encode(), {".json": "unsupported", ".po": None, ".properties": None}.get(ext, "fail")
    elif kind == "o":
        name = draw(st.sampled_from(list(OTHER)))
        ext, data, want = os.path.splitext(name)[1], OTHER[name], "unsupported"
    else:
        ext = draw(st.sampled_from([".ftl", ".ini", ".properties", ".dtd", ".inc"]))
        data, want = b"[\xff]\n\xffa=b\xe9\n", "unsupported"
    return dir + stem + ext, (data, want)


@st.composite
def cases(draw):
    return {
        "files": dict(draw(st.lists(files(), min_size=1, max_size=6))),
        "mode": draw(st.sampled_from(["dir", "dir", "en-US", "config", "config", "glob", "glob", "names", "names"])),
        "glob": draw(st.sampled_from([["**"], ["**/*"], ["*.*", "sub/**"], ["sub/**/*.ftl", "*.ftl", "sub"], ["**/*.json", "**/*.p*", "none*"], ["*", "**/a.*"]])),
        "relative": draw(st.booleans()),
        "verbose": draw(st.sampled_from([[], ["-v"], ["-vv"], ["-q"]])),
        "continue": draw(st.sampled_from([True, True, False])),
        "skip_unknown": draw(st.booleans()),
        "ignore": draw(st.sampled_from([None, None, "a.*\n", "sub\n", "*.ini\n# x\n"])),
    }


class Handler(logging.Handler):
    def __init__(self):
        super().__init__()
        self.lines = []

    def emit(self, record):
        self.lines.append((record.levelname, record.getMessage()))


def run(cli, name, args, cwd):
    """(exit code, log)"""
    log = logging.getLogger(name)
    h = Handler()
    was = os.getcwd(), log.level, log.propagate
    log.addHandler(h)
    log.setLevel("DEBUG")
    log.propagate = False
    os.chdir(cwd)
    try:
        r = CliRunner().invoke(cli, args)
    finally:
        os.chdir(was[0])
        log.removeHandler(h)
        log.setLevel(was[1])
        log.propagate = was[2]
    if r.exception and not isinstance(r.exception, SystemExit):
        raise Violation(f"{r.exception!r} for {args}")
    return r.exit_code, h.lines


def fixed(path, data):
    """Result, file contents"""
    try:
        res = parse_resource(path, data)
        out = "".join(serialize_resource(res)).encode("utf-8")
    except (UnsupportedFormat, UnicodeDecodeError):
        return "Skip", data
    except Exception:
        return "FAIL", data
    return ("OK" if out == data else "Fixed"), out


def same_content(path, old, new):
    a = parse_resource(path, old)
    if unusual(a):
        return None
    return gen.diff(content(a), content(parse_resource(path, new)))


def globbed(pat, paths):
    """The files matching a pattern"""
    out = []
    for p in paths:
        rx = re.escape(pat).replace(r"\*\*/", "(?:.*/)?").replace(r"/\*\*", "(?:/.*)?").replace(r"\*\*", ".*").replace(r"\*", "[^/]*")
        if re.fullmatch(rx, p):
            out.append(p)
    return out


def setup(c, ctx):
    top = os.path.realpath(ctx.fresh_dir())
    root = join(top, "en-US") if c["mode"] == "en-US" else join(top, "src") if c["mode"] == "config" else top
    names = list(c["files"])
    for n, (data, _) in c["files"].items():
        put(join(root, n), data)
    exts = {".dtd", ".ftl", ".inc", ".ini", ".json", ".properties", ".po", ".pot", ".xlf", ".xliff", ".xml"}
    localizable = any(os.path.splitext(n)[1] in exts for n in names)
    base = cwd = top
    if c["mode"] in ("dir", "en-US"):
        if not localizable:
            return None
        if c["ignore"]:
            put(join(root, ".l10n-ignore"), c["ignore"])
            names = [
                n
                for n in names
                if not (
                    (c["ignore"] == "a.*\n" and n.split("/")[-1].startswith("a."))
                    or (c["ignore"] == "sub\n" and n.startswith("sub/"))
                    or (c["ignore"].startswith("*.ini") and n.endswith(".ini"))
                )
            ]
        # other files are left alone
        if c["mode"] == "en-US":
            put(join(top, "fr", "a.ftl"), b"x   = y")
            put(join(top, "readme.md"), b"x   = y")
        args = [top]
        if c["relative"]:
            args = ["."] if c["verbose"] else [os.path.basename(top) + "/"]
            cwd = top if c["verbose"] else os.path.dirname(top)
    elif c["mode"] == "config":
        put(join(top, "l10n.toml"), 'basepath = "."\nlocales = ["fr"]\n[[paths]]\n  reference = "src/**"\n  l10n = "{locale}/**"\n')
        put(join(top, "fr", "a.ftl"), b"x   = y")
        args = ["--config", "l10n.toml" if c["relative"] else join(top, "l10n.toml")]
    elif c["mode"] == "glob":
        args = c["glob"] if c["relative"] else [join(top, g) for g in c["glob"]]
        names = [n for g in c["glob"] for n in globbed(g, names)]
        if not c["relative"]:
            cwd = os.path.dirname(top)
            base = cwd
        if "sub" in c["glob"] and os.path.isdir(join(top, "sub")):
            names.append(None)
    else:
        args = names if c["relative"] else [join(top, n) for n in names]
        if not c["relative"]:
            cwd = base = os.path.dirname(top)
    paths = [None if n is None else join(root, n) for n in names]
    return top, root, base, cwd, args, paths


LINE = re.compile(r"(OK|Fixed|Skip|FAIL): (.*)(?:\n|$)")


def check_fix(c, ctx):
    from moz.l10n.bin.fix import cli

    s = setup(c, ctx)
    if s is None:
        return
    top, root, base, cwd, args, paths = s
    opts = c["verbose"] + ["--continue"] * c["continue"]
    start = sim = read_tree(top)
    for n, (data, want) in c["files"].items():
        got = fixed(n, data)[0]
        if want and got not in {"good": ("OK", "Fixed"), "unsupported": ("Skip",), "fail": ("FAIL",)}[want]:
            raise Violation(f"{n} should be {want}, but is {got}: {data!r}")
    for again in (False, True):
        sim = dict(sim)
        before = dict(sim)
        code, log = run(cli, "moz.l10n.bin.fix", [*opts, *args], cwd)
        now = read_tree(top)
        info = f"{c}\nfix {[*opts, *args]}\nagain: {again}\nexit code {code}\n{log}\nfiles { {k[len(top) :]: v for k, v in before.items()} }"
        results = [m.groups() for _, msg in log if (m := LINE.match(msg))]
        done = Counter()
        count = Counter()
        failed = False
        for res, rel in results:
            if failed and not c["continue"]:
                raise Violation(f"does not stop after a failure\n{info}")
            path = join(base, rel)
            if not os.path.isfile(path):
                if os.path.isdir(path) and res == "FAIL":
                    done[None] += 1
                    failed = True
                    count[res] += 1
                    continue
                raise Violation(f"unexpected path: {path}\n{info}")
            done[path] += 1
            exp, data = fixed(path, sim[path])
            if res != exp:
                raise Violation(f"{res} for {rel}, expected {exp}: {sim[path]!r}\n{info}")
            sim[path] = data
            count[res] += 1
            failed = failed or res == "FAIL"
        if failed and not c["continue"]:
            if done - Counter(paths):
                raise Violation(f"unexpected files fixed\n{info}")
        elif done != Counter(paths):
            raise Violation(f"fixed {done}\nexpected {paths}\n{info}")
        ctx.label(*(f"{k}" for k in count))
        if code != (1 if failed else 0):
            raise Violation(f"exit code {code}\n{info}")
        for path in {*sim, *now}:
            if sim.get(path) != now.get(path):
                raise Violation(f"{path}: {now.get(path)!r}\nexpected {sim.get(path)!r}\n{info}")
            if not again and now[path] != before[path]:
                ctx.nontrivial()
                if d := same_content(path, before[path], now[path]):
                    raise Violation(f"{path} was changed: {d}\nbefore {before[path]!r}\nafter {now[path]!r}\n{info}")
        text = "\n".join(m for _, m in log)
        touched = sum(count.values()) - count["Skip"]
        want = "Found no localization resources" if touched == 0 else f"Fixed {count['Fixed']}/{touched} file"
        if want not in text:
            raise Violation(f"not in log: {want}\n{info}")
        if (m := re.search(r"Skipped (\d+) unsupported", text)) is None and count["Skip"] or m and int(m[1]) != count["Skip"]:
            raise Violation(f"skipped {count['Skip']}\n{info}")
        if (m := re.search(r"With (\d+) parse failure", text)) is None and count["FAIL"] or m and int(m[1]) != count["FAIL"]:
            raise Violation(f"failures {count['FAIL']}\n{info}")
        if again and (c["continue"] or not failed) and count["Fixed"]:
            # Formatting is stable
            raise Violation(f"changed when fixed again: {[r for r in results if r[0] == 'Fixed']}\nat first { {k[len(top) :]: v for k, v in start.items()} }\n{info}\nnow {now}")


def check_lint(c, ctx):
    from moz.l10n.bin.lint import cli

    s = setup(c, ctx)
    if s is None:
        return
    top, root, base, cwd, args, paths = s
    opts = c["verbose"] + ["-u"] * c["skip_unknown"]
    before = read_tree(top)
    code, log = run(cli, "moz.l10n.bin.lint", [*opts, *args], cwd)
    info = f"{c}\nlint {[*opts, *args]}\nexit code {code}\n{log}"
    if read_tree(top) != before:
        raise Violation(f"files were changed\n{info}")
    exp = Counter()
    wants = {join(root, n): want for n, (_, want) in c["files"].items()}
    for path in paths:
        if path is None:
            exp["skip" if c["skip_unknown"] else "FAIL", join(top, "sub")] += 1
            continue
        if c["skip_unknown"] and os.path.splitext(path)[1] in (".txt", ".png", ".zip", ".FTL"):
            exp["skip", path] += 1
            continue
        try:
            parse_resource(path)
            res = "ok"
        except (UnsupportedFormat, UnicodeDecodeError):
            res = "unsupported"
        except Exception:
            res = "FAIL"
        if wants[path] and res != {"good": "ok", "fail": "FAIL"}.get(wants[path], wants[path]):
            raise Violation(f"{path} should be {wants[path]}, but is {res}")
        exp[res, path] += 1
    got = Counter()
    for level, msg in log:
        if m := re.match(r"(ok|skip|unsupported|FAIL) (.*?)(?: - (?s:.*))?$", msg):
            got[m[1], os.path.normpath(join(base, m[2]))] += 1
            if (m[1] in ("unsupported", "FAIL")) != (level in ("WARNING", "ERROR")):
                raise Violation(f"log level of {msg}\n{info}")
    if got != exp:
        raise Violation(f"expected {exp}\ngot {got}\n{info}")
    kinds = {k for k, _ in exp}
    ctx.label(*kinds)
    if "ok" in kinds and kinds & {"FAIL", "unsupported"}:
        ctx.nontrivial()
    if code != (1 if kinds & {"FAIL", "unsupported"} else 0):
        raise Violation(f"exit code {code}, expected {exp}\n{info}")


def check_args(c, ctx):
    """Without files or with too many, nothing happens."""
    import moz.l10n.bin.fix
    import moz.l10n.bin.lint

    for name in ("fix", "lint"):
        mod = getattr(moz.l10n.bin, name)
        s = setup(c, ctx)
        if s is None:
            return
        top = s[0]
        put(join(top, "l10n.toml"), 'basepath = "."\n[[paths]]\n  reference = "**"\n  l10n = "{locale}/**"\n')
        ctx.nontrivial()
        before = read_tree(top)
        for args in ([], ["--config", join(top, "l10n.toml"), top]):
            code, log = run(mod.cli, f"moz.l10n.bin.{name}", args, top)
            if code != 2 or not any(level == "ERROR" for level, _ in log):
                raise Violation(f"{name} {args}: exit code {code}\n{log}")
        if read_tree(top) != before:
            raise Violation(f"files were changed by {name}\n{c}")


SUBS = [Sub("fix", cases, check_fix, 3000), Sub("lint", cases, check_lint, 3000), Sub("args", cases, check_args, 150)]
