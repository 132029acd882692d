"""P35: without lxml, everything but the XML formats works the same."""

from __future__ import annotations

import dataclasses
import enum
import importlib
import os
import sys
from tempfile import TemporaryDirectory
from types import SimpleNamespace

from hypothesis import strategies as st

from checks import p34_convert as p34
from lib import corpus, gen
from lib.harness import Sub, Violation

PROPERTY = "P35"
RULE = (
    "files: real and edited files of every format, with their own or another name or none, from text, bytes or a path, are detected, parsed and serialized"
    " by the package as it is with lxml, and as it is imported when lxml is not there; messages: the same for single messages;"
    " resources: constructed resources serialized in every format; non-trivial = parsed or serialized by both, or an XML format."
)
ASSUMPTIONS = [
    "the package is imported a second time with the import of lxml failing, as it does where that is not installed; the import system is that of Python",
]

MODULES = ["moz.l10n.formats", "moz.l10n.resource", "moz.l10n.message", "moz.l10n.model"]


def load(with_lxml):
    if with_lxml:
        mods = [importlib.import_module(m) for m in MODULES]
    else:
        ours = {k: m for k, m in sys.modules.items() if k.split(".")[0] == "lxml" or k.startswith("moz.l10n")}
        for k in ours:
            del sys.modules[k]
        sys.modules["lxml"] = None  # any import raises ImportError
        sys.modules["lxml.etree"] = None
        try:
            mods = [importlib.import_module(m) for m in MODULES]
        except ImportError as err:
            raise Violation(f"not imported without lxml: {err}") from err
        finally:
            for k in [k for k in sys.modules if k.split(".")[0] == "lxml" or k.startswith("moz.l10n")]:
                del sys.modules[k]
            sys.modules.update(ours)
    names = SimpleNamespace()
    for m in mods:
        for n in dir(m):
            if not n.startswith("_"):
                setattr(names, n, getattr(m, n))
    names.lxml = with_lxml
    return names


LOADED = []


def both():
    if not LOADED:
        LOADED.extend([load(True), load(False)])
    return LOADED


def canon(x):
    """A value that does not depend on the identity of the classes of the package"""
    if isinstance(x, enum.Enum):
        return f"{type(x).__name__}.{x.name}"
    if dataclasses.is_dataclass(x):
        return (type(x).__name__, *((f.name, canon(getattr(x, f.name))) for f in dataclasses.fields(x)))
    if isinstance(x, dict):
        return ("dict", *((canon(k), canon(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return tuple(map(canon, x))
    return x


def run(m, func):
    """The result, or exception, of a call, with the import of lxml failing or not"""
    saved = {k: sys.modules[k] for k in ("lxml", "lxml.etree") if k in sys.modules}
    if not m.lxml:
        sys.modules["lxml"] = sys.modules["lxml.etree"] = None
    try:
        return "value", func(m)
    except Exception as err:
        return "error", err
    finally:
        if not m.lxml:
            for k in ("lxml", "lxml.etree"):
                sys.modules.pop(k, None)
            sys.modules.update(saved)


def show(r):
    return f"{type(r[1]).__name__}: {r[1]}" if r[0] == "error" else repr(r[1])[:400]


def compare(what, a, b):
    same = a[0] == b[0] and (
        canon(a[1]) == canon(b[1]) if a[0] == "value"
        else type(a[1]).__name__ == type(b[1]).__name__ and str(b[1]).startswith(str(a[1]))
    )  # fmt: skip
    if not same:
        raise Violation(f"{what}: with lxml {show(a)}, without {show(b)}")


def unsupported(what, m, b, hint):
    if b[0] == "value":
        raise Violation(f"{what}: XML is supported without lxml: {show(b)}")
    if not isinstance(b[1], (m.UnsupportedFormat, ValueError)):
        raise Violation(f"{what}: {show(b)}")
    if hint and "lxml" not in str(b[1]) and "[xml]" not in str(b[1]):
        raise Violation(f"{what}: no mention of lxml: {show(b)}")


XML = ("android", "xliff")
exts = st.sampled_from(sorted(corpus.TOKENS))
files = st.tuples(
    st.one_of(exts, st.sampled_from(["xml", "xliff"])).flatmap(lambda e: corpus.sources(e, 3)),
    st.sampled_from(["own", "own", "none", "format", "a.json", "a.xml", "a.txt", "a", "a.ftl", "a.xlf"]),
    st.sampled_from(["text", "bytes", "path"]),
    st.sampled_from(["", "", "", "\ufeff", "\n", " "]),  # at the start
)
EXT = {"dtd": "dtd", "ftl": "fluent", "inc": "inc", "ini": "ini", "json": "plain_json", "po": "gettext", "properties": "properties", "xliff": "xliff", "xml": "android"}


def check_file(case, ctx):
    (name, text), as_name, kind, start = case
    text = start + text
    x, y = both()
    data = text.encode("utf-8", "surrogatepass")
    source = text if kind == "text" else data
    fname = {"own": name, "format": name, "none": None}.get(as_name, as_name)
    what = f"{as_name} {kind} {text[:300]!r}"
    found = run(x, lambda m: m.detect_format(fname, source))
    plain = run(y, lambda m: m.detect_format(fname, source))
    fmt = EXT[name.rsplit(".", 1)[1]] if as_name == "format" else None
    if found[0] == "value" and found[1] is not None and found[1].name in XML:
        if plain[0] == "error" or (plain[1] is not None and plain[1].name not in XML):
            raise Violation(f"format of {what}: with lxml {show(found)}, without {show(plain)}")
    else:
        compare(f"format of {what}", found, plain)
    xml = fmt in XML or (fmt is None and found[0] == "value" and found[1] is not None and found[1].name in XML)
    with TemporaryDirectory() as d:
        path = os.path.join(d, fname) if kind == "path" and fname and not fmt else None
        if path:
            with open(path, "wb") as f:
                f.write(data)

        def parse(m):
            if path:
                return m.parse_resource(path)
            return m.parse_resource(m.Format[fmt] if fmt else fname, source)

        a, b = run(x, parse), run(y, parse)
    if xml:
        unsupported(what, y, b, text[:1] == "<" or (path and fname.endswith((".xml", ".xliff", ".xlf"))))
        ctx.label("XML")
        ctx.nontrivial(what)
        return
    compare(what, a, b)
    if b[0] == "error":
        ctx.label("rejected")
        return
    if not type(b[1]).__module__.startswith("moz.l10n") or isinstance(b[1], x.Resource):
        raise Violation(f"{what}: parsed as {type(b[1])}")
    for trim in (False, True):
        compare(f"{what} serialized", *(run(m, lambda m: list(m.serialize_resource(r[1], trim_comments=trim))) for m, r in ((x, a), (y, b))))
    js = [run(m, lambda m: [m.message_to_json(e.value) for e in r[1].all_entries()]) for m, r in ((x, a), (y, b))]
    compare(f"{what} as JSON", *js)
    if not y.l10n_equal(b[1], b[1]):
        raise Violation(f"{what}: not equal to itself")
    ctx.label(b[1].format.name if b[1].format else "none")
    ctx.nontrivial(what)


msgs = gen.text(["%s", "%1$s", "{", "}", "$x", "{$x}", "{ $x }", "<b>", "</b>", "&lt;", "&", "\\", "\\n", "\\u0041", "'", '"', "$1", "$$", "{|a|}", "{#b}", "%@", "{{", "}}", " ", "\n"], max_size=6)


def check_message(case, ctx):
    fmt, src, printf = case
    x, y = both()
    what = f"{fmt} {src!r}"
    a, b = (run(m, lambda m: m.parse_message(m.Format[fmt], src, printf_placeholders=printf)) for m in (x, y))
    if fmt in XML:
        unsupported(what, y, b, True)
        unsupported(what, y, run(y, lambda m: m.serialize_message(m.Format[fmt], m.PatternMessage(["x"]))), True)
        ctx.nontrivial(what)
        return
    compare(what, a, b)
    if a[0] == "value":
        compare(f"{what} serialized", *(run(m, lambda m: m.serialize_message(m.Format[fmt], r[1])) for m, r in ((x, a), (y, b))))
        ctx.nontrivial(what)


def check_resource(case, ctx):
    items, fmt, trim = case
    x, y = both()
    sid = {"ini": ("s",), "xliff": ("f",)}.get(fmt, ())
    cs = fmt not in ("plain_json",)

    def make(m):
        es = [m.Entry((k,), m.PatternMessage([t]), comment=c if cs else "") for k, t, c in items]
        return m.Resource(m.Format[fmt], [m.Section(sid, es)])

    a, b = (run(m, lambda m: list(m.serialize_resource(make(m), trim_comments=trim))) for m in (x, y))
    if fmt in XML:
        unsupported(f"{fmt} {items}", y, b, False)
    else:
        compare(f"{fmt} {items}", a, b)
    c, d = (run(m, lambda m: (lambda r, s: (m.add_entries(r, s), r))(make(m), m.Resource(m.Format[fmt], [m.Section(sid, [m.Entry(("new",), m.PatternMessage([]))])]))) for m in (x, y))
    compare(f"{fmt} {items} with another entry", c, d)
    ctx.nontrivial(repr(case))


NAMES = ["android", "dtd", "fluent", "gettext", "inc", "ini", "mf2", "plain_json", "properties", "webext", "xliff"]
SUBS = [
    Sub("files", files, check_file, 6000),
    Sub("messages", st.tuples(st.sampled_from(NAMES), msgs, st.booleans()), check_message, 6000),
    Sub("resources", st.tuples(p34.entries, st.sampled_from([n for n in NAMES if n != "mf2"]), st.booleans()), check_resource, 3000),
]
