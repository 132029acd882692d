"""P32: the JavaScript package reads what the Python package reads, with the same meaning."""

from __future__ import annotations

import json
import re

from fluent.syntax import ast as ftl
from hypothesis import strategies as st
from lxml import etree

from checks import p01_properties as p01
from checks import p06_webext as p06
from checks import p08_fluent as p08
from checks import p09_android as p09
from checks import p10_xliff as p10
from checks import p11_xcode as p11
from checks import p12_mf2_syntax as p12
from lib import gen, js
from lib.harness import Sub, Violation
from moz.l10n.formats import Format
from moz.l10n.formats.mf2 import MF2ParseError, mf2_parse_message
from moz.l10n.message import message_from_json, message_to_json, parse_message
from moz.l10n.model import Expression, PatternMessage, VariableRef

PROPERTY = "P32"
RULE = (
    "For each format, sources (from the generators of the checks of its Python implementation, whole and with characters"
    " and tokens inserted, removed and swapped) are read by the JavaScript package and by the Python package: either both reject the source, with a ParseError"
    " within its range, or both give the same message, or for Fluent, messages with the meaning of the syntax tree for each combination of keys."
    " With an error callback nothing is thrown, and no text after the error is lost. Non-trivial = an escape, placeholder or element."
)
ASSUMPTIONS = [
    "the JavaScript runs in Node with a minimal DOM (js/dom.mjs); the syntax trees of @fluent/syntax and messageformat, which are not installed, are made by fluent.syntax and the MF2 parser in Python",
    "a value in JavaScript is the source of one value, so line breaks and leading white space are not a part of the .properties syntax",
    "printf-style positions of Xcode placeholders are an attribute only in Python, which also knows of the substitutions of plural variations",
]


def compare(what, want, value):
    got = message_from_json(js.call("normalizeMessage", value))
    want.normalize()
    for pattern in [want.pattern] if isinstance(want, PatternMessage) else want.variants.values():
        # Two halves of a character are one in JavaScript
        pattern[:] = [
            p.encode("utf-16-le", "surrogatepass").decode("utf-16-le", "surrogatepass") if isinstance(p, str) else p
            for p in pattern
        ]
    d = gen.diff(want, got)
    if d:
        raise Violation(f"{what} is read by JavaScript as {json.dumps(value)}: {d}")


def rejected(what, src, res, ranged=False):
    """Whether the response is a ParseError"""
    if "error" not in res:
        return False
    err = res["error"]
    if err["type"] != "ParseError":
        raise Violation(f"{what}: {err}")
    n = len(src.encode("utf-16-le", "surrogatepass")) // 2
    if ranged and not (err["range"] and 0 <= err["range"][0] <= err["range"][1]):
        raise Violation(f"{what}: range of {err}, with length {n}")
    return True


def via_index(fmt, src, res, **options):
    more = js.request("parsePattern", fmt, src, *([options] if options else []))
    # Messages may include the random keys of entities
    if more != res and not ("error" in more and "error" in res and more["error"]["type"] == res["error"]["type"]):
        raise Violation(f"parsePattern({fmt}, {src!r}) is {more}, not {res}")


# ------------------------------------------------------------------ text formats

prop_src = st.one_of(
    st.lists(st.sampled_from([c for c in p01.fuzz_alpha if not re.search("[\n\r]", c)] + ["\\ud83d\\ude00", "\\u004", "\\ ", "%", "世", "\\f", "\\r", "\\n", "\\t", "\\q", "\\u00e9g"]), max_size=10).map("".join),
    gen.text(p01.SPECIAL, any=p01.ALL, exclude="\n\r", max_size=8),
).map(lambda s: s.lstrip(" \t\f"))


def check_properties(src, ctx):
    if "\\" in src:
        ctx.nontrivial(src)
    res = js.request("propertiesParsePattern", src)
    via_index("properties", src, res)
    compare(f"properties {src!r}", parse_message(Format.properties, src), res["value"])


@st.composite
def webext_case(draw):
    names = draw(st.lists(p06.ph_name, min_size=1, max_size=3, unique_by=lambda n: p06.var_name(n).lower().strip("_")))
    phs = {n: {"content": draw(p06.content)} for n in names}
    known = st.sampled_from(names).flatmap(lambda n: st.sampled_from([n, n.upper(), n.lower()])).map(lambda n: f"${n}$")
    tok = gen.weighted((3, p06.txt), (3, known), (2, st.sampled_from(["$1", "$9", "$0", "$$", "$$$", "$", "$1$", "$$a$"])), (1, p06.ph_name.map(lambda n: f"${n}$")))
    return phs, [draw(st.sampled_from([n, n.upper(), n.lower()])) for n in names], "".join(draw(st.lists(tok, max_size=6)))


def check_webext(case, ctx):
    phs, names, src = case
    base = " ".join(f"${n}$" for n in names)
    if "$" in src:
        ctx.nontrivial(src)
    msg = parse_message(Format.webext, base, webext_placeholders=phs)
    data = message_to_json(msg)
    what = f"{json.dumps(data)} {src!r}"
    res = js.request("webextParsePattern", data, src, frozen=True)
    more = js.request("webextParsePattern", data, src, collect=True)
    via = js.request("parsePattern", "webext", src, {"webextBaseMsg": data})
    bad = rejected(what, src, res, True)
    if via.get("value") != res.get("value") or via.get("error") != res.get("error") or "error" in more or res["mutated"]:
        raise Violation(f"{what}: {res}, {via}, {more}")
    unknown = [t[0] for t in p06.tokens(src) if not isinstance(t, str) and len(t[0]) > 2 and t[0][1:-1].lower() not in {n.lower() for n in phs}]
    try:
        got = parse_message(Format.webext, f"{base}|{src}", webext_placeholders=phs)
    except ValueError:
        got = None
    # With placeholders named as the same variable, JavaScript may find one for a name that is not known
    if (got is None) is not bool(unknown):
        raise Violation(f"{what}: {got}, with unknown names {unknown}")
    if unknown:
        if not bad:
            variables = {p06.var_name(n).lower() for n in phs}
            if any(p06.var_name(u[1:-1]).lower() not in variables for u in unknown):
                raise Violation(f"{what} is not rejected: {res}")
        if bad != bool(more["errors"]):
            raise Violation(f"{what}: {more}")
        shown = "".join(p if isinstance(p, str) else p["attr"]["source"] for p in more["value"])
        if shown != "".join(t if isinstance(t, str) else t[0] for t in p06.tokens(src)):
            raise Violation(f"{what}: {more}")
        if bad:
            start, end = res["error"]["range"]
            units = src.encode("utf-16-le", "surrogatepass")
            if units[2 * start : 2 * end].decode("utf-16-le", "surrogatepass") not in unknown:
                raise Violation(f"{what}: range of {res}")
        return
    if bad or more["errors"]:
        raise Violation(f"{what} is rejected: {res}")
    got.normalize()
    skip = got.pattern.index(next(p for p in got.pattern[2 * len(names) - 1 :] if isinstance(p, str) and p.startswith("|")), 2 * len(names) - 1)
    got.pattern = got.pattern[skip:]
    got.pattern[0] = got.pattern[0][1:]
    compare(what, PatternMessage(got.pattern), res["value"])
    if more["value"] != res["value"]:
        raise Violation(f"{what}: {more}")


# ------------------------------------------------------------------ XML

ENTITIES = [Expression(VariableRef(n), "entity") for n in ("foo", "brandName", "x1", "B_2")]


@st.composite
def android_case(draw):
    tokens = draw(p09.string_tokens())
    src = p09.write(tokens, draw(st.sampled_from(["plain", "charref"])))
    for _ in range(draw(st.sampled_from([0, 0, 1, 2]))):
        i = draw(st.integers(0, len(src)))
        new = draw(
            st.sampled_from(
                ["&foo;", "&brandName;", "<b>", "</b>", "<i>x</i>", "<br/>", "<xliff:g>x</xliff:g>", '<xliff:g id="a-1">%1$s</xliff:g>', '<xliff:g id="1é">', "</xliff:g>"]
                + ["<xliff:g>%s</xliff:g>", "<xliff:g>{x}</xliff:g>", '<xliff:g example="1">&foo;</xliff:g>', '<a href="x&amp;y">', "</a>", "\\", '"', " ", "%", "%1$s", "@string/a", "?attr/b", "&#160;", "&amp;lt;", "&lt;br/&gt;", "<xliff:g>a\\nb</xliff:g>", "<!-- % &foo; -->", '"&lt;br/&gt; "', '"&lt;br&gt; <b/>"', '<a href="&foo;">x</a>', '<xliff:g id="&foo;">x</xliff:g>', '"  <xliff:g>x</xliff:g>  ', "&lt;br/&gt;%s x", "&lt;br&gt;\\n y", "&B_2;", '<xliff:g id="1-a"> </xliff:g>', '<xliff:g id="-b">%d</xliff:g>', "<xliff:g>{2x}</xliff:g>", "<xliff:g>%1$s</xliff:g>", "\\&#13;", "\\\u2028", "<&foo;b/>", "<b &foo;='1'/>", "<?p %s ?>"]
            )
        )
        src = src[:i] + new + src[i:]
    return src


REF = st.sampled_from(["@string/a", "@pkg:string/b", "?attr/c", "?d", "?pkg:e", "?p:attr/f", "@x", "see @string/a", "@string/a b", "a ?b", "?", "@a/b ", "\\@string/a", "@string/é", "@string/a\n", "?d<b/>"])


def check_android(src, ctx):
    if "\ufeff" in src or "]]>" in src or re.search(r"<\?[^?]*&", src):
        return  # white space in JavaScript only, and entity references within processing instructions
    res = js.request("androidParsePattern", src)
    via_index("android", src, res)
    what = f"android {src!r}"
    bad = rejected(what, src, res)
    doc = f'<!DOCTYPE resources [<!ENTITY foo "x"><!ENTITY brandName "x"><!ENTITY B_2 "x">]><resources xmlns:xliff="{p09.XLIFF}"><string name="k">{src}</string></resources>'
    try:
        # without its namespace, the prefix of xliff:g is not known
        msg = parse_message(Format.android, src)
    except (ValueError, etree.XMLSyntaxError):
        msg = None
    try:
        entries = parse_entries(doc)
    except (ValueError, etree.XMLSyntaxError):
        entries = None
    if bad and re.search(r"""=["'][^"']*&(foo|brandName|B_2);""", src):
        return  # the value of an entity is known only in the file
    if bad is not (entries is None):
        raise Violation(f"{what}: {res}, but in a file {entries}")
    if bad:
        return
    if re.search(r"[\\<&%\"]", src):
        ctx.nontrivial(src)
    compare(what, entries, res["value"])
    if msg is not None:
        compare(what, msg, res["value"])


def parse_entries(doc):
    from moz.l10n.resource import parse_resource

    return next(e.value for e in parse_resource(Format.android, doc, android_literal_quotes=False).all_entries() if e.id == ("k",))


XML_TOKENS = ["<", ">", "&", "</g>", "<g>", "<x id='1'/>", "&amp;", "&#65;", "&#x0;", "&none;", "<g a='1' a='2'/>", "<![CDATA[<x>]]>", "<1/>", "%@", "%d", "'", '"', "]]>", "é", "\x01", "<!-- c -->", "<?p i?>"]


@st.composite
def xliff_case(draw):
    kids = draw(p10.message)
    style = draw(st.integers(0, 7))
    src = "".join(p10.mark_text(k, style) if isinstance(k, str) else p10.write(k, style, 0, True) for k in kids)
    if draw(st.integers(0, 2)) == 0:
        i = draw(st.integers(0, len(src)))
        src = src[:i] + draw(st.sampled_from(XML_TOKENS)) + src[i:]
    return src


@st.composite
def xcode_case(draw):
    toks = draw(st.lists(st.one_of(p11.spec(), st.sampled_from(["<g>%@ %d</g>", '<g id="1"><x id="2"/>%lu</g>', "<x/>%1$@", "%", "%%", "%5", "%5.2f", "%#x", "%lu", "%qd", "%zd", "%hhx", "%LF", "%1$", "% d", "%-s", "%F", "%n", "%b", "100% sure", "%1$ld", "&lt;", "<g>", "</g>", " ", "a", "lld"])), max_size=6))
    return "".join(t if isinstance(t, str) else t[0] for t in toks)


def check_xliff(src, ctx, xcode=False):
    if re.search(r"\w:\w+ *=", src):
        return  # the prefixes of attributes are not resolved by JavaScript
    args = [src, True] if xcode else [src]
    res = js.request("xliffParsePattern", *args)
    via_index("xliff", src, res, xliffIsXcode=xcode)
    what = f"xliff {src!r}"
    bad = rejected(what, src, res)
    try:
        msg = parse_message(Format.xliff, src, xliff_is_xcode=xcode)
    except (ValueError, etree.XMLSyntaxError):
        msg = None
    if bad is not (msg is None):
        raise Violation(f"{what}: {res}, but by Python {msg}")
    if bad:
        ctx.label("rejected")
        return
    if re.search("[<&%]", src):
        ctx.nontrivial(src)
    for part in msg.pattern:
        if isinstance(part, Expression):
            part.attributes.pop("index", None)
    compare(what, msg, res["value"])


def check_xcode(src, ctx):
    check_xliff(src, ctx, True)


# ------------------------------------------------------------------ MF2

mf2_src = st.one_of(p12.derived.map(lambda c: c[0]), p12.mutation().map(lambda c: c[1]))


def check_mf2(src, ctx):
    if re.search(r"[{}\\.]", src):
        ctx.nontrivial(src)
    what = f"mf2 {src!r}"
    res = js.request("mf2ParseMessage", src, mf2=js.mf2_model(src))
    bad = rejected(what, src, res, True)
    try:
        msg = mf2_parse_message(src)
    except MF2ParseError:
        msg = None
    if bad is not (msg is None):
        raise Violation(f"{what}: {res}, but {msg}")
    if not bad:
        got = message_from_json(res["value"])
        p12.check_meaning(msg, got, src)
        if not js.call("messagesEqual", res["value"], message_to_json(msg)):
            raise Violation(f"{what}: {res['value']} is not {message_to_json(msg)}")
    quoted = "{{" + src + "}}"
    res = js.request("mf2ParsePattern", src, mf2=js.mf2_model(quoted))
    more = js.request("parsePattern", "mf2", src, mf2=js.mf2_model(quoted))
    if res != more:
        raise Violation(f"{what}: parsePattern() is {more}, not {res}")
    try:
        msg = mf2_parse_message(quoted)
    except MF2ParseError:
        msg = None
    if rejected(what, src, res) is not (msg is None):
        raise Violation(f"{what} as a pattern: {res}, but {msg}")
    if msg is None:
        full = js.request("mf2ParseMessage", quoted, mf2=js.mf2_model(quoted))
        if "error" not in full or [r - 2 for r in full["error"]["range"]] != res["error"]["range"]:
            raise Violation(f"{what} as a pattern: {res}, but in quotes {full}")
    if msg is not None:
        p12.check_meaning(msg, message_from_json(res["value"]), src)


# ------------------------------------------------------------------ Fluent


@st.composite
def ftl_source(draw):
    kind = draw(st.integers(0, 9))
    src = draw(p08.entry_src().filter(lambda e: e[0] == "entry"))[2]
    if kind == 0:
        i, j = sorted((draw(st.integers(0, len(src))), draw(st.integers(0, len(src)))))
        return src[:i] + draw(st.sampled_from(["", "{", "}", "$", "-", "\n", "[", "*", ".a = x", '"', "("])) + src[j if draw(st.booleans()) else i :]
    if kind == 1:
        return src.replace("NUMBER($", draw(st.sampled_from(["NUMBER(-", "NUMBER(1, $", "NUMBER({$", "FOO(a.", "FOO(BAR(), $"])))
    if kind == 2:
        args = draw(st.lists(st.sampled_from(["$x", "1", '"s"', "$y", '{ "s" }', "{ { $x } }", "-t", "m.a", "F()", "x: 1", 'y: "z"']), max_size=3))
        return draw(st.sampled_from(["a = { FOO(%s) }", "a = { FOO(%s) ->\n  *[a] x\n  }", "a = x\n  .b = { -t(%s) } y"])) % ", ".join(args)
    return src


def supported(node):
    """Whether all functions have at most one positional argument, that is a variable or a literal, and no placeable is a term attribute"""
    if isinstance(node, ftl.FunctionReference):
        args = node.arguments.positional
        for i, arg in enumerate(args):
            while isinstance(arg, ftl.Placeable):
                arg = arg.expression
            if i or not isinstance(arg, (ftl.VariableReference, ftl.StringLiteral, ftl.NumberLiteral)):
                return False
        return True
    if isinstance(node, list):
        return all(map(supported, node))
    if not isinstance(node, ftl.BaseNode):
        return True
    if isinstance(node, ftl.Placeable) and isinstance(node.expression, ftl.TermReference) and node.expression.attribute:
        return False
    return all(supported(v) for k, v in vars(node).items() if k not in ("span", "comment"))


def check_fluent(src, ctx):
    tree = p08.PARSER.parse_entry(src)
    res = js.request("fluentParseEntry", src, ftl=js.ftl_entry(src))
    what = f"fluent {src!r}"
    bad = rejected(what, src, res, True)
    ok = isinstance(tree, (ftl.Message, ftl.Term))
    if bad is (ok and supported(tree)):
        raise Violation(f"{what}: {res}, but {tree}")
    ctx.label("rejected" if bad else "read")
    if bad:
        return
    if re.search("[{\n]", src):
        ctx.nontrivial(src)
    name, entry = res["value"]
    if name != ("-" if isinstance(tree, ftl.Term) else "") + tree.id.name or set(entry) - {"=", "+"} or entry == {}:
        raise Violation(f"{what}: {res}")
    what += f" as {json.dumps(entry)}"
    check_message(tree.value, entry.get("="), what)
    attrs = {a.id.name: a.value for a in tree.attributes}
    props = entry.get("+", {})
    if list(attrs) != list(props) or ("+" in entry) is not bool(attrs):
        raise Violation(f"attributes: {what}")
    for k, v in attrs.items():
        check_message(v, props[k], f"{k}: {what}")


def check_message(pattern, data, what):
    if pattern is None:
        if data is not None:
            raise Violation(f"value of {what}")
        return
    msg = message_from_json(data)
    p08.same_meaning(pattern, msg, what)
    p08.check_types(pattern, msg, what)


@st.composite
def pattern_parts(draw):
    text = gen.text([" ", "\n", "\r\n", "[", "*", ".", '"', "世", "😀", "$a"], exclude="{}", any=gen.ANY, min_size=1, max_size=5)
    out = []
    for _ in range(draw(st.integers(0, 4))):
        if draw(st.booleans()):
            out.append(draw(text))
        else:
            out.append(("{" + draw(p08.sp) + draw(p08.inline()) + draw(p08.sp) + "}",))
    return out, draw(st.sampled_from(["", "", "", "{", "}", "{ $a", "{ $a -> }", "{ -a.b }", "{ $ } x", "{ FOO(a) } y"]))


def check_fluent_pattern(case, ctx):
    parts, tail = case
    src = "".join(p if isinstance(p, str) else p[0] for p in parts) + tail
    want = []
    for p in parts:
        if isinstance(p, str):
            p08.add(want, p)
        else:
            ctx.nontrivial(src)
            for tok in p08.ast_eval(p08.PARSER.parse_entry("a = " + p[0]).value, {}):
                p08.add(want, tok)
    tables = js.ftl_inline(src)
    res = js.request("fluentParsePattern", src, ftl=tables)
    via = js.request("parsePattern", "fluent", src, ftl=tables)
    more = js.request("fluentParsePattern", src, ftl=tables, collect=True)
    what = f"fluent pattern {src!r}"
    bad = rejected(what, src, res, True)
    if via != res or "error" in more:
        raise Violation(f"{what}: {res}, {via}, {more}")
    # Carriage returns of line breaks are not significant
    norm = [w.replace("\r\n", "\n") if isinstance(w, str) else w for w in want]
    if bad:
        if not tail or more["errors"] != [res["error"]]:
            raise Violation(f"{what}: {res}, {more}")
        if tail not in js.call("serializePattern", "plain", [p for p in more["value"] if isinstance(p, str)]) and tail[0] == "}":
            raise Violation(f"{what}: {more}")
        return
    if tail or more["value"] != res["value"] or more["errors"]:
        raise Violation(f"{what}: {res}, {more}")
    got = p08.model_eval(PatternMessage(message_from_json(res["value"]).pattern), {})
    if got != [w for w in norm if w]:
        raise Violation(f"{what} is read as {res['value']}: expected {norm}, got {got}")


# ------------------------------------------------------------------ time

TIMED_TOKENS = {
    "properties": ["%", "%1$", "%S", "%.2f", "0", "1", "$", "\\", "\\u00e9", "\\u", "\n", "-", "a", " ", "l"],
    "webext": ["$", "$$", "$1", "$x$", "$x", "@", "a", " ", "_", "\n"],
    "android": ["<b>", "</b>", "<b/>", "\\", "\\u0020", "\\n", '"', "'", "%", "%1$s", "%s", "&amp;", "&x;", "<", ">", "a", " ", "\n", '<xliff:g id="x">', "</xliff:g>"],
    "xliff": ["<x/>", '<g id="1">', "</g>", "%", "%@", "%1$s", "&amp;", "<", ">", "a", " ", "\n", "<!--", "-->"],
    "plain": ["a", "{", "%", " "],
}


@st.composite
def timed(draw):
    """A pattern's source, each part of which may be repeated"""
    fmt = draw(st.sampled_from(sorted(TIMED_TOKENS)))
    tok = st.sampled_from(TIMED_TOKENS[fmt])
    unit = st.one_of(tok, tok, st.tuples(tok, tok).map("".join), st.tuples(tok, tok, tok).map("".join))
    parts = draw(st.lists(st.tuples(unit, st.sampled_from([1, 1, 1, 8, 40, 6000])), min_size=1, max_size=5))
    return fmt, "".join(u * max(1, min(n, 6000 // len(parts) // len(u))) for u, n in parts)


def check_time(case, ctx):
    """A result within the time limit of a call"""
    fmt, src = case
    opts = {"webextBaseMsg": {"decl": {"x": {"$": "arg1", "attr": {"source": "$1"}}}, "msg": [{"$": "x", "attr": {"source": "$x$"}}]}}
    for more in [{}, {"xliffIsXcode": True}] if fmt == "xliff" else [{}]:
        res = js.request("parsePattern", fmt, src, {**opts, **more})
        if "value" in res:
            ctx.label("read")
            js.request("serializePattern", fmt, res["value"])
        else:
            ctx.label("rejected")
            if res["error"]["type"] not in ("ParseError", "RangeError"):
                raise Violation(f"{fmt} {src!r}: {res}")
    js.request("serializePattern", draw_format(src), [src])
    if len(src) > 500:
        ctx.nontrivial(src)


def draw_format(src):
    fmts = ["android", "fluent", "mf2", "properties", "webext", "xliff"]
    return fmts[len(src) % len(fmts)]


SUBS = [
    Sub("time", timed(), check_time, 2000),
    Sub("properties", prop_src, check_properties, 3000),
    Sub("webext", webext_case(), check_webext, 2500),
    Sub("android", st.one_of(android_case(), android_case(), android_case(), REF), check_android, 3000),
    Sub("xliff", xliff_case(), check_xliff, 2000),
    Sub("xcode", xcode_case(), check_xcode, 1200),
    Sub("mf2", mf2_src, check_mf2, 2000),
    Sub("fluent", ftl_source(), check_fluent, 2500),
    Sub("fluent_pattern", pattern_parts(), check_fluent_pattern, 1500),
]
