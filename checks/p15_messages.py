"""P15: single messages and printf placeholders."""

from __future__ import annotations

import copy
import json
import re
from xml.etree import ElementTree as ET

from hypothesis import strategies as st

from checks import p01_properties as p01
from checks import p06_webext as p06
from checks import p08_fluent as p08
from checks import p09_android as p09
from checks import p10_xliff as p10
from checks import p11_xcode as p11
from checks import p12_mf2_syntax as p12
from lib import gen
from lib.harness import Sub, Violation
from moz.l10n.formats import Format
from moz.l10n.formats.mf2 import mf2_parse_message, mf2_serialize_message
from moz.l10n.message import parse_message, serialize_message
from moz.l10n.model import CatchallKey, Expression, Markup, Message, PatternMessage, SelectMessage, VariableRef
from moz.l10n.resource import parse_resource
from moz.l10n.util.printf import parse_printf_pattern

PROPERTY = "P15"
RULE = (
    "printf: text made of the characters of printf specifiers and of whole specifiers; the oracle is a separate scanner of"
    " the documented form; each placeholder keeps its source, and all of the sources together are the text; non-trivial = a specifier. parse: for each format, a message source"
    " built by that format's own generator, parsed alone with parse_message() and as a part of a file with parse_resource(): the results"
    " must be equal; non-trivial = not plain text. serialize: for each format, message models; serialize_message() of a"
    " message and of its pattern gives what reads back as an equal message, leaves its input as it was, and rejects what the format has no syntax for; non-trivial = a placeholder or special character."
)
ASSUMPTIONS = [
    "the printf specifiers are those of the documented form: one digit argument numbers, at most one flag, and no letter following a %tX date specifier",
    "leading and trailing white space of Fluent and Android messages is not kept, as documented",
]

# ------------------------------------------------------------------ printf

FUNC = {**dict.fromkeys("cCsS", "string"), **dict.fromkeys("dDoOpuUxX", "integer"), **dict.fromkeys("aAeEfFgG", "number")}
LETTERS = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"


def scan(s):
    """Reference scanner: text and (source, variable, function) parts"""
    parts = []
    text = ""
    i = 0
    while i < len(s):
        if s[i] != "%":
            text += s[i]
            i += 1
            continue
        j = i + 1
        name = "arg"
        if s[j : j + 1] in tuple("123456789") and s[j + 1 : j + 2] == "$":
            name = "arg" + s[j]
            j += 2
        elif s[j : j + 1] == "(":
            k = s.find(")", j)
            inner = s[j + 1 : k] if k > 0 else ""
            if inner and all(c == "." or c == "_" or c.isalnum() for c in inner):
                name = inner
                j = k + 1
            else:
                text += s[i]
                i += 1
                continue
        if s[j : j + 1] in tuple("-#+ 0,"):
            j += 1
        while s[j : j + 1] in tuple("0123456789."):
            j += 1
        end = fn = None
        c = s[j : j + 1]
        if c in ("t", "T") and s[j + 1 : j + 2] in tuple(LETTERS):
            end = j + 2
            while s[end : end + 1] in tuple(LETTERS):
                end += 1
            fn = "datetime"
        else:
            for length in ("hh", "ll", "h", "l", "L", "z", "j", "q", ""):
                conv = s[j + len(length) : j + len(length) + 1]
                if s.startswith(length, j) and conv in tuple("@%" + LETTERS):
                    end = j + len(length) + 1
                    fn = None if conv == "%" else FUNC.get(conv, "printf")
                    break
        if end is None:
            text += s[i]
            i += 1
            continue
        if text:
            parts.append(text)
        text = ""
        src = s[i:end]
        parts.append(Expression("%" if fn is None else VariableRef(name), fn, attributes={"source": src}))
        i = end
    if text:
        parts.append(text)
    return parts


spec = st.builds(
    lambda *p: "%" + "".join(p),
    st.sampled_from(["", "", "", "1$", "2$", "9$", "(a)", "(a.b_1)", "(é)", "0$", "10$", "()", "(a b)", "(a"]),
    st.sampled_from(["", "", "", "-", "#", "+", " ", "0", ",", "--", "'"]),
    st.sampled_from(["", "", "5", "05", ".2", "10.3", "*", "."]),
    st.sampled_from(["", "", "", "h", "hh", "l", "ll", "L", "z", "j", "q", "t", "T", "hhh", "lh"]),
    st.sampled_from([*"@%cCdDoOpuUxXaAeEfFgGsSbBnitTYkzé ", ""]),
)
printf_text = st.lists(
    st.one_of(spec, st.text("%(){}$1290 .-#+,hlLzjqtTsdf@ab_é\n\\'\"", max_size=4), gen.text("%", any=gen.ANY, max_size=3)), max_size=5
).map("".join)
PLAIN = [Format.dtd, Format.gettext, Format.inc, Format.ini, Format.plain_json]


def check_printf(text, ctx):
    want = scan(text)
    if any(isinstance(p, Expression) for p in want):
        ctx.nontrivial(text)
    for what, fn in (
        ("parse_printf_pattern", lambda: list(parse_printf_pattern(text))),
        *((f.name, lambda f=f: parse_message(f, text, printf_placeholders=True).pattern) for f in PLAIN),
    ):
        got = fn()
        d = gen.diff(want, got)
        if d:
            raise Violation(f"{what}: {text!r}: {d}")
    msg = PatternMessage(got)
    for f in PLAIN:
        back = serialize_message(f, msg)
        if back != text:
            raise Violation(f"{f.name}: {text!r} is serialized as {back!r}")
        raw = parse_message(f, text)
        d = gen.diff(PatternMessage([text] if text else []), raw)
        if d:
            raise Violation(f"{f.name} without placeholders: {text!r}: {d}")
    src = serialize_message(Format.properties, msg)
    back = parse_message(Format.properties, src, printf_placeholders=True)
    d = gen.diff(msg, back)
    if d:
        raise Violation(f"properties: {text!r} as {src!r}: {d}")
    whole = "".join(p if isinstance(p, str) else p.attributes["source"] for p in back.pattern)
    if whole != text:
        raise Violation(f"properties: {text!r} as {src!r} and {whole!r}")


# ------------------------------------------------------------------ parse


def indented(src):
    return src.replace("\n", "\n    ")


@st.composite
def parse_case(draw):
    fmt = draw(st.sampled_from(["properties", "webext", "android", "xliff", "xcode", "mf2", "fluent", "dtd", "gettext", "inc", "ini", "plain_json"]))
    if fmt == "properties":
        val = draw(st.lists(st.one_of(spec, p01.values(st.just("\n")).map(lambda v: v[0])), max_size=3).map("".join))
        val = val.rstrip("\\").lstrip("\n\r=: \t\f")
        return fmt, val, {"printf_placeholders": draw(st.booleans())}
    if fmt == "webext":
        src, phs, _ = draw(p06.messages())
        return fmt, src, {"webext_placeholders": phs}
    if fmt == "android":
        tokens = draw(p09.string_tokens())
        how = draw(st.sampled_from(["plain", "charref", "cdata"]))
        return fmt, p09.write(tokens, how), {"android_ascii_spaces": draw(st.booleans())}
    if fmt == "xliff":
        kids = draw(p10.message)
        style = draw(st.integers(0, 7))
        return fmt, "".join(p10.mark_text(k, style) if isinstance(k, str) else p10.write(k, style, 0, True) for k in kids), {}
    if fmt == "xcode":
        return fmt, p10.mark_text(p11.source(draw(p11.tokens(p11.spec(), 6))), 1), {"xliff_is_xcode": True}
    if fmt == "mf2":
        return fmt, draw(p12.derived)[0], {}
    if fmt == "fluent":
        return fmt, draw(p08.pattern(indent=1)).strip(" \n"), {}
    text = draw(st.lists(st.one_of(spec, st.text("ab é1.,", min_size=1, max_size=4)), max_size=3).map("".join)).strip()
    return fmt, re.sub(r"[ ]+", " ", text), {}


def file_value(fmt, src, opts):
    """The value of a message in a file"""
    if fmt == "properties":
        return parse_resource(Format.properties, "k = " + src + "\n", properties_printf_placeholders=opts["printf_placeholders"])
    if fmt == "webext":
        return parse_resource(Format.webext, json.dumps({"k": {"message": src, "placeholders": opts["webext_placeholders"]}}))
    if fmt == "android":
        return parse_resource(Format.android, f'<resources><string name="k">{src}</string></resources>', **opts)
    if fmt in ("xliff", "xcode"):
        name = "Localizable.xcstrings" if fmt == "xcode" else "x.po"
        tool = '<header><tool tool-id="com.apple.dt.xcode"/></header>' if fmt == "xcode" else ""
        ns = "".join(f' xmlns:{p}="{u}"' for p, u in p10.PREFIX.items() if p != "xml")
        return parse_resource(
            Format.xliff,
            f'<xliff version="1.2" xmlns="urn:oasis:names:tc:xliff:document:1.2"{ns}><file original="{name}" source-language="en">{tool}'
            f'<body><trans-unit id="k"><source>s</source><target>{src}</target></trans-unit></body></file></xliff>',
        )
    if fmt == "fluent":
        return parse_resource(Format.fluent, "k =" + ("" if src[:1] in " \n" else " ") + src + "\n")
    if fmt == "dtd":
        return parse_resource(Format.dtd, f'<!ENTITY k "{src}">')
    if fmt == "gettext":
        return parse_resource(Format.gettext, f'msgid "k"\nmsgstr "{src}"\n')
    if fmt == "inc":
        return parse_resource(Format.inc, f"#define k {src}\n")
    if fmt == "ini":
        return parse_resource(Format.ini, f"[s]\nk={src}\n")
    return parse_resource(Format.plain_json, json.dumps({"k": src}))


def outcome(fn):
    try:
        return fn()
    except (ValueError, SyntaxError) as e:
        return e


def check_parse(case, ctx):
    fmt, src, opts = case
    ctx.label(fmt)
    if fmt == "dtd":
        src = src.replace("%", "")
    if re.search(r"[^\w ,.]", src):
        ctx.nontrivial(case)
    before = copy.deepcopy(opts)
    format = Format.xliff if fmt == "xcode" else Format[fmt]
    alone = outcome(lambda: parse_message(format, src, **opts))
    if opts != before:
        raise Violation(f"options {before} were changed to {opts}")
    if fmt == "mf2":
        # no file format: the parser itself
        d = gen.diff(mf2_parse_message(src), alone)
        if d:
            raise Violation(f"{fmt} {src!r}: {d}")
        return
    if fmt in ("xliff", "android") and re.search(r"\b(my|xsi|tools):", src):
        ctx.label("foreign namespace")
        return
    if fmt == "fluent" and not isinstance(alone, Exception):
        plain = src.strip("\n ")
        if plain != src.strip():
            return
    res = outcome(lambda: file_value(fmt, src, opts))
    if isinstance(res, Exception):
        if not isinstance(alone, Exception):
            raise Violation(f"{fmt}: {src!r} is only accepted alone: {alone}\n{res!r}")
        return
    entries = [e for e in res.all_entries() if hasattr(e, "value")]
    value = entries[0].value
    if fmt == "fluent" and (len(entries) > 1 or entries[0].properties):
        # the source goes on after the pattern
        if not isinstance(alone, Exception):
            raise Violation(f"{fmt}: {src!r} is accepted alone as {alone}\n{entries}")
        return
    if isinstance(alone, Exception):
        raise Violation(f"{fmt}: {src!r} is not accepted alone: {alone!r}\n{value}")
    if fmt in ("ini", "inc", "plain_json", "gettext", "dtd") and isinstance(value, PatternMessage):
        value = PatternMessage([x for x in ["".join(value.pattern)] if x])
    if len(entries) != 1 or entries[0].id[-1] != "k":
        raise Violation(f"{fmt}: {src!r} gives {entries}")
    if fmt == "xliff" and len(value.pattern) == 0 and "".join(p for p in alone.pattern if isinstance(p, str)).isspace():
        return
    d = gen.diff(value, alone)
    if d:
        raise Violation(f"{fmt} {src!r} {opts}: in a file and alone: {d}")


# ------------------------------------------------------------------ serialize


@st.composite
def serialize_case(draw):
    fmt = draw(st.sampled_from(["properties", "webext", "android", "xliff", "mf2", "fluent", "fluent raw", "plain", "sources", "reject"]))
    if fmt == "properties":
        text = draw(st.one_of(printf_text, gen.text(p01.SPECIAL + "%", any=p01.ALL, max_size=10)))
        return fmt, PatternMessage(scan(text))
    if fmt == "webext":
        return fmt, draw(p06.patterns().filter(lambda m: not p06.ambiguous(m)))
    if fmt == "android":
        return fmt, PatternMessage(draw(p09.pattern(("foo",)).filter(lambda p: "tools:x" not in repr(p))))
    if fmt == "xliff":
        return fmt, PatternMessage(p10.model_pattern(draw(p10.message)))
    if fmt == "mf2":
        return fmt, draw(p12.m_message())
    if fmt == "fluent":
        return fmt, draw(p08.m_message())
    if fmt == "fluent raw":
        return fmt, draw(p08.pattern(indent=1))
    if fmt == "plain":
        return fmt, PatternMessage(scan(draw(printf_text)))
    if fmt == "sources":
        # placeholders and markup of any kind, with any source
        source = st.fixed_dictionaries({"source": st.one_of(st.just(""), printf_text)}, optional={"x": st.just(True)})
        part = st.one_of(
            st.builds(lambda a, f, t: Expression(a, f, attributes=t), st.sampled_from(["", "%", VariableRef("a")]), st.sampled_from(["x", "string"]), source),
            st.builds(lambda k, t: Markup(k, "b", attributes=t), st.sampled_from(["open", "close", "standalone"]), source),
        )
        return fmt, PatternMessage(draw(st.lists(st.one_of(printf_text, part), max_size=4)))
    n = VariableRef("n")
    bad = draw(
        st.sampled_from(
            [
                SelectMessage({"n": Expression(n, "number")}, (n,), {(CatchallKey(),): ["x"]}),
                PatternMessage(["x"], {"n": Expression(n, "number")}),
                PatternMessage(["x", Expression(n)]),
                PatternMessage([Expression("a", "b"), "x"]),
                PatternMessage([Markup("open", "b"), "x", Markup("close", "b")]),
                PatternMessage([Expression(n, attributes={"source": True}), "x"]),
                PatternMessage([Expression(n, attributes={"Source": "%d"}), "x"]),
            ]
        )
    )
    # .properties messages may have declarations, if they are not used
    f = draw(st.sampled_from([*PLAIN, None] + ([] if bad == PatternMessage(["x"], bad.declarations) else [Format.properties])))
    return fmt, (f, bad)


def check_serialize(case, ctx):
    fmt, msg = case
    ctx.label(fmt)
    if fmt == "reject":
        f, bad = msg
        before = copy.deepcopy(bad)
        for m in (bad, bad.pattern) if isinstance(bad, PatternMessage) and not bad.declarations else (bad,):
            try:
                out = serialize_message(f, m)
            except ValueError:
                continue
            except Exception as e:
                raise Violation(f"{f}: {e!r} for {bad}") from e
            raise Violation(f"{f}: {bad} is serialized as {out!r}")
        if gen.diff(before, bad):
            raise Violation(f"{before} was changed")
        return
    if fmt == "fluent raw":
        # with escape_syntax disabled, text is Fluent syntax
        raw = msg.strip()
        want = outcome(lambda: parse_message(Format.fluent, raw))
        if isinstance(want, Exception) or "\u00a0" in raw or raw != msg.strip(" \n"):
            return
        out = serialize_message(Format.fluent, PatternMessage([raw]), fluent_escape_syntax=False, fluent_escape_empty=len(raw) % 2 == 1)
        d = gen.diff(want, outcome(lambda: parse_message(Format.fluent, out)))
        if d:
            raise Violation(f"Fluent source {raw!r} as a message without escapes, serialized as {out!r}: {d}")
        if "{" in raw:
            ctx.nontrivial(raw)
        return
    formats = [*PLAIN, None] if fmt in ("plain", "sources") else [Format[fmt]]
    if fmt == "xliff" and any(p.name.startswith("{") or any(k.startswith("{urn") for k in p.options) for p in msg.pattern if isinstance(p, Markup)):
        return
    before = copy.deepcopy(msg)
    if isinstance(msg, SelectMessage) or any(not isinstance(p, str) or set(p) & set("\\%{}<>&$\n") for p in msg.pattern):
        ctx.nontrivial(repr(case))
    for f in formats:
        kw = {"fluent_escape_empty": True} if fmt == "fluent" else {}
        out = serialize_message(f, msg, **kw)
        if not isinstance(out, str):
            raise Violation(f"{f}: {out!r} is not a string")
        if isinstance(msg, PatternMessage) and not msg.declarations:
            pat = copy.deepcopy(msg.pattern)
            if serialize_message(f, msg.pattern, **kw) != out:
                raise Violation(f"{f}: the pattern of {msg} is serialized differently")
            if gen.diff(pat, msg.pattern):
                raise Violation(f"{f}: serializing the pattern changed it: {before}")
        if fmt != "mf2":
            d = gen.diff(before, msg)
            if d:
                raise Violation(f"{f}: serializing the message changed it: {d}")
        else:
            if out != mf2_serialize_message(copy.deepcopy(before)):
                raise Violation(f"{msg} is serialized as {out!r}")
        if f is None or fmt == "sources":
            if out != "".join(p if isinstance(p, str) else p.attributes["source"] for p in msg.pattern):
                raise Violation(f"{msg} is serialized as {out!r}")
            continue
        opts = {}
        if fmt in ("properties", "plain"):
            opts["printf_placeholders"] = True
        if fmt == "webext":
            opts["webext_placeholders"] = {}
            for e in msg.pattern:
                if isinstance(e, Expression) and e.arg.name in msg.declarations:
                    key = e.attributes.get("source", f"${e.arg.name}$")[1:-1]
                    decl = msg.declarations[e.arg.name]
                    ph = {"content": decl.arg if isinstance(decl.arg, str) else decl.attributes.get("source", f"${decl.arg.name[3:]}")}
                    if "example" in decl.attributes:
                        ph["example"] = decl.attributes["example"]
                    opts["webext_placeholders"][key] = ph
        back = parse_message(f, out, **opts)
        if fmt == "fluent":
            p08.equal_meaning(msg, back, repr(out))
            continue
        if fmt == "mf2":
            p12.check_meaning(before, back, out)
            continue
        want = before
        if fmt == "webext":
            want = copy.deepcopy(before)
            for e in want.pattern:
                if isinstance(e, Expression) and "source" not in e.attributes:
                    e.attributes["source"] = f"${e.arg.name}$"
            used = {e.arg.name for e in want.pattern if isinstance(e, Expression)}
            want.declarations = {k: v for k, v in want.declarations.items() if k in used}
        d = gen.diff(want, back)
        if d:
            raise Violation(f"{fmt}: serialized as {out!r}: {d}")


SUBS = [
    Sub("printf", printf_text, check_printf, 9000),
    Sub("parse", parse_case(), check_parse, 7000),
    Sub("serialize", serialize_case(), check_serialize, 5000),
]
