"""P33: messages of every format are valid MessageFormat 2."""

from __future__ import annotations

import copy
import json
import re

from fluent.syntax import ast as ftl
from hypothesis import strategies as st

from checks import p06_webext as p06
from checks import p08_fluent as p08
from checks import p09_android as p09
from checks import p10_xliff as p10
from checks import p11_xcode as p11
from checks import p15_messages as p15
from checks import p32_js_parse as p32
from lib import corpus, gen, js
from lib.harness import Sub, Violation
from moz.l10n.formats import Format
from moz.l10n.formats.mf2 import mf2_from_json, mf2_parse_message, mf2_serialize_message, mf2_to_json, mf2_validate_message
from moz.l10n.message import message_from_json, message_to_json, parse_message, serialize_message
from moz.l10n.model import CatchallKey, Expression, PatternMessage, SelectMessage
from moz.l10n.resource import parse_resource

PROPERTY = "P33"
RULE = (
    "Real and edited files of every format, and sources of single messages and files from the generators of the checks of the formats, with any names of placeholders;"
    " each message read from them is valid by mf2_validate_message(), and comes back the same through the MessageFormat 2 syntax, written by the Python or the JavaScript package,"
    " and through the data-model JSON; non-trivial = a placeholder, variants, or a character with a meaning in the syntax."
)
ASSUMPTIONS = [
    "without NUL characters, lone surrogates, the empty placeholders of <bin-unit>, plurals of Android and Xcode with no item for other, and the few characters of XML names that names in MessageFormat 2 can not have",
    "names of catch-all variants are not a part of the syntax, and are only kept in JSON",
]

# In names of XML, but not in those of MessageFormat 2
NOT_NAME = re.compile("[\u061c\ufffd-\uffff]")


def nameless(msg):
    msg = copy.deepcopy(msg)
    if isinstance(msg, SelectMessage):
        msg.variants = {tuple(CatchallKey() if isinstance(k, CatchallKey) else k for k in keys): v for keys, v in msg.variants.items()}
    return msg


def outside(msg, fmt):
    """Whether a message is known not to be representable"""
    pats = [msg.pattern] if isinstance(msg, PatternMessage) else list(msg.variants.values())
    if isinstance(msg, SelectMessage) and not any(all(isinstance(k, CatchallKey) for k in keys) for keys in msg.variants):
        # Plurals without an item for `other`
        return fmt in (Format.android, Format.xliff)
    for p in [*(p for pat in pats for p in pat), *msg.declarations.values()]:
        if isinstance(p, Expression) and p.arg is None and p.function is None and set(p.attributes) & {"bin-unit"}:
            return True
    text = repr(message_to_json(msg))
    return "\\x00" in text or re.search(r"(?<!\\)(\\\\)*\\ud[89a-f]", text) is not None


def check_message(msg, fmt, what, ctx):
    if not isinstance(msg, (PatternMessage, SelectMessage)):
        raise Violation(f"{what} is {msg!r}")
    if outside(msg, fmt):
        ctx.label("outside")
        return
    before = copy.deepcopy(msg)
    info = f"{what} is read as {json.dumps(message_to_json(msg))}"
    try:
        mf2_validate_message(msg)  # which may reorder declarations
        if msg != before:
            raise Violation(f"{info}, which is changed by validation to {msg}")
        before = copy.deepcopy(msg)
        src = serialize_message(Format.mf2, msg)
        if src != "".join(mf2_serialize_message(msg)):
            raise Violation(f"{info}: {src!r} is not {''.join(mf2_serialize_message(msg))!r}")
    except ValueError as err:
        raise Violation(f"{info}: {err!r}") from None
    if d := gen.diff(before, msg):
        raise Violation(f"{info}, which is changed: {d}")
    if isinstance(msg, SelectMessage) or any(not isinstance(p, str) for p in msg.pattern) or re.search(r"[\\{}|.]", src):
        ctx.nontrivial(src)
    data = mf2_to_json(msg)
    back = mf2_from_json(json.loads(json.dumps(data)))
    msg.normalize()
    want = nameless(msg)
    for how, got in (
        ("Python", parse_message(Format.mf2, src)),
        ("JSON and Python", mf2_parse_message("".join(mf2_serialize_message(back)))),
    ):
        if d := gen.diff(want, got):
            raise Violation(f"{info}\nand by {how}, as {src!r}, as {got}: {d}")
    back.normalize()
    if d := gen.diff(want, nameless(back)):
        raise Violation(f"{info}\nand in data model JSON, as {json.dumps(data)}: {d}")
    mine = message_from_json(message_to_json(msg))
    if d := gen.diff(msg, mine):
        raise Violation(f"{info}\nand in JSON, as {message_to_json(msg)}: {d}")
    res = js.request("mf2SerializeMessage", message_to_json(msg))
    if "error" in res:
        raise Violation(f"{info}\nand rejected in JavaScript: {res}")
    if d := gen.diff(want, mf2_parse_message(res["value"])):
        raise Violation(f"{info}\nand in JavaScript, as {res['value']!r}: {d}")


def check_file(case, ctx, **options):
    name, text = case
    try:
        res = parse_resource(name, text if isinstance(text, bytes) else text.encode("utf-8", "surrogatepass"), **options)
    except Exception:
        ctx.label("rejected")
        return
    n = 0
    for entry in res.all_entries():
        for msg in (entry.value, *entry.properties.values()):
            n += 1
            if n <= 12:
                check_message(msg, res.format, f"{entry.id} of {name} {text[:500]!r}", ctx)
    ctx.label(res.format.name if res.format else "none")


# ------------------------------------------------------------------ files

files = st.sampled_from([e for e in corpus.TOKENS for _ in range(3 if e in ("xml", "xliff", "ftl") else 1)]).flatmap(lambda e: corpus.sources(e, 3))


@st.composite
def xliff_files(draw):
    return "a.xliff", p11.text(draw(p11.document()))


# ------------------------------------------------------------------ messages

ODD = ["-", ".", "1", "2", "_", ":", "é", "·", " ", "$", "a", "b", "|", "{", "世", "\u0300", "@", "A"]
odd_name = gen.weighted((4, gen.text(ODD, any=gen.XML_CHARS, max_size=5)), (1, st.lists(st.sampled_from(ODD), min_size=9, max_size=30).map("".join))).filter(lambda s: not NOT_NAME.search(s))
xml_attr = odd_name.map(lambda s: s.replace("&", "&amp;").replace("<", "&lt;").replace('"', "&quot;"))
xml_name = gen.ident("abcXYZ_é世", "abcXYZ_019-.é世", 5)


@st.composite
def android_src(draw):
    src = draw(p32.android_case())
    if NOT_NAME.search(src):
        src = NOT_NAME.sub("", src)
    for _ in range(draw(st.integers(0, 2))):
        i = draw(st.integers(0, len(src)))
        body = draw(st.sampled_from(["%1$s", "%s", "x", "{x}", "it\\'s", "&foo;", "%d and %s", "", "<b>x</b>", "{1-2}"]))
        k = draw(st.integers(0, 4))
        if k < 3:
            new = f'<xliff:g id="{draw(xml_attr)}"{draw(st.sampled_from(["", " example=' x '"]))}>{body}</xliff:g>'
        elif k == 3:
            body = body if body[:1] == "<" else "{" + draw(xml_attr) + "}"
            new = f"<xliff:g>{body}</xliff:g>"
        else:
            tag = draw(xml_name)
            new = f'<{tag} {draw(xml_name)}="{draw(xml_attr)}">{body}</{tag}>'
        src = src[:i] + new + src[i:]
    return src


def check_android(src, ctx):
    doc = f'<!DOCTYPE resources [<!ENTITY foo "x"><!ENTITY brandName "y"><!ENTITY B_2 "">]><resources xmlns:xliff="{p09.XLIFF}"><string name="k">{src}</string></resources>'
    check_file(("a.xml", doc), ctx)


@st.composite
def webext_src(draw):
    if draw(st.booleans()):
        phs, _, src = draw(p32.webext_case())
        return {"k": {"message": src, "placeholders": phs}}
    src, phs, _ = draw(p06.messages())
    return {"k": {"message": src, **({"placeholders": phs} if phs else {})}}


def check_webext(data, ctx):
    check_file(("messages.json", json.dumps(data)), ctx)


def check_xliff(case, ctx):
    src, xcode = case
    if NOT_NAME.search(src) or re.search(r"\w:\w+ *=", src):
        return
    try:
        msg = parse_message(Format.xliff, src, xliff_is_xcode=xcode)
    except Exception:
        ctx.label("rejected")
        return
    check_message(msg, Format.xliff, f"xliff {src!r}", ctx)


def check_printf(src, ctx):
    for fmt in (Format.properties, Format.dtd, Format.ini, Format.gettext):
        try:
            msg = parse_message(fmt, src, printf_placeholders=True)
        except ValueError:
            continue
        check_message(msg, fmt, f"{fmt.name} {src!r}", ctx)


def check_fluent(case, ctx):
    if case[0] == "entry" and isinstance(p08.PARSER.parse_entry(case[2]), (ftl.Message, ftl.Term)):
        check_file(("a.ftl", case[2]), ctx)


SUBS = [
    Sub("files", files, check_file, 12000),
    Sub("android", android_src(), check_android, 9000),
    Sub("webext", webext_src(), check_webext, 5000),
    Sub("xliff", st.one_of(p32.xliff_case().map(lambda s: (s, False)), p32.xcode_case().map(lambda s: (s, True))), check_xliff, 8000),
    Sub("xcode", xliff_files(), check_file, 4000),
    Sub("printf", p15.printf_text, check_printf, 5000),
    Sub("fluent", p08.entry_src(), check_fluent, 9000),
]
