"""P01: .properties files: parsing is the Java syntax, and serialization inverts it."""

from __future__ import annotations

import copy
import re

from hypothesis import strategies as st

from lib import gen
from lib.harness import Sub, Violation
from moz.l10n.formats import Format
from moz.l10n.formats.properties import (
    properties_parse,
    properties_parse_message,
    properties_serialize,
    properties_serialize_message,
)
from moz.l10n.model import (
    Comment,
    Entry,
    Expression,
    LinePos,
    Markup,
    Metadata,
    PatternMessage,
    Resource,
    Section,
    SelectMessage,
    VariableRef,
)

PROPERTY = "P01"
RULE = (
    "model: generated resources (sections, ids and values with separators, control, non-BMP and"
    " blank characters, comments), for each of the three encodings; non-trivial = some key or value"
    " has a character that needs escaping, or a standalone comment is present."
    " reject: metadata, or a message that has no .properties representation, added to a resource."
    " custom: messages serialized by a callback, and string messages; non-trivial = escapes needed."
    " source: generated file text, built line by line along with the entries, comments and line"
    " positions it denotes; non-trivial = it has an escape or a line continuation."
    " fuzz: text over the syntax alphabet compared with a reference reader; non-trivial = at least"
    " two entries, or an escape."
)
ASSUMPTIONS = [
    "keys do not contain line continuations, and values do not end with a lone backslash at EOF",
    "comments have no trailing whitespace and no leading or trailing empty lines, as the model documents",
]

ALL = gen.st.characters(exclude_categories=("Cs",))
SPECIAL = " \t\n\r\f\\\\:=#!\"'%{}\x00\x01\x1a\x1b\x1f\x7f\x85\x9f\u00a0\u2028\U0001f600"


# ------------------------------------------------------------------ model round trip

key_text = gen.text(SPECIAL, any=ALL, min_size=1, max_size=6)
value_text = gen.text(SPECIAL, any=ALL, max_size=14)
cmt = gen.comment("=:\\")


@st.composite
def resources(draw):
    sections = []
    for i in range(draw(st.integers(1, 2))):
        sid = () if i == 0 and draw(st.booleans()) else tuple(
            draw(st.lists(key_text, min_size=1, max_size=2))
        )
        entries = []
        for _ in range(draw(st.integers(0, 4))):
            if draw(st.integers(0, 4)) == 0:
                entries.append(Comment(draw(cmt)))
            else:
                parts = draw(st.lists(key_text, min_size=1, max_size=2))
                val = draw(st.lists(value_text, max_size=2))
                entries.append(
                    Entry(
                        tuple(parts),
                        PatternMessage(val),
                        comment=draw(st.one_of(st.just(""), cmt)),
                    )
                )
        sections.append(Section(sid, entries, comment=draw(st.one_of(st.just(""), cmt))))
    res = Resource(Format.properties, sections, comment=draw(st.one_of(st.just(""), cmt)))
    return res, draw(st.sampled_from(["utf-8", "iso-8859-1", "utf-16"]))


def flat(res, trim):
    """What a properties file can carry of a resource: one anonymous section."""
    items = []

    def standalone(c):
        if c.strip() and not trim:
            items.append(Comment(c))

    if res.comment:
        standalone(res.comment)
    for s in res.sections:
        standalone(s.comment)
        for e in s.entries:
            if isinstance(e, Comment):
                standalone(e.comment)
            else:
                msg = "".join(e.value.pattern)
                items.append(
                    Entry(
                        (".".join((*s.id, *e.id)),),
                        PatternMessage([msg] if msg else []),
                        comment="" if trim else e.comment,
                    )
                )
    comment = items.pop(0).comment if items and isinstance(items[0], Comment) else ""
    return Resource(Format.properties, [Section((), items)], comment=comment)


def norm(res):
    for e in res.all_entries():
        e.value.normalize()
    return res


def check_model(case, ctx):
    res, encoding = case
    if encoding == "iso-8859-1":  # comments cannot be escaped
        for item in (res, *res.sections, *(e for s in res.sections for e in s.entries)):
            item.comment = item.comment.encode("latin-1", "replace").decode("latin-1")
    before = copy.deepcopy(res)
    for trim in (False, True):
        lines = list(properties_serialize(res, encoding, trim_comments=trim))
        d = gen.diff(before, res)
        if d:
            raise Violation(f"serialize changed its input: {d}")
        src = "".join(lines)
        data = src.encode(encoding)  # any encoding must be able to carry the result
        expected = flat(res, trim)
        d = gen.diff(expected, norm(properties_parse(src)))
        if d:
            raise Violation(f"trim={trim} {d}\n{src!r}")
        d = gen.diff(expected, norm(properties_parse(data, encoding)))
        if d:
            raise Violation(f"bytes: {d}\n{src!r}")
        back = "".join(properties_serialize(properties_parse(src), encoding, trim_comments=trim))
        if back != src and not trim and all(len(s.entries) for s in res.sections):
            again = "".join(properties_serialize(properties_parse(back), encoding))
            if again != back:
                raise Violation(f"not a fixpoint:\n{back!r}\n{again!r}")
    strs = [e.id[-1] + "".join(e.value.pattern) for e in res.all_entries()]
    if any(not s.isalnum() or not s.isascii() for s in strs):
        ctx.nontrivial()
        if any(c > "\uffff" for s in strs for c in s):
            ctx.label("non-BMP")
        if any(c < " " for s in strs for c in s):
            ctx.label("control")
    ctx.label(encoding)


# ------------------------------------------------------------------ message round trip

def check_message(case, ctx):
    value, ascii = case
    src = properties_serialize_message(PatternMessage([value]), ensure_ascii=ascii)
    if ascii and not src.isascii():
        raise Violation(f"ensure_ascii gives {src!r}")
    if "\n" in src or "\r" in src:
        raise Violation(f"raw newline in {src!r}")
    msg = properties_parse_message(src)
    if "".join(msg.pattern) != value:
        raise Violation(f"{value!r} -> {src!r} -> {msg!r}")
    msg = properties_parse_message(src, printf_placeholders=True)
    joined = "".join(
        p if isinstance(p, str) else str(p.attributes["source"]) for p in msg.pattern
    )
    if joined != value:
        raise Violation(f"with printf placeholders: {value!r} -> {src!r} -> {msg!r}")
    again = properties_serialize_message(msg, ensure_ascii=ascii)
    if again != src:
        raise Violation(f"printf message serialized as {again!r}, not {src!r}")
    if not value.isalnum():
        ctx.nontrivial()


# ------------------------------------------------------------------ rejected content

SEL = SelectMessage(
    {"n": Expression(VariableRef("n"), "number")}, (VariableRef("n"),), {("*",): ["x"]}
)
META = [Metadata("k", "v")]
bad = st.sampled_from(
    [(k, META) for k in ("emeta", "smeta", "rmeta")]
    + [
        ("value", SEL),
        ("value", PatternMessage([Expression(VariableRef("x"))])),
        ("value", PatternMessage(["a", Expression("b", attributes={"source": True})])),
        ("value", PatternMessage(["a", Markup("open", "b")])),
        ("value", PatternMessage([Expression(None, "f", attributes={"src": "%s"}), "z"])),
    ]
)


def check_reject(case, ctx):
    (res, encoding), (where, what), trim = case
    res = copy.deepcopy(res)
    e = Entry(("ok",), PatternMessage(["x"]))
    s = Section(("ok",), [e])
    if where == "value":
        e.value = what
    else:
        {"emeta": e, "smeta": s, "rmeta": res}[where].meta = copy.deepcopy(what)
    plain = copy.deepcopy(res)
    res.sections.append(s)
    if where == "value":
        try:
            src = properties_serialize_message(what)
        except ValueError:
            pass
        else:
            raise Violation(f"message not rejected: {what!r}\n{src!r}")
    elif trim:  # neither comments nor metadata are included
        src = "".join(properties_serialize(res, encoding, trim_comments=True))
        plain.meta = []
        plain.sections.append(Section(("ok",), [Entry(("ok",), PatternMessage(["x"]))]))
        exp = "".join(properties_serialize(plain, encoding, trim_comments=True))
        if src != exp:
            raise Violation(f"trimmed result depends on metadata\n{src!r}\n{exp!r}")
        ctx.nontrivial()
        return
    try:
        src = "".join(properties_serialize(res, encoding, trim_comments=trim))
    except ValueError:
        ctx.nontrivial()
        return
    raise Violation(f"not rejected: {where}={what!r}\n{src!r}")


# ------------------------------------------------------------------ other message representations

texts = st.lists(gen.text(SPECIAL, any=ALL, max_size=8), min_size=1, max_size=3)


def check_custom(case, ctx):
    values, encoding = case
    res = Resource(
        Format.properties,
        [Section((), [Entry((f"k{i}",), PatternMessage([v])) for i, v in enumerate(values)])],
    )
    seen = []

    def callback(msg):
        seen.append(msg)
        return "<" + "".join(msg.pattern) + "> " + "".join(msg.pattern)

    src = "".join(properties_serialize(res, encoding, callback))
    if seen != [e.value for e in res.all_entries()]:
        raise Violation(f"callback called with {seen!r}")
    if encoding == "iso-8859-1" and not src.isascii():
        raise Violation(f"not ASCII: {src!r}")
    got = ["".join(e.value.pattern) for e in properties_parse(src.encode(encoding), encoding).all_entries()]
    exp = [f"<{v}> {v}" for v in values]
    if got != exp:
        raise Violation(f"callback results {exp!r} are read as {got!r}\n{src!r}")
    # without decoration, the same as without a callback
    src = "".join(properties_serialize(res, encoding, lambda msg: "".join(msg.pattern)))
    exp = "".join(properties_serialize(res, encoding))
    if src != exp:
        raise Violation(f"callback gives {src!r}, default {exp!r}")
    # string values
    strs = Resource(
        Format.properties,
        [Section((), [Entry(e.id, e.value.pattern[0]) for e in res.all_entries()])],
    )
    if all(re.fullmatch(r"[ -\[\]-~]*", v) for v in values):
        src = "".join(properties_serialize(strs, encoding))
        if src != exp:
            raise Violation(f"strings give {src!r}, messages {exp!r}")
        ctx.label("strings")
    if any(not v.isalnum() for v in values):
        ctx.nontrivial()


# ------------------------------------------------------------------ source with known meaning

EOL = ["\n", "\r\n", "\r"]
plain = st.text("abcdeXYZ019.,-éß世😀'\"{}$%", min_size=1, max_size=5)


@st.composite
def escapes(draw, in_key):
    """(source, value) of one escape sequence."""
    kind = draw(st.integers(0, 4))
    if kind == 0:
        return draw(
            st.sampled_from([("\\t", "\t"), ("\\n", "\n"), ("\\f", "\f"), ("\\r", "\r")])
        )
    if kind == 1:
        cp = draw(st.one_of(st.integers(0, 0x7F), st.integers(0x80, 0xD7FF)))
        fmt = draw(st.sampled_from(["\\u{:04x}", "\\u{:04X}"]))
        return fmt.format(cp), chr(cp)
    if kind == 2:
        ch = draw(st.sampled_from(list("\\:=#! \"'abcdeg.zQ%")))
        return "\\" + ch, ch
    if kind == 3 and draw(st.booleans()):
        ch = draw(st.sampled_from("😀𝒳\U0010ffff"))
        hi, lo = (int.from_bytes(ch.encode("utf-16-be")[i : i + 2], "big") for i in (0, 2))
        return f"\\u{hi:04x}\\u{lo:04X}", ch
    return "\\\\", "\\"


@st.composite
def keys(draw):
    src = out = ""
    for i in range(draw(st.integers(1, 3))):
        if draw(st.integers(0, 2)) == 0:
            s, v = draw(escapes(True))
        else:
            s = v = draw(plain)
        if i and src.endswith("!"):
            pass
        src += s
        out += v
    return src, out


@st.composite
def values(draw, eols):
    """source, value, number of continuation lines, line (relative) where the value starts"""
    src = out = ""
    lines = 0
    for i in range(draw(st.integers(0, 5))):
        kind = draw(st.integers(0, 5))
        if kind == 0:
            s, v = draw(escapes(False))
        elif kind == 1:
            s = "\\" + draw(eols) + draw(st.sampled_from(["", " ", "\t ", "   \f"]))
            v = ""
            lines += 1
            # the first character after the leading whitespace must not be whitespace or eol
            t = draw(plain)
            s, v = s + t, t
        elif kind == 2 and src:
            s = v = draw(st.sampled_from([" ", "=", ":", "\t", "#", "!", "  ", " = "]))
        else:
            s = v = draw(plain)
        src += s
        out += v
    if draw(st.integers(0, 7)) == 0:
        # an empty last line
        src += "\\" + draw(eols) + draw(st.sampled_from(["", "", " "]))
        lines += 1
    return src, out, lines


@st.composite
def sources(draw):
    eols = draw(st.sampled_from([st.just(x) for x in EOL] + [st.sampled_from(EOL[:2])]))
    text = ""
    line = 1
    items = []  # (kind, ...)
    res_comment = ""
    pend = []  # pending comment lines
    pend_start = 0

    def flush():
        nonlocal pend, res_comment
        if pend:
            c = "\n".join(pend)
            if c:
                if items or res_comment:
                    items.append(Comment(c, LinePos(pend_start, pend_start, pend_start, line)))
                else:
                    res_comment = c
            pend = []

    n = draw(st.integers(1, 7))
    for i in range(n):
        kind = draw(st.integers(0, 5))
        last = i == n - 1 and draw(st.booleans())
        end = "" if last else draw(eols)
        if kind == 0:
            flush()
            text += draw(st.sampled_from(["", "", "  ", "\t", "\f "])) + end
            line += 1
        elif kind == 1:
            body = draw(st.one_of(plain, st.builds(lambda a, b: a + " = " + b, plain, plain)))
            lead = draw(st.sampled_from(["", "  ", "\t"]))
            sigil = draw(st.sampled_from(["# ", "! ", "#", "!"]))
            if not pend:
                pend_start = line
            text += lead + sigil + body + end
            pend.append(body)
            line += 1
        else:
            ksrc, kval = draw(keys())
            sep = draw(
                st.sampled_from([" = ", "=", ":", " : ", " ", "\t", "= ", " =", " \t:\f"])
            )
            lead = draw(st.sampled_from(["", "", " ", "\t "]))
            if ksrc[0] in "#!":
                ksrc = "\\" + ksrc
            vsrc, vval, extra = draw(values(eols))
            if sep.strip() == "" and vsrc[:1] in (":", "="):
                vsrc, vval, extra = "x", "x", 0
            if vsrc == "" and sep.strip() == "" and last:
                sep = "="
            text += lead + ksrc + sep + vsrc + end
            cstart = pend_start if pend else line
            items.append(
                Entry(
                    (kval,),
                    PatternMessage([vval] if vval else []),
                    comment="\n".join(pend),
                    linepos=LinePos(cstart, line, line, line + extra + 1),
                )
            )
            pend = []
            line += extra + 1
    flush()
    return text, res_comment, items


def lp(e):
    return None if e.linepos is None else (e.linepos.start, e.linepos.key, e.linepos.value, e.linepos.end)


def check_source(case, ctx):
    src, res_comment, items = case
    expected = Resource(Format.properties, [Section((), items)], comment=res_comment)
    for data in (src, src.encode("utf-8")):
        res = norm(properties_parse(data))
        d = gen.diff(expected, res)
        if d:
            raise Violation(f"{d}\nin {src!r}")
    for want, got in zip(items, res.sections[0].entries):
        if isinstance(want, Entry) and lp(want) != lp(got):
            raise Violation(f"line position of {want.id}: expected {lp(want)}, got {lp(got)}")
        if isinstance(want, Comment) and (
            got.linepos is None or (got.linepos.start, got.linepos.end) != (want.linepos.start, want.linepos.end)
        ):
            raise Violation(f"line position of comment {want.comment!r}: {lp(want)} / {lp(got)}")
    if "\\" in src:
        ctx.nontrivial()
        if any(e.linepos.end - e.linepos.key > 1 for e in items if isinstance(e, Entry)):
            ctx.label("continuation")
    if any(isinstance(e, Comment) for e in items):
        ctx.label("standalone comment")


# ------------------------------------------------------------------ reference reader

def reference(src):
    """A reader for the .properties syntax, on logical lines."""
    src = src.replace("\r\n", "\n").replace("\r", "\n")
    nat = src.split("\n")
    out = []
    i = 0
    while i < len(nat):
        ln = nat[i].lstrip(" \t\f")
        i += 1
        if not ln or ln[0] in "#!":
            continue
        while (len(ln) - len(ln.rstrip("\\"))) % 2 == 1 and i < len(nat):
            ln = ln[:-1] + "\0" + nat[i].lstrip(" \t\f")
            i += 1
        out.append(ln)
    entries = []
    for ln in out:
        k = 0
        key = ""
        while k < len(ln) and ln[k] not in " \t\f=:\0":
            if ln[k] == "\\":
                key += ln[k : k + 2]
                k += 2
            else:
                key += ln[k]
                k += 1
        if "\0" in key or (k < len(ln) and ln[k] == "\0"):
            return None  # continuation in a key: out of scope
        rest = ln[k:].lstrip(" \t\f")
        if rest[:1] in ("=", ":"):
            rest = rest[1:].lstrip(" \t\f")
        if "\0" in rest and rest.split("\0")[0].rstrip(" \t\f") == "":
            pass
        entries.append((unesc(key), "".join(unesc(p) for p in rest.split("\0"))))
    return entries


def unesc(s):
    out = ""
    i = 0
    while i < len(s):
        if s[i] != "\\":
            out += s[i]
            i += 1
            continue
        c = s[i + 1]
        i += 2
        if c == "u":
            j = i
            while j < len(s) and j < i + 4 and s[j] in "0123456789abcdefABCDEF":
                j += 1
            if j == i:
                out += "u"
            else:
                out += chr(int(s[i:j], 16))
                i = j
        else:
            out += {"t": "\t", "n": "\n", "f": "\f", "r": "\r"}.get(c, c)
    return out


fuzz_alpha = list("aab \\\\\\\t\f\n\n\r:=#!u0041é") + ["\\u00e9", "\\\n", "\\\r\n", "\r\n", "\n", "k=v\n", " = ", "\\u1"]


@st.composite
def fuzz_src(draw):
    s = "".join(draw(st.lists(st.sampled_from(fuzz_alpha), max_size=24)))
    return s.rstrip("\\")


def check_fuzz(src, ctx):
    check_single(src)
    want = reference(src)
    if want is None:
        properties_parse(src)
        ctx.label("continuation in key")
        return
    res = properties_parse(src)
    got = [(e.id[0], "".join(e.value.pattern)) for e in res.all_entries()]
    if got != want:
        raise Violation(f"{src!r}\n  expected {want!r}\n  got      {got!r}")
    out = "".join(properties_serialize(res))
    res2 = properties_parse(out)
    d = gen.diff(norm(copy.deepcopy(res)), norm(res2))
    if d and not any("\r" in c.comment for c in res.sections[0].entries) and trimmed(res):
        raise Violation(f"round trip of {src!r}: {d}")
    if len(want) > 1 or (want and "\\" in src):
        ctx.nontrivial()


def check_single(src):
    """A message source is what can follow "k=" with nothing else after it."""
    if not src.strip(" \t\f"):
        return
    res = properties_parse("k=" + src)
    es = res.sections[0].entries
    one = len(es) == 1 and not res.comment and src.lstrip(" \t\f")[0] not in "\r\n"
    one = one and not re.search(r"[\r\n][ \t\f]*[#!][^\r\n]*\Z", src.rstrip())
    try:
        msg = properties_parse_message(src)
    except ValueError:
        if one:
            raise Violation(f"message source {src!r} is rejected")
        return
    if len(es) > 1 or res.comment:
        raise Violation(f"message source {src!r} with other content is read as {msg!r}")
    if es and "".join(msg.pattern) != "".join(es[0].value.pattern):
        raise Violation(f"message source {src!r} is read as {msg!r}, in a file {es[0].value!r}")


def trimmed(res):
    """Are the comments such as can be carried (no outer blank lines or spaces)?"""
    cs = [res.comment] + [e.comment for e in res.sections[0].entries]
    return all(c == "\n".join(x.rstrip() for x in c.strip("\n").split("\n")) and (not c or c.strip()) for c in cs)


SUBS = [
    Sub("model", resources, check_model, 9000),
    Sub("message", lambda: st.tuples(gen.text(SPECIAL + "%", any=ALL, max_size=14), st.booleans()), check_message, 9000),
    Sub("reject", lambda: st.tuples(resources(), bad, st.booleans()), check_reject, 800),
    Sub("custom", lambda: st.tuples(texts, st.sampled_from(["utf-8", "iso-8859-1", "utf-16"])), check_custom, 2500),
    Sub("source", sources, check_source, 12000),
    Sub("fuzz", fuzz_src, check_fuzz, 24000),
]
