"""P34: content is kept when it is moved from one format to another."""

from __future__ import annotations

import copy
import re

from hypothesis import strategies as st

from lib import gen
from lib.harness import Sub, Violation
from moz.l10n.formats import Format
from moz.l10n.formats.xliff import xliff_serialize
from moz.l10n.model import Entry, Expression, Metadata, PatternMessage, Resource, Section
from moz.l10n.resource import add_entries, l10n_equal, parse_resource, serialize_resource

PROPERTY = "P34"
RULE = (
    "text: up to four entries of identifier, text and comment, written in one format, read from it, written in another,"
    " read from that, and written in the first again; non-trivial = some text has a character with a meaning in either format."
    " strings: the same entries with string values; non-trivial = as above."
)
ASSUMPTIONS = [
    "identifiers are of letters and digits, and sections are only used where a format requires them",
    "string values are the message source in .properties, Fluent and messages.json, so only plain text is the same in them as in messages",
    "text that a format rejects with a ValueError is not carried by it; text of letters, digits, inner spaces and common punctuation is never rejected",
]

FORMATS = [
    Format.android, Format.dtd, Format.fluent, Format.gettext, Format.inc,
    Format.ini, Format.plain_json, Format.properties, Format.webext, Format.xliff,
]  # fmt: skip
SPECIAL = list("\n\t\\\"'<>&;%${}[]()=:#!*.-@?|/ \u00a0\u2028") + ["&lt;", "&#10;", "%s", "%1$s", "$1", "\\n", "\\u0041", "{ $x }", "<b>", "]]>", "--", "\n\n", "\n  ", "%%"]
PLAIN = re.compile(r"(?! )[A-Za-z0-9é世 ,!?_]+(?<! )")

ident = st.from_regex(r"[a-z][a-z0-9A-Z]{0,4}", fullmatch=True)
plain = st.from_regex(r"[A-Za-z0-9é世][A-Za-z0-9é世 ,!?_]{0,9}[a-z0-9é世!]", fullmatch=True)
texts = gen.weighted((3, gen.text(SPECIAL, any=gen.XML_CHARS, max_size=8)), (1, plain))
cmts = gen.weighted((3, st.just("")), (1, plain), (1, st.lists(plain, min_size=2, max_size=3).map("\n".join)))
entries = gen.distinct_by(st.tuples(ident, texts, cmts), lambda e: e[0], min_size=1, max_size=4)


def carried(fmt, text):
    """Is the text within what the syntax of the format can represent?"""
    if fmt is Format.inc:
        return not re.search(r"[\r\n]", text)
    if fmt is Format.gettext:  # polib splits lines at these
        return not re.search("[\x1c-\x1e\x85\u2028\u2029]", text)
    if fmt is Format.ini:
        first, *rest = text.split("\n")
        return text == text.strip() and not re.search(r"\s;", first) and all(t == t.strip() for t in [first, *rest])
    if fmt is Format.dtd:
        return "<!--" not in text and not ("'" in text and '"' in text)
    if fmt is Format.android:
        return not re.search(r"%|<[^>]*>|\\(\s|$)", text)
    return True


def build(fmt, items, values=None):
    """A resource with the items, in the shape that the format requires"""
    sid = {Format.ini: ("s",), Format.xliff: ("f",)}.get(fmt, ())
    es = []
    for k, text, cmt in items:
        val = PatternMessage([text] if text else []) if values is None else values(text)
        es.append(Entry((k,), val, comment=cmt))
    res = Resource(fmt, [Section(sid, es)])
    if fmt is Format.xliff:
        res.meta.append(Metadata("@version", "1.2"))
    return res


def write(res):
    if res.format is Format.xliff:
        return "".join(xliff_serialize(res, source_entries=True))
    return "".join(serialize_resource(res))


def read(fmt, src):
    if fmt is Format.xliff:
        from moz.l10n.formats.xliff import xliff_parse

        return xliff_parse(src, source_entries=True)
    return parse_resource(fmt, src)


def flat(msg):
    if not isinstance(msg, PatternMessage):
        raise Violation(f"text is read as {msg}")
    out = ""
    for p in msg.pattern:
        if isinstance(p, str):
            out += p
        elif isinstance(p.attributes.get("source"), str):
            out += p.attributes["source"]
        elif isinstance(p, Expression) and isinstance(p.arg, str) and not p.function:
            out += p.arg
        else:
            raise Violation(f"text is read with the placeholder {p}")
    return out


def items_of(res):
    es = [e for s in res.sections for e in s.entries if isinstance(e, Entry)]
    # leading white space of lines of comments is not significant
    return [(e.id[0], flat(e.value), re.sub(r"\n +", "\n", e.comment)) for e in es]


def same(fmt, want, got, what):
    if fmt in (Format.plain_json, Format.webext):  # no comments, at least not as such
        want = [(k, t, "") for k, t, _ in want] if fmt is Format.plain_json else want
    if want != got:
        raise Violation(f"{fmt.name}: {want} is read as {got}\n{what}")


def check_text(case, ctx):
    items, a, b = case
    if not all(carried(f, t) for f in (a, b) for _, t, _ in items):
        ctx.label("not carried")
        return
    if Format.plain_json in (a, b):
        items = [(k, t, "") for k, t, _ in items]
    ctx.label(f"{a.name}")
    ctx.label(f"to {b.name}")
    try:
        src_a = write(build(a, items))
    except ValueError as e:
        if all(PLAIN.fullmatch(t) for _, t, _ in items):
            raise Violation(f"{a.name}: {items} rejected: {e}") from e
        ctx.label("rejected")
        return
    got_a = items_of(read(a, src_a))
    same(a, items, got_a, src_a)
    try:
        src_b = write(build(b, got_a))
    except ValueError as e:
        if all(PLAIN.fullmatch(t) for _, t, _ in items):
            raise Violation(f"{b.name}: {items} rejected: {e}") from e
        ctx.label("rejected")
        return
    got_b = items_of(read(b, src_b))
    same(b, items, got_b, src_b)
    if write(build(a, got_b)) != src_a:
        raise Violation(f"{a.name} to {b.name} and back: {src_a!r} becomes {write(build(a, got_b))!r}")
    if any(not PLAIN.fullmatch(t) for _, t, _ in items):
        ctx.nontrivial(src_b)


LITERAL = {Format.android, Format.dtd, Format.gettext, Format.inc, Format.ini, Format.plain_json, Format.xliff}


def check_strings(case, ctx):
    """A string value is the same as a message with only that text"""
    items, fmt, trim = case
    if fmt is Format.plain_json:
        items = [(k, t, "") for k, t, _ in items]
    if fmt not in LITERAL:
        items = [(k, t if PLAIN.fullmatch(t) else re.sub(r"[^a-z]", "", t), c) for k, t, c in items]
    ctx.label(fmt.name)
    out = []
    for values in (str, None):
        res = build(fmt, items, values)
        before = copy.deepcopy(res)
        try:
            if fmt is Format.xliff:
                src = "".join(xliff_serialize(res, source_entries=True, trim_comments=trim))
            else:
                src = "".join(serialize_resource(res, trim_comments=trim))
        except ValueError:
            if all(PLAIN.fullmatch(t) for _, t, _ in items):
                raise
            src = "rejected"
        d = gen.diff(before, res)
        if d:
            raise Violation(f"{fmt.name}: serializing changed the resource: {d}")
        out.append(src)
    if fmt is Format.xliff:  # empty elements may be written in two ways
        out = [s.replace("<source></source>", "<source/>") for s in out]
    if out[0] != out[1]:
        raise Violation(f"{fmt.name}: {items} as strings gives\n{out[0]!r}, as messages\n{out[1]!r}")
    if any(not PLAIN.fullmatch(t) for _, t, _ in items):
        ctx.nontrivial(repr(out))
    if fmt is Format.android:
        # as entities
        ents = [[Entry((k,), v(t)) for k, t, _ in items] for v in (str, lambda t: PatternMessage([t]))]
        a, b = ("".join(serialize_resource(Resource(fmt, [Section(("!ENTITY",), es)]))) for es in ents)
        if a != b:
            raise Violation(f"entities as strings: {a!r}, as messages {b!r}")


def check_merge(case, ctx):
    """Entries of another format may be added to a resource"""
    items, more, a, b = case
    if Format.plain_json in (a, b):
        items, more = ([(k, t, "") for k, t, _ in x] for x in (items, more))
    if not all(carried(f, t) for f in (a, b) for _, t, _ in [*items, *more]):
        ctx.label("not carried")
        return
    try:
        target = read(a, write(build(a, items)))
        source = read(b, write(build(b, more)))
    except ValueError:
        ctx.label("rejected")
        return
    for e in source.all_entries():  # Fluent has some text as literals in placeholders
        e.value = PatternMessage([flat(e.value)])
        e.meta = []
        e.comment = re.sub(r"\n +", "\n", e.comment)
    # sections have the same name in both
    for x, y in zip(source.sections, target.sections):
        x.id = y.id
        for z in (x, y):
            z.meta = []
    keys = {k for k, _, _ in items}
    new = [x for x in more if x[0] not in keys]
    n = add_entries(target, source)
    if n != len(new):
        raise Violation(f"{n} entries added, of {len(new)} new ones")
    try:
        src = write(target)
    except ValueError as e:
        raise Violation(f"{a.name}: not written with entries from {b.name}: {e}") from e
    got = items_of(read(a, src))
    same(a, sorted([*items, *new]), sorted(got), src)
    if [x for x in got if x[0] in keys] != items:
        raise Violation(f"order of {items} changed: {got}")
    if not l10n_equal(read(a, src), read(a, write(build(a, sorted(got))))):
        raise Violation(f"{a.name}: not equal with other order: {src}")
    if new:
        ctx.nontrivial(src)


SUBS = [
    Sub("text", st.tuples(entries, st.sampled_from(FORMATS), st.sampled_from(FORMATS)), check_text, 16000),
    Sub("strings", st.tuples(entries, st.sampled_from(FORMATS), st.booleans()), check_strings, 8000),
    Sub("merge", st.tuples(entries, entries, st.sampled_from(FORMATS), st.sampled_from(FORMATS)), check_merge, 6000),
]
