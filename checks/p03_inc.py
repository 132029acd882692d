"""P03: .inc files: the parser reads the documented syntax, and serialization inverts it."""

from __future__ import annotations

import copy
import re

from hypothesis import strategies as st

from lib import gen
from lib.harness import Sub, Violation
from moz.l10n.formats import Format
from moz.l10n.formats.inc import inc_parse, inc_serialize
from moz.l10n.model import (
    Comment,
    Entry,
    Expression,
    Metadata,
    PatternMessage,
    Resource,
    Section,
    SelectMessage,
    VariableRef,
)

PROPERTY = "P03"
RULE = (
    "model: generated resources (defines with blanks, #, line breaks in values; single and multi-line"
    " comments; directives), with and without trim_comments; non-trivial = at least one entry, and a"
    " comment or directive or a value with something else than letters."
    " source: line sequences with their denoted model; non-trivial = at least two kinds of lines."
    " reject: an identifier, section, message, or metadata that the syntax cannot carry."
)
ASSUMPTIONS = [
    "comment lines do not start with # (those are directives) except as a standalone #directive",
    "leading white space of comment lines is not significant",
]

VANY = st.characters(exclude_categories=("Cs",), exclude_characters="\n\r")
names = st.text("abcXYZ_019é世", min_size=1, max_size=8)
values = gen.text([" ", "\t", "#", "#define x y", "\n", "\r\n", "\r", "<em:contributor>", "\u2028", "\x85", "\x0b", "\x1c"], any=VANY, max_size=10)
cmt = gen.comment(exclude="").map(
    lambda c: "\n".join(re.sub(r"^[#\s]+", "", ln).strip() for ln in c.split("\n")).strip()
)
directive = st.sampled_from(["#filter emptyLines", "#unfilter emptyLines", "#if X", "#endif", "#include foo", "#define", "#foo=bar"])


@st.composite
def resources(draw):
    sections = []
    for _ in range(draw(st.integers(1, 2))):
        entries = []
        for _ in range(draw(st.integers(0, 5))):
            k = draw(st.integers(0, 6))
            if k == 0:
                entries.append(Comment(draw(cmt)))
            elif k == 1:
                entries.append(Comment(draw(directive)))
            else:
                entries.append(
                    Entry(
                        (draw(names),),
                        PatternMessage(draw(st.lists(values, max_size=2))),
                        comment=draw(st.one_of(st.just(""), cmt)),
                    )
                )
        sections.append(Section((), entries, comment=draw(st.one_of(st.just(""), st.just(""), cmt))))
    return Resource(Format.inc, sections, comment=draw(st.one_of(st.just(""), cmt)))


def flat(res, trim):
    items = []

    def standalone(c):
        if c and (not trim or c.startswith("#")):
            items.append(Comment(c))

    standalone(res.comment)
    for s in res.sections:
        standalone(s.comment)
        for e in s.entries:
            if isinstance(e, Comment):
                standalone(e.comment)
            else:
                msg = re.sub("\r\n?|\n", " ", "".join(e.value.pattern))
                items.append(
                    Entry(e.id, PatternMessage([msg] if msg else []), comment="" if trim else e.comment)
                )
    return Resource(Format.inc, [Section((), items)])


def check_model(res, ctx):
    before = copy.deepcopy(res)
    for trim in (False, True):
        src = "".join(inc_serialize(res, trim_comments=trim))
        d = gen.diff(before, res)
        if d:
            raise Violation(f"serialize changed its input: {d}")
        expected = flat(res, trim)
        for data in (src, src.encode("utf8")):
            parsed = inc_parse(data)
            d = gen.diff(expected, parsed)
            if d:
                raise Violation(f"trim={trim} {d}\n{src!r}")
        back = "".join(inc_serialize(parsed))
        if back != re.sub(r"^\n+", "", src) and not trim:
            d = gen.diff(expected, inc_parse(back))
            if d:
                raise Violation(f"second round trip: {d}\n{src!r}\n{back!r}")
    vals = ["".join(e.value.pattern) for e in res.all_entries()]
    if vals and (
        any(not v.isalnum() for v in vals) or res.comment or any(e.comment for s in res.sections for e in s.entries)
    ):
        ctx.nontrivial()
        if any("\n" in c.comment for c in res.sections[0].entries):
            ctx.label("multi-line comment")


# ------------------------------------------------------------------ source with known meaning

lines_ = st.one_of(
    st.tuples(st.just("define"), names, st.sampled_from([" ", "\t", "  ", " \t"]), values.map(lambda v: re.sub("[\r\n]", "", v)), st.booleans()),
    st.tuples(st.just("define"), names, st.sampled_from([" ", "\t", "  ", " \t"]), values.map(lambda v: re.sub("[\r\n]", "", v)), st.booleans()),
    st.tuples(st.just("comment"), cmt.map(lambda c: c.split("\n")[0]), st.sampled_from(["", " ", "  "])),
    st.tuples(st.just("comment"), cmt.map(lambda c: c.split("\n")[0]), st.sampled_from(["", " ", "  "])),
    st.tuples(st.just("hash"), st.sampled_from(["#define x y", "#foo"]), st.just(" ")),
    st.tuples(st.just("directive"), directive),
    st.tuples(st.just("empty"), st.sampled_from(["", " ", "\t"])),
    st.tuples(st.just("#")),
)


@st.composite
def sources(draw):
    return draw(st.lists(lines_, min_size=1, max_size=8)), draw(st.sampled_from(["\n", "\r\n", "\r"])), draw(st.booleans())


def check_source(case, ctx):
    lines, eol, last = case
    out = []
    items = []
    pend = []

    def flush():
        if any(pend):
            items.append(Comment("\n".join(pend)))
        pend.clear()

    def add(c):
        if any(pend):
            pend.append(c)
        else:
            pend[:] = [c]

    for ln in lines:
        if ln[0] == "define":
            _, name, sep, value, trail = ln
            if not value and not trail:
                out.append(f"#define{sep}{name}")
            else:
                out.append(f"#define{sep}{name}{sep[0]}{value}")
            items.append(Entry((name,), PatternMessage([value] if value else []), comment="\n".join(pend)))
            pend.clear()
        elif ln[0] == "comment":
            out.append("# " + ln[2] + ln[1])
            add(ln[1])
        elif ln[0] == "hash":
            out.append("# " + ln[1])
            add("# " + ln[1])
        elif ln[0] == "directive":
            out.append(ln[1])
            flush()
            items.append(Comment(ln[1]))
        elif ln[0] == "empty":
            out.append(ln[1])
            flush()
        elif any(pend):
            out.append("#")
            add("")
        else:
            # nothing that it could continue: kept as it is
            out.append("#")
            items.append(Comment("#"))
    flush()
    src = eol.join(out) + (eol if last else "")
    expected = Resource(Format.inc, [Section((), items)])
    got = inc_parse(src)
    d = gen.diff(strip(expected), strip(got))
    if d:
        raise Violation(f"{d}\nin {src!r}")
    d = gen.diff(strip(expected), strip(inc_parse(src.encode("utf8"))))
    if d:
        raise Violation(f"bytes: {d}\nin {src!r}")
    if len({ln[0] for ln in lines}) > 1:
        ctx.nontrivial()


def strip(res):
    """Empty outer lines of comments are not significant."""
    for e in res.sections[0].entries:
        e.comment = e.comment.strip("\n")
    return res


# ------------------------------------------------------------------ rejected content

bad = st.sampled_from(
    [
        ("id", ("a", "b")), ("id", ("a b",)), ("id", ("",)), ("id", ("a-b",)), ("id", ("a.b",)),
        ("id", ("a\n",)), ("id", ("#a",)), ("section", ("s",)), ("section", ("s", "t")),
        ("value", PatternMessage([Expression(VariableRef("x"))])),
        ("value", PatternMessage(["a", Expression("b", "c", attributes={"source": "x"})])),
        ("value", SelectMessage({"n": Expression(VariableRef("n"), "number")}, (VariableRef("n"),), {("1",): ["x"]})),
        ("emeta", [Metadata("k", "v")]), ("smeta", [Metadata("k", "v")]), ("rmeta", [Metadata("k", "v")]),
    ]
)  # fmt: skip


def check_reject(case, ctx):
    res, (where, what) = case
    res = copy.deepcopy(res)
    e = Entry(("ok",), PatternMessage(["x"]))
    s = Section((), [e])
    if where == "id":
        e.id = what
    elif where == "value":
        e.value = what
    elif where == "section":
        s.id = what
    elif where == "emeta":
        e.meta = what
    elif where == "smeta":
        s.meta = what
    else:
        res.meta = what
    res.sections.append(s)
    try:
        src = "".join(inc_serialize(res))
    except ValueError:
        ctx.nontrivial()
        return
    raise Violation(f"not rejected: {where}={what!r}\n{src!r}")


junk = st.sampled_from(["foo", " # x", " #define a b", "define a b", "<!-- x -->", "a = b", "; x"])


def check_junk(case, ctx):
    res, junk_, first = case
    good = "".join(inc_serialize(res))
    src = junk_ + "\n" + good if first else good + "\n" + junk_ + "\n"
    try:
        got = inc_parse(src)
    except ValueError:
        ctx.nontrivial()
        return
    raise Violation(f"{junk_!r} was accepted in {src!r}: {got!r}")


SUBS = [
    Sub("model", resources, check_model, 9000),
    Sub("source", sources, check_source, 12000),
    Sub("reject", lambda: st.tuples(resources(), bad), check_reject, 1500),
    Sub("junk", lambda: st.tuples(resources(), junk, st.booleans()), check_junk, 1500),
]
