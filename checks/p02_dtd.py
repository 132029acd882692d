"""P02: .dtd files: the parser reads the documented syntax, and serialization inverts it."""

from __future__ import annotations

import copy
import re

from hypothesis import strategies as st

from lib import gen
from lib.harness import Sub, Violation
from moz.l10n.formats import Format
from moz.l10n.formats.dtd import dtd_parse, dtd_serialize
from moz.l10n.model import (
    Comment,
    Entry,
    Expression,
    Metadata,
    PatternMessage,
    Resource,
    Section,
    SelectMessage,
    VariableRef,
)

PROPERTY = "P02"
RULE = (
    "model: generated resources with sections, dotted ids, external entity references, comments with"
    " dashes and line breaks, values with quotes, markup, entity references and line breaks;"
    " non-trivial = at least one entry and (a quote in a value, or a comment, or a reference)."
    " source: token sequences (entities, comments, external references) with varied spacing and their"
    " denoted model; non-trivial = at least two tokens of which one is a comment or reference."
    " reject: a name, message or metadata that DTD cannot carry put into a valid resource."
)
ASSUMPTIONS = [
    "values contain no <!-- --> comment (the syntax cannot quote it; the serializer drops it)",
    "in a value with both kinds of quotes, \" is represented by &quot; which the parser leaves as it is",
    "leading whitespace of the continuation lines of a comment is not significant",
    "-- in comments is broken up with zero-width spaces, as the serializer documents",
]

XANY = st.characters(exclude_categories=("Cs", "Cc"), include_characters="\t\n")
name_part = gen.ident("abcXYZ_:éž世", "abcXYZ_019-:é·世", 5)
value_text = gen.text(
    ["'", '"', "&brandShortName;", "&quot;", "&amp;", "<b>", "</b>", "<", ">", "<!", "--", ">", "\n", "  ", "%", "\\", "]]>", "<!ENTITY x 'y'"],
    any=XANY,
    max_size=10,
).filter(lambda s: not re.search(r"<!\s*--", s))
cmt = gen.comment("'\"<>&", blank_lines=False).filter(lambda s: ">" not in s or True)


def no_entity(c):
    return "<!ENTITY" not in c


cmt = gen.st.one_of(cmt, gen.comment("-->", blank_lines=False)).filter(no_entity)


@st.composite
def resources(draw):
    sections = []
    for i in range(draw(st.integers(1, 2))):
        sid = (
            ()
            if i == 0 and draw(st.booleans())
            else tuple(draw(st.lists(name_part, min_size=1, max_size=2)))
        )
        entries = []
        for _ in range(draw(st.integers(0, 4))):
            if draw(st.integers(0, 4)) == 0:
                entries.append(Comment(draw(cmt)))
            else:
                parts = draw(st.lists(name_part, min_size=1, max_size=2))
                val = draw(st.lists(value_text, max_size=2))
                if re.search(r"<!\s*--", "".join(val)):
                    val = val[:1]
                entries.append(
                    Entry(tuple(parts), PatternMessage(val), comment=draw(st.one_of(st.just(""), cmt)))
                )
        sections.append(Section(sid, entries, comment=draw(st.one_of(st.just(""), st.just(""), cmt))))
    meta = [
        Metadata(draw(name_part), draw(gen.text("'/:.", exclude='"<>&%')))
        for _ in range(draw(st.sampled_from([0, 0, 1, 1, 2, 3])))
    ]
    return Resource(
        Format.dtd, sections, comment=draw(st.one_of(st.just(""), cmt)), meta=meta
    )


def norm_comment(c):
    return "\n".join(x.strip() for x in c.replace("--", "-\u200b-\u200b").strip().split("\n"))


def flat(res, trim):
    items = []

    def standalone(c):
        if c and not trim:
            items.append(Comment(norm_comment(c)))

    standalone(res.comment)
    for s in res.sections:
        standalone(s.comment)
        for e in s.entries:
            if isinstance(e, Comment):
                standalone(e.comment)
            else:
                msg = "".join(e.value.pattern)
                if '"' in msg and "'" in msg:
                    msg = msg.replace('"', "&quot;")
                items.append(
                    Entry(
                        (".".join((*s.id, *e.id)),),
                        PatternMessage([msg]),
                        comment="" if trim else norm_comment(e.comment),
                    )
                )
    comment = items.pop(0).comment if items and isinstance(items[0], Comment) else ""
    return Resource(Format.dtd, [Section((), items)], comment=comment, meta=res.meta)


def simplify(res):
    """Comments by their stripped lines."""
    res.comment = norm_comment(res.comment)
    for e in res.sections[0].entries:
        e.comment = norm_comment(e.comment)
    return res


def check_model(res, ctx):
    before = copy.deepcopy(res)
    for trim in (False, True):
        src = "".join(dtd_serialize(res, trim_comments=trim))
        d = gen.diff(before, res)
        if d:
            raise Violation(f"serialize changed its input: {d}")
        expected = flat(res, trim)
        for data in (src, src.encode("utf8")):
            parsed = dtd_parse(data)
            d = gen.diff(expected, simplify(copy.deepcopy(parsed)))
            if d:
                raise Violation(f"trim={trim} {d}\n{src!r}")
        if trim and "<!--" in src.replace("".join("".join(e.value.pattern) for e in res.all_entries()), ""):
            if not any("<!" in "".join(e.value.pattern) for e in res.all_entries()):
                raise Violation(f"comments left in {src!r}")
        back = "".join(dtd_serialize(parsed))
        d = gen.diff(expected, simplify(dtd_parse(back)))
        if d:
            raise Violation(f"second round trip: {d}\n{src!r}\n{back!r}")
    vals = ["".join(e.value.pattern) for e in res.all_entries()]
    if vals and (
        any("'" in v or '"' in v for v in vals)
        or res.comment
        or res.meta
        or any(e.comment for s in res.sections for e in s.entries)
    ):
        ctx.nontrivial()
        if any("'" in v and '"' in v for v in vals):
            ctx.label("both quotes")
        if len(res.meta) > 1:
            ctx.label("several references")


# ------------------------------------------------------------------ source with known meaning

sname = gen.ident("abcXYZ_:", "abcXYZ_019-.:", 5)
sp1 = st.sampled_from([" ", " ", "  ", "\n", "\t", " \n  "])
sp0 = st.sampled_from(["", "", "", " ", "\n"])
val_chars = gen.text(["&a;", "%", "<", ">", "&quot;", "\n", "<!", "\u00a0"], exclude="\"'", any=XANY, max_size=8).filter(
    lambda s: not re.search(r"<!\s*--", s)
)


@st.composite
def tokens(draw):
    n = draw(st.integers(1, 7))
    toks = []
    for _ in range(n):
        kind = draw(st.sampled_from("eeeccci"))
        sep = draw(
            st.sampled_from(["\n", "\n", "\n", "\n\n", "\n\n", " \n \n", "\n\n\n", "", " ", "\t"])
        )
        if kind == "e":
            nm = draw(sname)
            v = draw(val_chars)
            q = draw(st.sampled_from("'\""))
            if q == '"' and draw(st.integers(0, 3)) == 0:
                v += "'"
            elif q == "'" and draw(st.integers(0, 3)) == 0:
                v += '"'
            toks.append(("e", sep, f"<!ENTITY{draw(sp1)}{nm}{draw(sp1)}{q}{v}{q}{draw(sp0)}>", nm, v))
        elif kind == "i":
            nm = draw(sname)
            v = draw(st.text("abc/:.", max_size=6))
            q = draw(st.sampled_from("'\""))
            mid = draw(st.sampled_from(["\n", " ", ""]))
            toks.append(
                ("i", sep, f"<!ENTITY{draw(sp1)}%{draw(sp1)}{nm} SYSTEM {q}{v}{q}>{mid}%{nm};", nm, v)
            )
        else:
            v = draw(gen.text(["\n", " ", "-", "'", '"', "<b>", "&"], max_size=8, exclude=">")).strip()
            v = re.sub("--+", "-", v).strip("-").strip()
            if draw(st.integers(0, 7)) == 0:
                v = (v + " <!ENTITY foo 'bar'> x").strip()
            o = draw(st.sampled_from(["<!--", "<!-- ", "<!--\n", "<! -- "]))
            c = draw(st.sampled_from(["-->", " -->", "\n-->", " -- >"]))
            toks.append(("c", sep, o + v + c, None, v))
    end = draw(st.sampled_from(["", "\n", "\n\n"]))
    return toks, end


def denoted(toks, end):
    """The model denoted by the tokens."""
    entries = []
    meta = []
    rescomment = ""
    pend = ""
    newlines = 0  # in the run of white space and references since the last entity or comment
    last = None  # kind of the last entity or comment
    for kind, sep, src, nm, v in [*toks, ("end", end, "", None, None)]:
        newlines += sep.count("\n")
        if kind == "i":
            meta.append(Metadata(nm, v))
            newlines += src.count("\n")
            continue
        if pend and newlines > 1:
            if entries or rescomment:
                entries.append(Comment(pend))
            else:
                rescomment = pend
            pend = ""
        if kind == "e":
            entries.append(Entry((nm,), PatternMessage([v]), comment=pend))
            pend = ""
            last = "e"
        elif kind == "c":
            pend = f"{pend}\n{v}" if pend else v
            if pend:
                if last == "e" and newlines == 0:
                    prev = entries[-1]
                    prev.comment = f"{prev.comment}\n{pend}" if prev.comment else pend
                    pend = ""
                elif "<!ENTITY foo" in pend:
                    entries.append(Comment(pend))
                    pend = ""
            last = "c"
        newlines = 0
    if pend:
        entries.append(Comment(pend))
    return Resource(Format.dtd, [Section((), entries)], comment=rescomment, meta=meta)


def check_source(case, ctx):
    toks, end = case
    src = "".join(sep + s for _, sep, s, _, _ in toks) + end
    expected = denoted(toks, end)
    for text in (src, src.encode("utf8")):
        d = gen.diff(expected, dtd_parse(text))
        if d:
            raise Violation(f"{d}\nin {src!r}")
    if len(toks) > 1 and any(t[0] in "ci" for t in toks):
        ctx.nontrivial()
        ctx.label("".join(sorted({t[0] for t in toks})))


# ------------------------------------------------------------------ rejected content

bad = st.sampled_from(
    [
        ("id", ("1abc",)), ("id", ("a b",)), ("id", ("",)), ("id", ("-a",)), ("id", ("a", "b c")),
        ("id", ("a\nb",)), ("id", ("a>",)), ("id", ("a'",)), ("id", ("%a",)), ("id", ("a;",)),
        ("value", PatternMessage([Expression(VariableRef("x"))])),
        ("value", PatternMessage(["a", Expression("b", "c", attributes={"source": "x"})])),
        ("value", SelectMessage({"n": Expression(VariableRef("n"), "number")}, (VariableRef("n"),), {("1",): ["x"]})),
        ("emeta", [Metadata("k", "v")]), ("smeta", [Metadata("k", "v")]),
    ]
)  # fmt: skip


def check_reject(case, ctx):
    res, (where, what) = case
    res = copy.deepcopy(res)
    e = Entry(("ok",), PatternMessage(["x"]))
    s = Section((), [e])
    if where == "id":
        e.id = what
    elif where == "value":
        e.value = what
    elif where == "emeta":
        e.meta = what
    else:
        s.meta = what
    res.sections.append(s)
    try:
        src = "".join(dtd_serialize(res))
    except ValueError:
        ctx.nontrivial()
        return
    raise Violation(f"not rejected: {where}={what!r}\n{src!r}")


# ------------------------------------------------------------------ junk is never silently dropped

def check_junk(case, ctx):
    (toks, end), pos, junk = case
    pos %= len(toks) + 1
    src = "".join(sep + s for _, sep, s, _, _ in toks[:pos]) + "\n" + junk + "\n"
    src += "".join(sep + s for _, sep, s, _, _ in toks[pos:]) + end
    try:
        res = dtd_parse(src)
    except ValueError:
        ctx.nontrivial()
        return
    raise Violation(f"{junk!r} was ignored in {src!r}: {res!r}")


junk = st.sampled_from(
    ["foo", "<!ENTITY a b>", "<!ENTITY 1a 'b'>", "<!ENTITY a 'b'", "%foo;", "<foo>", "<!ELEMENT a>", "=", "<!ENTITY % x SYSTEM 'y'>", "x <!-- c -->"]
)

SUBS = [
    Sub("model", resources, check_model, 9000),
    Sub("source", tokens, check_source, 12000),
    Sub("reject", lambda: st.tuples(resources(), bad), check_reject, 1500),
    Sub("junk", lambda: st.tuples(tokens(), st.integers(0, 9), junk), check_junk, 3000),
]
