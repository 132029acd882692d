"""P04: .ini files: the parser reads the documented syntax, and serialization inverts it."""

from __future__ import annotations

import copy
import re
from io import StringIO

from hypothesis import strategies as st

from lib import gen
from lib.harness import Sub, Violation
from moz.l10n.formats import Format
from moz.l10n.formats.ini import ini_parse, ini_serialize
from moz.l10n.model import (
    Comment,
    Entry,
    Expression,
    Metadata,
    PatternMessage,
    Resource,
    Section,
    SelectMessage,
    VariableRef,
)

PROPERTY = "P04"
RULE = (
    "model: generated resources of 1-3 sections (multi-line values, values and ids with = : ; # [ ],"
    " ids starting with rem, comments on every level); non-trivial = a comment, a multi-line value, or"
    " a special character in a value or id. source: line sequences with their denoted model;"
    " non-trivial = at least three kinds of lines. reject: an id, section, message or metadata that"
    " the syntax cannot carry; junk: content outside of the syntax."
)
ASSUMPTIONS = [
    "values have no leading white space on any line and no trailing white space (the parser trims it),"
    " and no ; preceded by white space on their first line (which starts a comment)",
]

VANY = st.characters(exclude_categories=("Cs", "Cc", "Zs"), exclude_characters="\ufeff")


def ok_id(s):
    return bool(s) and s == s.strip() and not re.match(r"[#;]|(?i:rem)\s", s)


name = st.one_of(
    gen.text([" ", "#", ";", ".", "rem", "%", "'", "\u2028"], any=VANY, exclude="\u00a0\u2028", min_size=1, max_size=6).filter(
        lambda s: ok_id(s) and not re.search(r"[\n:=[\]]", s)
    ),
    st.sampled_from(["rem", "remove", "Remark", "REM1", "DEFAULT", "TitleText", "default"]),
)
vline = gen.text([" ", "=", ":", ";", "#", "[x]", "[", "]", "rem ", "a=b", "\t", "%"], any=VANY, exclude="\u00a0", max_size=8).map(str.strip)


@st.composite
def values_(draw):
    lines = draw(st.lists(vline, max_size=4))
    if draw(st.integers(0, 9)) == 0 and lines:
        lines[0] += "x\u2028x"
    while lines and not lines[-1]:
        lines.pop()
    if lines:
        # ' ;' would start a comment
        lines[0] = re.sub(r"\s;", ";", lines[0])
        lines[0] = re.sub(r"\s+;", ";", lines[0])
    return lines


cmt = gen.comment("[]=:;", any=VANY, exclude="\u2028")


@st.composite
def resources(draw):
    sections = []
    for _ in range(draw(st.integers(1, 3))):
        sid = tuple(draw(st.lists(name, min_size=1, max_size=2)))
        if not ok_id(".".join(sid)):
            sid = ("S",)
        entries = []
        for _ in range(draw(st.integers(0, 4))):
            if draw(st.integers(0, 4)) == 0:
                entries.append(Comment(draw(cmt)))
            else:
                parts = tuple(draw(st.lists(name, min_size=1, max_size=2)))
                if not ok_id(".".join(parts)):
                    parts = ("x",)
                lines = draw(values_())
                nl = draw(st.sampled_from(["\n", "\n", "\n", "\r\n"]))
                val = nl.join(lines)
                cut = draw(st.integers(0, len(val)))
                pat = [val] if draw(st.booleans()) else [val[:cut], val[cut:]]
                entries.append(
                    Entry(parts, PatternMessage(pat), comment=draw(st.one_of(st.just(""), cmt)))
                )
        sections.append(Section(sid, entries, comment=draw(st.one_of(st.just(""), cmt))))
    return Resource(Format.ini, sections, comment=draw(st.one_of(st.just(""), cmt)))


def flat(res, trim):
    def c(x):
        return "" if trim else x

    sections = []
    for s in res.sections:
        entries = []
        for e in s.entries:
            if isinstance(e, Comment):
                if c(e.comment):
                    entries.append(Comment(e.comment))
            else:
                val = "".join(e.value.pattern).replace("\r\n", "\n")
                entries.append(Entry((".".join(e.id),), PatternMessage([val]), comment=c(e.comment)))
        sections.append(Section((".".join(s.id),), entries, comment=c(s.comment)))
    return Resource(Format.ini, sections, comment=c(res.comment))


def check_model(res, ctx):
    before = copy.deepcopy(res)
    for trim in (False, True):
        src = "".join(ini_serialize(res, trim_comments=trim))
        d = gen.diff(before, res)
        if d:
            raise Violation(f"serialize changed its input: {d}")
        expected = flat(res, trim)
        for data in (src, src.encode("utf8"), StringIO(src)):
            parsed = ini_parse(data)
            d = gen.diff(expected, parsed)
            if d:
                raise Violation(f"trim={trim} {d}\n{src!r}")
        back = "".join(ini_serialize(parsed))
        if back != src:
            raise Violation(f"not a fixpoint:\n{src!r}\n{back!r}")
    es = list(res.all_entries())
    strs = ["".join(e.value.pattern) for e in es] + [p for e in es for p in e.id]
    if es and (any(not s.isalnum() for s in strs) or res.comment):
        ctx.nontrivial()
        if any("\n" in s for s in strs):
            ctx.label("multi-line value")
        if any(e.id[0].lower().startswith("rem") for e in es):
            ctx.label("rem...")


# ------------------------------------------------------------------ source with known meaning

ws = st.sampled_from(["", "", " ", "\t"])
line_ = st.one_of(
    st.tuples(st.just("opt"), name, st.sampled_from(["=", " = ", ":", " : ", "= "]), vline),
    st.tuples(st.just("opt"), name, st.sampled_from(["=", " = ", ":", " : ", "= "]), vline),
    st.tuples(st.just("optc"), name, st.sampled_from(["abc", "a b", "x;y"]), st.sampled_from(["c", " d e"])),
    st.tuples(st.just("cont"), st.sampled_from([" ", "\t", "    "]), vline),
    st.tuples(st.just("cont"), st.sampled_from([" ", "\t", "    "]), vline),
    st.tuples(st.just("comment"), st.sampled_from(["#", ";", "# ", "; "]), vline),
    st.tuples(st.just("rem"), st.sampled_from(["rem ", "REM "]), vline),
    st.tuples(st.just("section"), name, st.sampled_from(["", "", " ", " ;c", "# c"])),
    st.tuples(st.just("empty"), ws),
    st.tuples(st.just("empty"), ws),
)


@st.composite
def sources(draw):
    return (
        (
            draw(st.lists(line_.filter(lambda x: x[0] in ("comment", "empty", "rem")), max_size=7))
            + [("section", draw(name), "")]
            + draw(st.lists(line_, max_size=10))
        ),
        draw(st.sampled_from(["\n", "\n", "\r\n"])),
        draw(st.booleans()),
    )


def check_source(case, ctx):
    lines, eol, last = case
    out = []
    res = Resource(Format.ini, [])
    section = None
    opt = None
    opt_started = False
    pend = ""

    def add(c):
        nonlocal pend
        c = c[1:] if c.startswith(" ") else c
        pend = f"{pend}\n{c}" if pend else c

    def flush():
        nonlocal pend
        if pend:
            if section:
                section.entries.append(Comment(pend))
            else:
                res.comment = f"{res.comment}\n\n{pend}" if res.comment else pend
        pend = ""

    for ln in lines:
        kind = ln[0]
        if kind in ("opt", "optc"):
            if section is None:
                continue
            if kind == "opt":
                _, nm, sep, val = ln
                if nm.lower() == "rem":
                    sep = sep.lstrip()
                val = re.sub(r"\s*;", ";", val)
                out.append(nm + sep + val)
            else:
                _, nm, val, c = ln
                out.append(f"{nm}={val} ;{c}")
                if ";" in val:  # only the first ; is considered
                    val = f"{val} ;{c}"
                else:
                    add(c)
            opt = Entry((nm,), PatternMessage([val]), comment=pend)
            section.entries.append(opt)
            pend = ""
        elif kind == "cont":
            if opt is None or not ln[2]:
                continue
            out.append(ln[1] + ln[2])
            opt.value.pattern[0] += "\n" + ln[2]
        elif kind in ("comment", "rem"):
            out.append((ln[1] + ln[2]).rstrip())
            opt = None
            body = (ln[1] + ln[2]).rstrip()[3 if kind == "rem" else 1 :]
            add(body)
        elif kind == "section":
            out.append(f"[{ln[1]}]{ln[2]}")
            opt = None
            c = ln[2].strip()
            if c:
                add(c[1:])
            section = Section((ln[1],), [], comment=pend)
            res.sections.append(section)
            pend = ""
        else:
            out.append(ln[1])
            if opt is not None:
                opt.value.pattern[0] += "\n"
            else:
                pass
            flush()
    flush()
    for e in res.all_entries():
        e.value.pattern[0] = e.value.pattern[0].rstrip("\n")
    src = eol.join(out) + (eol if last else "")
    for data in (src, src.encode("utf8"), StringIO(src)):
        d = gen.diff(res, ini_parse(data))
        if d:
            raise Violation(f"{d}\nin {src!r}")
    if len({ln[0] for ln in lines}) > 2 and res.sections:
        ctx.nontrivial()
        if any("\n" in e.value.pattern[0] for e in res.all_entries()):
            ctx.label("multi-line value")


# ------------------------------------------------------------------ rejected content

bad_id = [("a=b",), ("a:b",), ("[a",), ("a]",), (" a",), ("a ",), ("a\nb",), ("\ta",), ("a", "b=c")]
bad = st.sampled_from(
    [("id", i) for i in bad_id]
    + [("id", i) for i in [("",), ("#a",), (";a",), ("rem x",)]]
    + [("section", i) for i in bad_id]
    + [
        ("section", ()), ("section", ("",)),
        ("value", PatternMessage([Expression(VariableRef("x"))])),
        ("value", PatternMessage(["a", Expression("b", "c", attributes={"source": "x"})])),
        ("value", SelectMessage({"n": Expression(VariableRef("n"), "number")}, (VariableRef("n"),), {("1",): ["x"]})),
        ("emeta", [Metadata("k", "v")]), ("smeta", [Metadata("k", "v")]), ("rmeta", [Metadata("k", "v")]),
    ]
)  # fmt: skip


def check_reject(case, ctx):
    res, (where, what) = case
    res = copy.deepcopy(res)
    e = Entry(("ok",), PatternMessage(["x"]))
    s = Section(("ok",), [e])
    if where == "id":
        e.id = what
    elif where == "value":
        e.value = what
    elif where == "section":
        s.id = what
    elif where == "emeta":
        e.meta = what
    elif where == "smeta":
        s.meta = what
    else:
        res.meta = what
    res.sections.append(s)
    try:
        src = "".join(ini_serialize(res))
    except ValueError:
        ctx.nontrivial()
        return
    raise Violation(f"not rejected: {where}={what!r}\n{src!r}")


junk = st.sampled_from(["foo", "= x", "[foo", "[]", "<!-- x -->"])


def check_junk(case, ctx):
    res, j, first = case
    good = "".join(ini_serialize(res))
    src = j + "\n" + good if first else good + "\n" + j + "\n"
    if first and j == "foo":
        src = "x=1\n" + good  # a value outside of any section
    try:
        got = ini_parse(src)
    except Exception:
        ctx.nontrivial()
        return
    raise Violation(f"{j!r} was accepted in {src!r}: {got!r}")


SUBS = [
    Sub("model", resources, check_model, 5000),
    Sub("source", sources, check_source, 10000),
    Sub("reject", lambda: st.tuples(resources(), bad), check_reject, 1500),
    Sub("junk", lambda: st.tuples(resources(), junk, st.booleans()), check_junk, 1500),
]
