"""P07: gettext .po files."""

from __future__ import annotations

import copy
import random
import re

from hypothesis import strategies as st

from lib import gen
from lib.harness import Sub, Violation
from moz.l10n.formats import Format
from moz.l10n.formats.gettext import gettext_parse, gettext_serialize
from moz.l10n.model import (
    CatchallKey,
    Comment,
    Entry,
    Expression,
    Markup,
    Metadata,
    PatternMessage,
    Resource,
    Section,
    SelectMessage,
    VariableRef,
)

PROPERTY = "P07"
RULE = (
    "model: generated resources with contexts, plurals (1-6 forms), flags, references, comments, obsolete"
    " entries and header metadata; non-trivial = a plural, an escape, or metadata. source: .po text from an"
    " independent writer (split strings, obsolete markers, several references per line, CRLF), with its"
    " known content; reject: content that .po cannot hold."
)
ASSUMPTIONS = [
    "text does not contain U+001C-001E, U+0085, U+2028, U+2029, which polib treats as line breaks",
    "extracted comments have no empty lines; references and flags contain no spaces or commas; obsolete"
    " entries have no references or extracted comments (polib does not write these)",
    "comment lines are shorter than the wrapping width",
]

TANY = st.characters(exclude_categories=("Cs", "Cc", "Zl", "Zp"))
val = gen.text(
    ["\n", "\t", '"', "\\", "\\n", " ", "\r", "-", "--", "%d", "\v", "\f", "\b", "#", "msgid"], any=TANY, exclude="\u2028"
)
long_val = st.lists(val, min_size=5, max_size=40).map(" ".join)
value = st.one_of(val, val, val, val, long_val)
nonempty = value.map(lambda s: s or "x")
cmt_any = st.characters(exclude_categories=("Cs", "Cc", "Zl", "Zp", "Zs"))
cmt_line = gen.text("abc #.,:|~\"", any=cmt_any, exclude="\u2028\u00a0", min_size=1, max_size=10).map(str.strip).map(
    lambda s: s or "c"
)
# the indent of a comment's lines is a part of it
cmt_line = st.one_of(cmt_line, cmt_line, cmt_line, st.tuples(st.sampled_from(["  ", "\t", "     "]), cmt_line).map("".join))
tcmt = st.one_of(
    st.lists(cmt_line, min_size=1, max_size=3).map("\n".join),
    st.tuples(cmt_line, cmt_line).map("\n\n".join),
)
# polib writes header lines starting with , or : as #, or #:
header = tcmt.map(lambda s: re.sub(r"(?m)^[,:]+", "x", s))
ecmt = st.lists(cmt_line, min_size=1, max_size=3).map("\n".join)
ref = st.one_of(
    st.tuples(st.sampled_from(["a.c", "src/b-c.py", "C:\\x.c", "a:b", "ä.js"]), st.sampled_from(["", "0", "12", "345"]))
).map(lambda t: f"{t[0]}:{t[1]}")
flag = st.sampled_from(["fuzzy", "c-format", "no-wrap", "python-brace-format"])
CLDR = ["one", "two", "few", "many", "zero", "other"]


@st.composite
def entries(draw, nplurals, plurals):
    obsolete = draw(st.integers(0, 5)) == 0
    eid = (draw(nonempty),)
    if draw(st.integers(0, 3)) == 0:
        eid += (draw(val),)
    meta = []
    if draw(st.integers(0, 3)) == 0:
        meta.append(Metadata("translator-comments", draw(tcmt)))
    if not obsolete:
        meta += [Metadata("reference", r) for r in draw(st.lists(ref, max_size=3))]
    if obsolete:
        meta.append(Metadata("obsolete", "true"))
    meta += [Metadata("flag", f) for f in draw(st.lists(flag, max_size=2))]
    if draw(st.integers(0, 2)) == 0:
        meta.append(Metadata("plural", draw(nonempty)))
        variants = {}
        for i in range(nplurals):
            name = plurals[i] if plurals else str(i)
            key = CatchallKey(name) if i == nplurals - 1 else name
            variants[(key,)] = [draw(value)]
        msg = SelectMessage({"n": Expression(VariableRef("n"), "number")}, (VariableRef("n"),), variants)
    else:
        msg = PatternMessage([draw(value)])
    comment = "" if obsolete or draw(st.integers(0, 2)) else draw(ecmt)
    return Entry(eid, msg, comment=comment, meta=meta)


META_KEYS = ["Project-Id-Version", "Language", "PO-Revision-Date", "X-Generator", "X-b", "MIME-Version"]
mval = gen.text("abc :<>@;%\"\\=", any=cmt_any, exclude="\u2028\u00a0", max_size=8).map(str.strip)


@st.composite
def resources(draw):
    nplurals = draw(st.integers(1, 6))
    plurals = CLDR[6 - nplurals :] if draw(st.integers(0, 3)) == 0 else None
    meta = [Metadata(k, draw(mval)) for k in draw(st.lists(st.sampled_from(META_KEYS), unique=True, max_size=3))]
    has_plural_forms = draw(st.integers(0, 9)) > 0
    if has_plural_forms:
        meta.append(
            Metadata("Plural-Forms", f"nplurals={nplurals}; plural=" + draw(st.sampled_from(["(n != 1);", "0;"])))
        )
    es = draw(st.lists(entries(nplurals, plurals), max_size=5))
    cut = draw(st.integers(0, len(es)))
    sections = [Section((), es)] if draw(st.integers(0, 3)) else [Section((), es[:cut]), Section((), es[cut:])]
    res = Resource(Format.gettext, sections, draw(st.one_of(st.just(""), header)), meta)
    # the unlabelled catchall, and text split into parts, mean the same
    sparse = has_plural_forms and draw(st.integers(0, 2)) == 0
    return res, plurals, sparse, draw(st.integers(0, 10**6)), draw(st.sampled_from([0, 40, 78, 200, 200]))


def flat(res, trim):
    def c(x):
        return "" if trim else x

    es = []
    for e in res.all_entries():
        if trim and e.get_meta("obsolete"):
            continue
        meta = [m for m in e.meta if m.key == "plural" or not trim]
        es.append(Entry(e.id, e.value, comment=c(e.comment), meta=meta))
    return Resource(Format.gettext, [Section((), es)], c(res.comment), sorted(res.meta, key=lambda m: m.key))


def vary(res, sparse, seed, plurals):
    """Change `res` in ways that do not count; returns the resource that is expected back."""
    rnd = random.Random(seed)
    out = copy.deepcopy(res)
    if rnd.random() < 0.2:
        for m in out.meta:
            m.value = f"  {m.value} "
    for e in out.all_entries():
        e.meta = sorted(e.meta, key=lambda m: rnd.random()) if not e.get_meta("reference") and len(
            {m.key for m in e.meta}
        ) == len(e.meta) else e.meta
        if not e.get_meta("obsolete") and rnd.random() < 0.1:
            e.meta.append(Metadata("obsolete", "false"))
        for i, m in enumerate(e.meta):
            # Separate comments are joined as lines
            a, nl, b = m.value.partition("\n")
            if m.key == "translator-comments" and nl and a.strip() and b.split("\n")[0].strip() and rnd.random() < 0.5:
                e.meta[i : i + 1] = [Metadata(m.key, a), Metadata(m.key, b)]
                break
        for m in e.meta:
            # Anything but "false" marks an obsolete entry
            if m.key == "obsolete" and m.value == "true" and rnd.random() < 0.3:
                m.value = rnd.choice(["", "1", "yes", "True"])
        if isinstance(e.value, PatternMessage):
            s = e.value.pattern[0]
            if rnd.random() < 0.3:
                k = rnd.randint(0, len(s))
                e.value.pattern = [s[:k], s[k:]]
            elif s == "" and rnd.random() < 0.5:
                e.value.pattern = []
        elif sparse:
            vs = list(e.value.variants.items())
            orig = next(o for o in res.all_entries() if o.id == e.id and o.value == e.value)
            keep = []
            for (key,), pat in vs[:-1]:
                if rnd.random() < 0.3:
                    orig.value.variants[(key,)] = [""]  # left out
                else:
                    keep.append(((key,), pat))
            (ck,), cp = vs[-1]
            keep.append(((CatchallKey(rnd.choice([None, ck.value, "any", "99"])),), cp))
            rnd.shuffle(keep)
            e.value.variants = dict(keep)
    return out


def sort_meta(res):
    res.meta.sort(key=lambda m: m.key)
    return res


def check_model(case, ctx):
    res, plurals, sparse, seed, width = case
    res = copy.deepcopy(res)
    ids = [(e.id, repr(e.value)) for e in res.all_entries()]
    given = vary(res, sparse and len(set(ids)) == len(ids), seed, plurals)
    before = copy.deepcopy(given)
    for trim in (False, True):
        src = "".join(gettext_serialize(given, plurals=plurals, trim_comments=trim, wrapwidth=width))
        d = gen.diff(before, given)
        if d:
            raise Violation(f"serialize changed its input: {d}")
        expected = flat(res, trim)
        for data in (src, src.encode("utf8")):
            parsed = gettext_parse(data, plurals=plurals)
            d = gen.diff(expected, sort_meta(copy.deepcopy(parsed)))
            if d:
                raise Violation(f"trim={trim} {d}\n{src!r}")
        back = "".join(gettext_serialize(parsed, plurals=plurals, wrapwidth=width))
        if back != src and {(m.key, m.value) for m in parsed.meta} == {(m.key, m.value) for m in given.meta}:
            raise Violation(f"not a fixpoint:\n{src!r}\n{back!r}")
        active = gettext_parse(src, plurals=plurals, skip_obsolete=True)
        expected.sections[0].entries = [e for e in expected.sections[0].entries if not e.get_meta("obsolete")]
        d = gen.diff(expected, sort_meta(active))
        if d:
            raise Violation(f"skip_obsolete: {d}\n{src!r}")
    es = list(res.all_entries())
    if any(e.meta for e in es) or len(es) > 2:
        ctx.nontrivial()
        if any(isinstance(e.value, SelectMessage) for e in es):
            ctx.label("plural")
        if any(e.get_meta("obsolete") for e in es):
            ctx.label("obsolete")
        if any(len(e.id) > 1 for e in es):
            ctx.label("context")


# ------------------------------------------------------------------ source from an independent writer

ESC = {"\\": "\\\\", "\n": "\\n", "\t": "\\t", "\r": "\\r", '"': '\\"', "\v": "\\v", "\f": "\\f", "\b": "\\b"}


def quote(s, rnd):
    esc = ["" + ESC.get(c, c) for c in s]
    mode = rnd.randint(0, 3)
    if mode == 0 and esc:  # split anywhere
        cuts = sorted(rnd.randint(0, len(esc)) for _ in range(rnd.randint(1, 3)))
        parts = ["".join(esc[a:b]) for a, b in zip([0, *cuts], [*cuts, len(esc)])]
    elif mode == 1:
        parts = [""] + re.findall(r"(?s).*?\\n|.+\Z", "".join(esc)) if esc and "\\" not in s else ["".join(esc)]
    else:
        parts = ["".join(esc)]
    return [f'"{p}"' for p in parts]


def write_po(res, rnd):
    out = []
    for ln in res.comment.split("\n") if res.comment else []:
        out.append(f"# {ln}" if ln else "#")
    if res.meta or rnd.random() < 0.5 or res.comment:
        if rnd.random() < 0.2:
            out.append("#, fuzzy")
        out.append('msgid ""')
        out.append('msgstr ""')
        for m in res.meta:
            out += quote(f"{m.key}: {m.value}\n", random.Random(9))[:1] if rnd.random() < 0 else [
                '"' + "".join(ESC.get(c, c) for c in f"{m.key}: {m.value}\n") + '"'
            ]
        out.append("")
    else:
        out.append('msgid ""')
        out.append('msgstr ""')
        out.append("")
    for e in res.all_entries():
        ob = "#~ " if e.get_meta("obsolete") else ""
        groups = []
        tc = e.get_meta("translator-comments")
        if tc:
            groups.append([f"# {ln}" if ln else "#" for ln in tc.split("\n")])
        if e.comment:
            groups.append([f"#. {ln}" for ln in e.comment.split("\n")])
        refs = [m.value.removesuffix(":") for m in e.meta if m.key == "reference"]
        if refs:
            groups.append(["#: " + " ".join(refs)] if rnd.random() < 0.5 else [f"#: {r}" for r in refs])
        flags = [m.value for m in e.meta if m.key == "flag"]
        if flags:
            groups.append(["#, " + ", ".join(flags)] if rnd.random() < 0.5 else [f"#, {f}" for f in flags])
        if rnd.random() < 0.3:
            groups.append([('#~| ' if ob else '#| ') + 'msgid "old \\"id\\""'])
        rnd.shuffle(groups)
        for g in groups:
            out += g

        def field(name, s):
            q = quote(s, rnd)
            out.append(f"{ob}{name}{rnd.choice([' ', ' ', '  ', chr(9)])}{q[0]}")
            out.extend(ob + p for p in q[1:])

        if len(e.id) == 2:
            field("msgctxt", e.id[1])
        field("msgid", e.id[0])
        plural = e.get_meta("plural")
        if plural:
            field("msgid_plural", plural)
        if isinstance(e.value, PatternMessage):
            field("msgstr", e.value.pattern[0])
        else:
            forms = list(enumerate(e.value.variants.values()))
            if rnd.random() < 0.15:
                rnd.shuffle(forms)
            for i, pat in forms:
                q = quote(pat[0], rnd)
                out.append(f"{ob}msgstr[{i}] {q[0]}")
                out.extend(ob + p for p in q[1:])
        out += [""] * rnd.choice([1, 1, 1, 0, 2])
    eol = rnd.choice(["\n", "\n", "\n", "\r\n"])
    return ("\ufeff" if rnd.random() < 0.1 else "") + eol.join(out) + eol


def check_source(case, ctx):
    res, plurals, _, seed, _ = case
    src = write_po(res, random.Random(seed))
    expected = flat(res, False)
    for data in (src, src.encode("utf8")):
        got = sort_meta(gettext_parse(data, plurals=plurals))
        d = gen.diff(expected, got)
        if d:
            raise Violation(f"{d}\nin {src!r}")
    if sum(1 for _ in res.all_entries()) > 1 or res.comment:
        ctx.nontrivial(src)
        if plurals:
            ctx.label("named plurals")


# ------------------------------------------------------------------ rejected content

N = Expression(VariableRef("n"), "number")
nref = VariableRef("n")
bad = st.sampled_from(
    [
        ("comment", Comment("x")),
        ("entry", Entry(("a", "b", "c"), PatternMessage(["x"]))),
        ("entry", Entry((), PatternMessage(["x"]))),
        ("entry", Entry(("a",), PatternMessage([Expression(VariableRef("x"))]))),
        ("entry", Entry(("a",), PatternMessage(["x", Markup("standalone", "b")]))),
        ("entry", Entry(("a",), PatternMessage(["x"]), meta=[Metadata("k", "v")])),
        ("entry", Entry(("a",), SelectMessage({"n": Expression(nref, "string")}, (nref,), {(CatchallKey(),): ["x"]}))),
        (
            "entry",
            Entry(
                ("a",),
                SelectMessage({"n": Expression(nref, "number", {"select": "ordinal"})}, (nref,), {(CatchallKey(),): ["x"]}),
            ),
        ),
        (
            "entry",
            Entry(
                ("a",),
                SelectMessage(
                    {"n": N, "m": N}, (nref, VariableRef("m")), {(CatchallKey(), CatchallKey()): ["x"]}
                ),
            ),
        ),
        ("entry", Entry(("a",), SelectMessage({"n": N, "m": N}, (nref,), {("0",): ["x"], (CatchallKey(),): ["x"]}))),
        ("entry", Entry(("a",), SelectMessage({"n": N}, (nref,), {("x",): ["x"], (CatchallKey(),): ["x"]}))),
        ("entry", Entry(("a",), SelectMessage({"n": N}, (nref,), {("0",): [Expression(nref)], (CatchallKey(),): ["x"]}))),
        ("section", Section(("s",), [])),
        ("section", Section((), [], comment="c")),
        ("section", Section((), [], meta=[Metadata("k", "v")])),
    ]
)


def check_reject(case, ctx):
    (res, plurals, *_), (kind, what), trim = case
    res = copy.deepcopy(res)
    if kind == "section":
        res.sections.append(what)
    else:
        res.sections[-1].entries.append(what)
    if trim and (kind == "comment" or getattr(what, "meta", None) or getattr(what, "comment", "")):
        return
    try:
        src = "".join(gettext_serialize(res, plurals=plurals, trim_comments=trim))
    except Exception:
        ctx.nontrivial((what, len(res.sections[0].entries)))
        return
    raise Violation(f"not rejected: {what!r}\n{src!r}")


broken = st.sampled_from(
    ['foo', 'msgid foo"bar"x"', 'msgstr "orphan"\nmsgstr "x"', 'msgid_plural "x"', '"continuation"', "[0]", "#| foo bar"]
)


def check_junk(case, ctx):
    (res, _, _, seed, _), junk = case
    src = write_po(res, random.Random(seed)) if not junk.startswith('"') else ""
    src = junk + "\n\n" + src
    try:
        got = gettext_parse(src)
    except Exception:
        ctx.nontrivial(src)
        return
    raise Violation(f"accepted {src!r}: {got!r}")


SUBS = [
    Sub("model", resources, check_model, 4000),
    Sub("source", resources, check_source, 5000),
    Sub("reject", lambda: st.tuples(resources(), bad, st.booleans()), check_reject, 800),
    Sub("junk", lambda: st.tuples(resources(), broken), check_junk, 400),
]
